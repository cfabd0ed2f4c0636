#include "common.hpp"
#include "alloc.hpp"
#include "mondrian_coarse.hpp"
#include "mondrian_ref.hpp"
#include <sstream>
#include <array>
using namespace vf;
static bool g_triggers = false; // whether nodes may also be split because of the forced extensions: only in the test of the known findings
template<class St, int F_, int L, int MAX, int TMAX> struct Ad{
	typedef double F; static const int FC = F_, LC = L; static const bool assigns = false; static const size_t bytes = MAX;
	typedef CoarseMondrianForest<double, MFn, St, F_, L, MAX> Obj;
	typedef MondrianNode<F_, L> Node; typedef typename Obj::TreeBase Base;
	static int trees(Rng& r){ return 1 + r.below(r.below(2) ? TMAX : min(TMAX, 4)); }
	// the bases of the trees come first, then as many nodes as there is room for
	static long pool(int t){ return (MAX - MAX % (long)alignof(Base) - t * (long)sizeof(Base)) / (long)sizeof(Node); }
	static void tune(RConf& c, Rng& r, int t, bool trim){
		static int const modes[] = { R_NONE, R_ORIGINAL, R_GHOST, R_PARTIAL, R_COUNTER, R_BARY }; c.mode = modes[r.below(6)]; c.forced_part = c.mode != R_BARY || r.below(2) ? 1 : r.below(4) ? r.u01() : 0; c.management = r.below(5); c.size_type = r.below(2); long const p = pool(t);
		int const how = r.below(4); c.limit = how == 0 ? -1 : how == 1 ? 0 : how == 2 ? 1 + r.below(12) : 1 + r.below(p + 3); c.depth_limit = c.size_limit = INT_MAX;
		if(c.management <= OPTIMISTIC_COBBLE_MANAGEMENT) c.depth_limit = c.limit > 0 ? c.limit : p;
		else if(c.management == ROBUR_MANAGEMENT){ c.size_limit = c.limit > 0 ? c.limit : p / t; if(c.size_limit % 2 == 0) --c.size_limit; }
		else if(c.management == PAUSING_PHOENIX_MANAGEMENT) c.size_limit = p;
		c.size_is_depth = c.size_type == DEPTH_SIZE; c.point_fading = r.below(2) ? 1 : r.real(0.5, 1);
		if(trim && r.below(3)){ c.trim = 1 + r.below(3); c.trim_max = r.below(3) ? 1 : r.real(0, 0.6); }
	}
	// the barycentre extension can also split nodes where points are: half of the time when it is used with trimming
	static void splitting(RConf& c, Rng& r){
		if(g_triggers || r.below(8) == 0){ c.mode = R_BARY; c.trim = 1 + r.below(3); }
		if(c.mode == R_BARY && (g_triggers || r.below(2))){ c.split_helper = r.below(3); int const trigger = 1 + r.below(3); c.forced_share = r.below(4); if(g_triggers) c.split_trigger = trigger; }
	}
	static void unlimited(RConf& c){ c.management = PHOENIX_MANAGEMENT; c.limit = -1; c.depth_limit = c.size_limit = INT_MAX; }
	static Obj* construct(void* p, RConf const& c, int t, bool print = false){
		// an automatic variable can start at any address its alignment allows: nothing else is assumed
		return new(p) Obj(c.lifetime, c.base, c.discount, t, c.management, c.size_type, c.limit, 0, print, c.forced_share, c.split_trigger, 1.0, true, true, c.forced_part, c.point_fading, c.split_helper, c.mode, c.trim, c.trim_max);
	}
	// ------------------------------------------------ structure of the trees
	struct View{ Node const* n; Base const* b; int T; long P; };
	static View view(Obj& o, int T){ View v; v.n = o.get_nodes(); v.b = o.get_bases(); v.T = T; v.P = pool(T); return v; }
	static int levels(View const& v, int root){ int best = 0; vector<pair<int, int>> s{{ root, 1 }}; while(!s.empty()){ auto k = s.back(); s.pop_back(); best = max(best, k.second); if(!v.n[k.first].is_leaf()){ s.push_back({ v.n[k.first].child_left, k.second + 1 }); s.push_back({ v.n[k.first].child_right, k.second + 1 }); } } return best; }
	static double slack(RConf const& c, Node const& n, int f){ return c.mode == R_BARY ? 1e-9 * max(fabs(n.bound_lower[f]), fabs(n.bound_upper[f])) : 0; } // a fraction of the distance is rounded
	// Every node belongs to one tree or is available; returns how many are in use
	static long check(Obj& o, RConf const& c, int T, vector<vector<int>> const& accepted, vector<vector<long>>* totals, int i){
		View const v = view(o, T); unsigned char const *obj = (unsigned char const*)&o, *n0 = (unsigned char const*)v.n, *n1 = (unsigned char const*)(v.n + v.P), *b0 = (unsigned char const*)v.b, *b1 = (unsigned char const*)(v.b + T);
		REQUIRE(n0 >= obj && n1 <= b0 && b1 <= obj + sizeof(Obj), "nodes at %td..%td and trees at %td..%td of an object of %zu bytes", n0 - obj, n1 - obj, b0 - obj, b1 - obj, sizeof(Obj));
		REQUIRE((uintptr_t)n0 % alignof(Node) == 0 && (uintptr_t)b0 % alignof(Base) == 0, "misaligned nodes or trees");
		vector<char> seen(v.P, 0); long used = 0;
		for(int t = 0; t < T; ++t){
			int const root = v.b[t].root; if(root < 0) continue; REQUIRE(root < v.P, "after %d points the root of tree %d is node %d of %ld", i, t, root, v.P); REQUIRE(v.n[root].parent < 0, "the root of tree %d has a parent", t);
			vector<int> s{ root }; long count = 0, deepest; vector<long> sum(L, 0);
			while(!s.empty()){
				int const k = s.back(); s.pop_back(); REQUIRE(!seen[k], "after %d points node %d is reached twice (tree %d)", i, k, t); seen[k] = 1; ++count; Node const& n = v.n[k]; REQUIRE(!n.available(), "after %d points node %d of tree %d is marked available", i, k, t);
				for(int f = 0; f < F_; ++f) REQUIRE(n.bound_lower[f] <= n.bound_upper[f], "after %d points the box of node %d is [%g,%g] on feature %d", i, k, n.bound_lower[f], n.bound_upper[f], f);
				if(n.is_leaf()){
					REQUIRE(n.tau == c.lifetime, "after %d points a leaf has time %g, the lifetime is %g", i, n.tau, c.lifetime); long tot = 0; for(int l = 0; l < L; ++l){ REQUIRE(n.counters[l] >= 0, "negative count"); sum[l] += n.counters[l]; tot += n.counters[l]; } REQUIRE(tot > 0 || c.splits(), "after %d points a leaf has no point", i);
				}
				else{
					REQUIRE(n.split_dimension >= 0 && n.split_dimension < F_, "split on feature %d", n.split_dimension); REQUIRE(n.tau >= 0 && (n.tau < c.lifetime || (c.splits() && n.tau == c.lifetime)), "after %d points an internal node has time %g, the lifetime is %g", i, n.tau, c.lifetime);
					for(int z = 0; z < 2; ++z){
						int const ch = z ? n.child_right : n.child_left; REQUIRE(ch >= 0 && ch < v.P, "after %d points node %d has child %d", i, k, ch); Node const& m = v.n[ch]; REQUIRE(m.parent == k, "after %d points the parent of node %d is %d instead of %d", i, ch, m.parent, k);
						REQUIRE(m.tau >= n.tau, "after %d points a node of time %g has a child of time %g", i, n.tau, m.tau);
						if(c.mode != R_COUNTER && c.forced_part == 1) for(int f = 0; f < F_; ++f) REQUIRE(m.bound_lower[f] >= n.bound_lower[f] - slack(c, n, f) && m.bound_upper[f] <= n.bound_upper[f] + slack(c, n, f), "after %d points the box of node %d is not inside of the box of its parent (feature %d)", i, ch, f);
						if((c.mode == R_COUNTER || c.forced_part < 1) && c.trim){} // the box of a node that could not split does not hold the boxes below it, and a cut can leave them across a split
						else if(c.mode == R_BARY) REQUIRE(z ? m.bound_lower[n.split_dimension] >= n.split_value - slack(c, n, n.split_dimension) : m.bound_upper[n.split_dimension] <= n.split_value + slack(c, n, n.split_dimension), "after %d points a child of node %d crosses its split", i, k);
						else if(z) REQUIRE(m.bound_lower[n.split_dimension] > n.split_value, "after %d points the right child of node %d crosses its split", i, k); else REQUIRE(m.bound_upper[n.split_dimension] <= n.split_value, "after %d points the left child of node %d crosses its split", i, k);
						s.push_back(ch);
					}
				}
			}
			used += count; deepest = levels(v, root);
			if(c.depth_limit != INT_MAX) REQUIRE(deepest <= max(1, c.depth_limit), "after %d points tree %d has %ld levels, the limit is %d", i, t, deepest, c.depth_limit);
			if(c.size_limit != INT_MAX) REQUIRE((c.size_is_depth ? deepest : count) <= max(1, c.size_limit), "after %d points tree %d has size %ld, the limit is %d", i, t, c.size_is_depth ? deepest : count, c.size_limit);
			if(c.mode == R_GHOST) for(int l = 0; l < L; ++l) sum[l] = v.n[root].counters[l];
			if(totals) for(int l = 0; l < L; ++l) (*totals)[t][l] = sum[l];
			if(!accepted.empty()) for(int l = 0; l < L; ++l){
				if(c.mode == R_PARTIAL || c.trim) REQUIRE(sum[l] <= accepted[t][l], "after %d points tree %d has %ld points of class %d, it was given %d", i, t, sum[l], l, accepted[t][l]);
				else if(c.mode != R_NONE) REQUIRE(sum[l] == accepted[t][l], "after %d points tree %d has %ld points of class %d, it was given %d", i, t, sum[l], l, accepted[t][l]);
			}
		}
		for(long k = 0; k < v.P; ++k) if(!seen[k]) REQUIRE(v.n[k].available(), "after %d points node %ld is in no tree and is not available", i, k);
		return used;
	}
	static void structure(Case& c){
		MStream g(c.r, FC, LC, false); RConf rc = mconf(c.r, FC, LC, g.scale); int const T = trees(c.r); tune(rc, c.r, T, true); splitting(rc, c.r); Slot<Obj> slot(0xA5); construct(slot.raw, rc, T); slot.p = (Obj*)slot.raw; Obj& o = *slot.p; Source src(c.r.next(), c.r.below(5)); UseSource use(src); vector<vector<int>> acc(T, vector<int>(L, 0));
		vector<vector<long>> before(T, vector<long>(L, 0)), after = before; int const n = 1 + c.r.below(scale(c, c.r.below(3) ? 120 : 700)); double x[FC]; int label; long used = 0, most = 0; uint64_t refused = 0;
		check(o, rc, T, acc, nullptr, 0);
		for(int i = 0; i < n; ++i){
			g.next(x, label); vector<char> had(T); for(int t = 0; t < T; ++t) had[t] = o.get_bases()[t].root >= 0; bool const ok = o.train(x, label); refused += !ok;
			for(int t = 0; t < T; ++t) if(had[t] || o.get_bases()[t].root >= 0) ++acc[t][label];
			long const u = check(o, rc, T, acc, &after, i + 1); c.ev(u); if(!rc.trim || i % 100){ REQUIRE(u >= used || rc.split_trigger, "trees lost nodes"); for(int t = 0; t < T; ++t) for(int l = 0; l < L; ++l) REQUIRE(after[t][l] - before[t][l] <= (l == label) && after[t][l] >= before[t][l], "after %d points tree %d counts %ld points of class %d, %ld before this point of class %d", i + 1, t, after[t][l], l, before[t][l], label); }
			if(!ok && rc.mode != R_NONE){ bool empty = false; for(int t = 0; t < T; ++t) empty |= o.get_bases()[t].root < 0; REQUIRE(empty, "training point %d fails although all the trees have been trained", i); }
			used = u; most = max(most, u); before = after;
			if(c.r.below(10) == 0){ double p[FC]; g.probe(p); c.see(o.predict(p)); check(o, rc, T, vector<vector<int>>(), nullptr, i + 1); }
			c.see(used);
		}
		for(int t = 0; t < T; ++t) if(o.get_bases()[t].root >= 0) c.see(levels(view(o, T), o.get_bases()[t].root));
		stat("points_trained", n); stat("trainings_refused", refused); stat("memory_exhausted", most >= pool(T) - 1); stat("nodes_checked", c.evals); if(rc.splits()) stat("runs_with_splits", 1);
		c.sample("%d trees, %ld nodes, extend %d, management %d, limit %d, trim %d: %d points, at most %ld nodes used", T, pool(T), rc.mode, rc.management, rc.limit, rc.trim, n, most);
	}
	// ------------------------------------------------ what the forest reports
	static bool near(double a, double b){ return fabs(a - b) <= 1e-5 * (fabs(a) + fabs(b)) + 1e-12; } // six digits are printed
	static vector<double> fields(string const& l, char const* head){ vector<double> v; REQUIRE(l.compare(0, strlen(head), head) == 0, "prints '%s' instead of a line %s", l.c_str(), head); size_t k = strlen(head); while(k < l.size()){ size_t e = l.find(',', k); if(e == string::npos) e = l.size(); if(e > k) v.push_back(strtod(l.substr(k, e - k).c_str(), 0)); k = e + 1; } return v; }
	struct Capture{ ostringstream s; streambuf* old; Capture(){ old = cout.rdbuf(s.rdbuf()); } ~Capture(){ cout.rdbuf(old); } vector<string> lines(){ vector<string> v; istringstream in(s.str()); for(string l; getline(in, l);) v.push_back(l); s.str(""); return v; } };
	// the lines of all the nodes, which start at *from*
	static void listing(View const& v, vector<string> const& lines, size_t from, int points, Case& c){
		map<pair<int, int>, vector<double>> got; for(size_t k = from; k < lines.size(); ++k){ vector<double> f = fields(lines[k], "Narval:"); REQUIRE(f.size() == 12 + 2 * F_ + L, "a line of a node has %zu fields", f.size()); REQUIRE((int)f[0] == points, "a line says %g points, there are %d", f[0], points); REQUIRE(got.emplace(make_pair((int)f[1], (int)f[2]), f).second, "node %g of tree %g is printed twice", f[2], f[1]); }
		size_t n = 0;
		for(int t = 0; t < v.T; ++t) if(v.b[t].root >= 0){
			vector<pair<int, int>> s{{ v.b[t].root, 0 }};
			while(!s.empty()){
				pair<int, int> const a = s.back(); s.pop_back(); Node const& m = v.n[a.first]; auto it = got.find({ t, a.first }); REQUIRE(it != got.end(), "after %d points node %d of tree %d is not printed", points, a.first, t); vector<double> const& f = it->second; ++n;
				double e[12] = { (double)points, (double)t, (double)a.first, (double)a.second, (double)m.parent, (double)m.child_right, (double)m.child_left, m.tau, (double)m.split_dimension, m.split_value, (double)m.is_leaf(), (double)m.forced_extend };
				for(int k = 0; k < 12; ++k) if(k != 9 || !m.is_leaf()) REQUIRE(near(f[k], e[k]), "after %d points node %d of tree %d is printed with field %d = %g instead of %g", points, a.first, t, k, f[k], e[k]);
				for(int k = 0; k < F_; ++k) REQUIRE(near(f[12 + 2 * k], m.bound_lower[k]) && near(f[13 + 2 * k], m.bound_upper[k]), "after %d points node %d of tree %d is printed with box [%g,%g] instead of [%g,%g]", points, a.first, t, f[12 + 2 * k], f[13 + 2 * k], m.bound_lower[k], m.bound_upper[k]);
				for(int l = 0; l < L; ++l) REQUIRE(f[12 + 2 * F_ + l] == m.counters[l], "after %d points node %d of tree %d is printed with %g points of class %d instead of %d", points, a.first, t, f[12 + 2 * F_ + l], l, m.counters[l]);
				if(!m.is_leaf()){ s.push_back({ m.child_left, a.second + 1 }); s.push_back({ m.child_right, a.second + 1 }); } c.ev();
			}
		}
		REQUIRE(n == got.size(), "after %d points %zu nodes are printed, there are %zu", points, got.size(), n);
	}
	static vector<array<double, L>> each_tree(Obj& o, int T, double const* x){ vector<array<double, L>> r(T); double before[L] = {0}, s[L]; for(int t = 0; t < T; ++t){ o.predict(x, s, t + 1); for(int l = 0; l < L; ++l){ r[t][l] = s[l] * (t + 1) - before[l]; before[l] = s[l] * (t + 1); } } return r; }
	static double margin(double const* s, int label){ double best = -1e300; for(int l = 0; l < L; ++l) if(l != label) best = max(best, s[l]); return L == 1 ? 0 : s[label] - best; }
	static void alike(View const& a, View const& b, int points){
		for(int t = 0; t < a.T; ++t) REQUIRE(a.b[t].root == b.b[t].root && a.b[t].size == b.b[t].size && a.b[t].node_count_limit == b.b[t].node_count_limit, "after %d points tree %d differs from the one of a forest that is not asked anything", points, t);
		for(long k = 0; k < a.P; ++k){ Node const &m = a.n[k], &n = b.n[k]; bool same = m.available() == n.available(); if(same && !m.available()){ same = m.parent == n.parent && m.child_left == n.child_left && m.child_right == n.child_right && m.tau == n.tau && m.forced_extend == n.forced_extend && m.fading_score == n.fading_score && !memcmp(m.bound_lower, n.bound_lower, sizeof m.bound_lower) && !memcmp(m.bound_upper, n.bound_upper, sizeof m.bound_upper); if(m.is_leaf()) same = same && !memcmp(m.counters, n.counters, sizeof m.counters); else same = same && m.split_dimension == n.split_dimension && m.split_value == n.split_value; } REQUIRE(same, "after %d points node %ld differs from the one of a forest that is not asked anything", points, k); }
	}
	static void report(Case& c){
		MStream g(c.r, FC, LC, false); RConf rc = mconf(c.r, FC, LC, g.scale); int const T = trees(c.r); tune(rc, c.r, T, true); splitting(rc, c.r); bool const prints = c.r.below(2); uint64_t const seed = c.r.next(); int const mode = c.r.below(5); Source sa(seed, mode), sb(seed, mode); Slot<Obj> a(0xA5), b(0x5A);
		construct(a.raw, rc, T, prints); a.p = (Obj*)a.raw; construct(b.raw, rc, T); b.p = (Obj*)b.raw; Obj &o = *a.p, &twin = *b.p; View const v = view(o, T), w = view(twin, T); int const n = 1 + c.r.below(scale(c, c.r.below(12) ? 60 : 540)); double x[FC]; int label; vector<double> count(T, 0), sum(T, 0); uint64_t trainings = 0, nodes = 0, asked = 0;
		for(int i = 0; i < n; ++i){
			g.next(x, label); vector<array<double, L>> each; if(prints) each = each_tree(twin, T, x); Capture cap; bool ok, ok2; { UseSource use(sa); ok = o.train(x, label); } vector<string> const out = cap.lines(); { UseSource use(sb); ok2 = twin.train(x, label); }
			REQUIRE(ok == ok2, "training point %d returns %d with printing and %d without", i, ok, ok2); REQUIRE(cap.lines().empty(), "a forest that does not print prints"); REQUIRE(prints || out.empty(), "a forest that does not print prints '%s'", out[0].c_str());
			alike(v, w, i + 1); c.ev(v.P); bool deep = false; for(int t = 0; t < T; ++t) if(v.b[t].root >= 0 && levels(v, v.b[t].root) > 95) deep = true;
			if(prints){
				REQUIRE(out.size() >= size_t(T + 1), "training point %d prints %zu lines", i, out.size()); vector<double> total(L, 0);
				for(int t = 0; t <= T; ++t){
					vector<double> const f = fields(out[t], "Loutre:"); REQUIRE(f.size() == 4 + L, "a line of scores has %zu fields", f.size()); REQUIRE((int)f[0] == i && (int)f[1] == (t < T ? t : -1) && (int)f[2] == label, "the line of scores %d before point %d of class %d starts with %g,%g,%g", t, i, label, f[0], f[1], f[2]);
					double best = -1e300; for(int l = 0; l < L; ++l){ double const e = t < T ? each[t][l] : total[l]; if(t < T) total[l] += e; REQUIRE(fabs(f[4 + l] - e) <= 1e-5 * fabs(e) + 1e-9 * T, "before point %d the score of class %d is printed as %g instead of %g (tree %d of %d)", i, l, f[4 + l], e, t, T); best = max(best, e); c.ev(); }
					REQUIRE(f[3] >= 0 && f[3] < L && (t < T ? each[t][(int)f[3]] : total[(int)f[3]]) >= best - 1e-9 * T, "before point %d class %g is printed as the prediction of tree %d of %d", i, f[3], t, T);
				}
				bool const now = i + 1 <= 500 || (i + 1) % 5 == 0; REQUIRE(now || out.size() == size_t(T + 1), "training point %d prints the nodes", i); if(now){ listing(v, out, T + 1, i + 1, c); ++trainings; nodes += out.size() - T - 1; }
			}
			if(c.r.below(6)) continue;
			// questions
			++asked; double y[FC]; if(c.r.below(2)) g.probe(y); else memcpy(y, x, sizeof y);
			{ Capture k; o.printy(); listing(v, k.lines(), 0, i + 1, c); }
			{ double sc[L], m; for(double& q: sc) q = c.r.below(4) ? c.r.u01() : 0.5; for(int l = 0; l < L; ++l){ m = o.eval_scores(sc, l); REQUIRE(fabs(m - margin(sc, l)) <= 1e-12, "the margin of class %d is %g instead of %g", l, m, margin(sc, l)); } c.ev(L); }
			if(!deep) for(int t = 0; t < T; ++t){
				long points = 0, few = 0; double bary[FC], weight = 0, e[FC] = {0}; vector<int> s; if(v.b[t].root >= 0) s.push_back(v.b[t].root);
				while(!s.empty()){ Node const& m = v.n[s.back()]; s.pop_back(); if(!m.is_leaf()){ s.push_back(m.child_left); s.push_back(m.child_right); continue; } long k = 0; for(int q: m.counters) k += q; points += k; few += k < 50; weight += k; for(int f = 0; f < F_; ++f) e[f] += k * (m.bound_lower[f] + m.bound_upper[f]) / 2; }
				long const got = o.count_data_point_tree(t); double const gotf = o.count_dead_supply_tree(t); REQUIRE(got == points, "after %d points tree %d counts %ld points, its leaves hold %ld", i + 1, t, got, points); REQUIRE(gotf == few, "after %d points tree %d counts %g leaves of less than 50 points, there are %ld", i + 1, t, gotf, few); c.ev(2);
				if(v.b[t].root >= 0 && weight > 0){ o.find_barycenter(v.b[t].root, bary); for(int f = 0; f < F_; ++f) REQUIRE(fabs(bary[f] - e[f] / weight) <= 1e-9 * max(fabs(v.n[v.b[t].root].bound_lower[f]), fabs(v.n[v.b[t].root].bound_upper[f])) * (1 + T), "after %d points the barycentre of tree %d is %g instead of %g on feature %d", i + 1, t, bary[f], e[f] / weight, f); c.ev(F_); }
			}
			if(c.r.below(2)){ // the contribution of each tree to the margin
				vector<array<double, L>> const s = each_tree(twin, T, y); double full[L] = {0}; for(auto const& q: s) for(int l = 0; l < L; ++l) full[l] += q[l] / T; o.otter(y, label); for(int t = 0; t < T; ++t){ double less[L]; for(int l = 0; l < L; ++l) less[l] = full[l] - s[t][l] / T; count[t] = count[t] * 0.95 + 1; sum[t] = sum[t] * 0.95 + margin(less, label) - margin(full, label); }
			}
			for(int t = 0; t < T; ++t) REQUIRE(fabs(v.b[t].count_contribution - count[t]) <= 1e-9 && fabs(v.b[t].sum_contribution - sum[t]) <= 1e-7, "after %d points the contribution of tree %d is %g/%g instead of %g/%g", i + 1, t, v.b[t].sum_contribution, v.b[t].count_contribution, sum[t], count[t]);
			alike(v, w, i + 1); double p[L], q[L]; int const k1 = o.predict(y, p), k2 = twin.predict(y, q); REQUIRE(k1 == k2 && !memcmp(p, q, sizeof p), "after %d points and questions the forest predicts %d (%g) instead of %d (%g)", i + 1, k1, p[k1], k2, q[k1]); c.see(k1); c.seed_d(p[k1]);
		}
		stat("points_trained", n); stat("trainings_printed", trainings); stat("nodes_printed", nodes); stat("times_asked", asked); if(!trainings && !asked) c.trivial = true;
		c.sample("%d trees, extend %d, management %d, trim %d, printing %d: %d points, %llu lines of nodes, asked %llu times", T, rc.mode, rc.management, rc.trim, prints, n, (unsigned long long)nodes, (unsigned long long)asked);
	}
	// ------------------------------------------------ step by step against the reference
	static bool same(RConf const& c, RTree const& t, int k, Node const* n, int id, int parent, string& why){
		char b[300];
		#define DIFF(...) do{ snprintf(b, sizeof b, __VA_ARGS__); why = b; return false; }while(0)
		vector<array_t> s{{ k, id, parent }};
		while(!s.empty()){
			array_t const a = s.back(); s.pop_back(); RNode const& r = t.n[a.k]; if(a.id < 0) DIFF("a node is missing"); Node const& m = n[a.id];
			if(m.is_leaf() != r.leaf()) DIFF("a node is %s instead of %s", m.is_leaf() ? "a leaf" : "internal", r.leaf() ? "a leaf" : "internal");
			if(m.parent != a.parent) DIFF("parent %d instead of %d", m.parent, a.parent);
			if(!vf::close(m.tau, r.tau, 1e-9)) DIFF("time %.17g instead of %.17g", m.tau, r.tau);
			for(int f = 0; f < F_; ++f) if(c.mode == R_BARY ? !vf::close(m.bound_lower[f], r.lo[f], 1e-9, 1e-9) || !vf::close(m.bound_upper[f], r.hi[f], 1e-9, 1e-9) : m.bound_lower[f] != r.lo[f] || m.bound_upper[f] != r.hi[f]) DIFF("box [%.17g,%.17g] instead of [%.17g,%.17g] on feature %d", m.bound_lower[f], m.bound_upper[f], r.lo[f], r.hi[f], f);
			if(r.leaf() || c.mode == R_GHOST) for(int l = 0; l < L; ++l) if(m.counters[l] != r.cnt[l]) DIFF("%d points of class %d instead of %d", m.counters[l], l, r.cnt[l]);
			if(!vf::close(m.fading_score, r.fade, 1e-9, 1e-9) && r.leaf()) DIFF("fading score %.17g instead of %.17g", m.fading_score, r.fade);
			if(m.forced_extend != r.forced) DIFF("%d forced extensions instead of %d", m.forced_extend, r.forced);
			if(!r.leaf()){
				if(m.split_dimension != r.dim) DIFF("split on feature %d instead of %d", m.split_dimension, r.dim);
				if(!vf::close(m.split_value, r.val, 1e-9, 1e-12)) DIFF("split at %.17g instead of %.17g", m.split_value, r.val);
				s.push_back({ r.l, m.child_left, a.id }); s.push_back({ r.r, m.child_right, a.id });
			}
		}
		return true;
	}
	struct array_t{ int k, id, parent; };
	static bool same_tree(RForest const& ref, int t, Obj& o, string& why){
		RTree const& r = ref.t[t]; Base const& b = o.get_bases()[t];
		if((b.root < 0) != (r.root < 0)){ why = r.root < 0 ? "the tree exists" : "the tree does not exist"; return false; } if(r.root < 0) return true;
		if(ref.c.size_limit != INT_MAX && b.size != r.size){ why = "recorded size " + to_string(b.size) + " instead of " + to_string(r.size); return false; }
		return same(ref.c, r, r.root, o.get_nodes(), b.root, -1, why);
	}
	// the leaves the rule allows to cut, empty when none
	static vector<int> candidates(RConf const& c, RTree const& t){
		vector<int> out; vector<int> const lv = t.leaves(); if(lv.size() < 2) return out; if(c.trim == TRIM_RANDOM) return lv;
		vector<double> v; double sum = 0; for(int i: lv){ double k = 0; if(c.trim == TRIM_FADING) k = t.n[i].fade; else for(int x: t.n[i].cnt) k += x; v.push_back(k); sum += k; }
		double const m = *min_element(v.begin(), v.end()); if(sum > 0 && fabs(m / sum - c.trim_max) <= 1e-9) throw Ambiguous(); if(sum > 0 && m / sum > c.trim_max) return out;
		for(size_t i = 0; i < lv.size(); ++i) if(v[i] <= m + 1e-9 * (1 + m)) out.push_back(lv[i]);
		return out;
	}
	static void model(Case& c){ run(c, false); }
	static void trim(Case& c){ run(c, true); }
	static void divide(Case& c){ run(c, true, true); }
	static void run(Case& c, bool trim, bool divide = false){
		MStream g(c.r, FC, LC, false); RConf rc = mconf(c.r, FC, LC, g.scale); if(rc.lifetime < 5 / g.scale && (trim || c.r.below(2))) rc.lifetime = 100 / g.scale; int const T = trees(c.r); tune(rc, c.r, T, trim);
		if(trim){ while(!rc.trim || (rc.limit > 0 && c.r.below(8))) tune(rc, c.r, T, true); if(g.shape == 2 && c.r.below(4)) g.shape = 5; }
		if(divide){ rc.mode = R_BARY; if(c.r.below(4)){ rc.limit = -1; rc.depth_limit = rc.size_limit = INT_MAX; rc.management = PHOENIX_MANAGEMENT; } rc.split_helper = 1 + c.r.below(2); rc.forced_share = c.r.below(4); if(c.r.below(3)) g.shape = c.r.below(2) ? 5 : 0; }
		long const P = pool(T); RForest ref(rc, T, P); Slot<Obj> slot(0xA5); construct(slot.raw, rc, T); slot.p = (Obj*)slot.raw; Obj& o = *slot.p;
		int const n = divide ? 201 + c.r.below(scale(c, 1000)) : trim ? 101 + c.r.below(scale(c, 500)) : 1 + c.r.below(scale(c, c.r.below(3) ? 60 : 250)); double x[FC]; int label, i = 0; uint64_t cuts = 0, skipped = 0, scores = 0; bool tie = false; Source src(1, 0); UseSource use(src); bool const zero = c.r.below(5) == 0; double const keepc = constant(c.r, zero); bool const same_u = c.r.below(6) == 0;
		for(; i < n && !tie; ++i){
			g.next(x, label); double const k = same_u ? keepc : constant(c.r, zero); bool got, deep = false; bool const trims = rc.trim && ref.free_nodes <= 1 && i % 100 == 0;
			if(rc.trim) for(auto const& t: ref.t) if(t.root >= 0 && t.levels(t.root) > 95) deep = true; if(deep) break;
			{ UseFixed u(k); got = o.train(x, label); } ref.average(x);
			try{
				bool ok = true; vector<vector<int>> cand(T);
				for(int t = 0; t < T; ++t){
					if(rc.trim == TRIM_FADING) for(int l: ref.t[t].leaves()) ref.t[t].n[l].fade *= 0.995;
					if(trims){ cand[t] = candidates(rc, ref.t[t]); if(cand[t].empty()) ++skipped; else{ ref.free_nodes += 2; ++cuts; } }
				}
				for(int t = 0; t < T; ++t){
					string why; RTree const keep = ref.t[t]; long const left = ref.free_nodes; uint64_t const was = ref.exhausted; vector<int> cc = cand[t]; if(cc.empty()) cc.push_back(-1); bool found = false;
					for(size_t z = 0; z < cc.size() && !found; ++z){
						ref.t[t] = keep; ref.free_nodes = left; ref.exhausted = was; if(cc[z] >= 0){ ref.t[t].cut(cc[z]); ref.measure(ref.t[t]); }
						int const out = ref.train_tree(ref.t[t], x, label, [k]{ return k; }); ref.measure(ref.t[t]); found = same_tree(ref, t, o, why); if(found || z + 1 == cc.size()){ ++ref.outcomes[out]; if(out == O_REFUSED) ok = false; }
					}
					c.ev(ref.t[t].used);
					REQUIRE(found, "training point %d, tree %d%s: %s (%d trees, %ld nodes, extend %d, management %d, size %d, limit %d, trim %d, %ld nodes left)", i, t, cand[t].empty() ? "" : cand[t].size() == 1 ? " after the cut of a leaf" : " after the cut of any of the allowed leaves", why.c_str(), T, P, rc.mode, rc.management, rc.size_type, rc.limit, rc.trim, ref.free_nodes);
				}
				REQUIRE(got == ok, "training point %d returns %d instead of %d (%ld of %ld nodes left, extend %d)", i, got, ok, ref.free_nodes, P, rc.mode);
				ref.end(); if(rc.trim) for(auto& t: ref.t) compact(t);
			}catch(Ambiguous){ tie = true; break; }
			if(c.r.below(4) == 0){
				if(c.r.below(2)) g.probe(x); double s[LC], e[LC]; int const tu = c.r.below(4) ? -1 : 1 + c.r.below(T); int const p = o.predict(x, s, tu); ref.scores(x, e, tu); c.ev(LC); ++scores;
				for(int l = 0; l < LC; ++l) REQUIRE(fabs(s[l] - e[l]) <= 1e-8, "after %d points, the score of class %d is %.17g instead of %.17g (%d of %d trees)", i + 1, l, s[l], e[l], tu, T);
				REQUIRE(s[p] >= *max_element(s, s + LC), "predicts class %d with score %g", p, s[p]);
			}
			c.see(ref.free_nodes);
		}
		if((trim && !cuts) || (divide && !ref.outcomes[O_DIVIDED])) c.trivial = true;
		for(auto const& t: ref.t) if(t.root >= 0){ c.see(t.levels(t.root)); c.seed_d(t.n[t.root].val); }
		stat("points_trained", i); stat("trees_split", ref.outcomes[O_SPLIT]); stat("points_counted", ref.outcomes[O_COUNTED]); stat("points_dropped", ref.outcomes[O_DROPPED]); stat("trees_refused", ref.outcomes[O_REFUSED]); stat("leaves_divided", ref.outcomes[O_DIVIDED]); stat("splits_prevented", ref.exhausted); stat("leaves_cut", cuts); stat("cuts_skipped", skipped); stat("scores_compared", scores); stat("histories_ended_on_a_tie", tie);
		c.sample("%d trees, %ld nodes, extend %d, management %d, size %d, limit %d, trim %d: %d points, %llu splits, %llu prevented, %llu cuts", T, P, rc.mode, rc.management, rc.size_type, rc.limit, rc.trim, i, (unsigned long long)ref.outcomes[O_SPLIT], (unsigned long long)ref.exhausted, (unsigned long long)cuts);
	}
	static vector<int> leaves(View const& v, int t){ vector<int> out, s{ v.b[t].root }; while(!s.empty()){ int const k = s.back(); s.pop_back(); if(v.n[k].is_leaf()) out.push_back(k); else{ s.push_back(v.n[k].child_left); s.push_back(v.n[k].child_right); } } sort(out.begin(), out.end()); return out; }
	// A random cut takes any of the leaves with the same probability
	static void cut(Case& c){
		MStream g(c.r, FC, LC, false); g.shape = c.r.below(2) ? 0 : 5; RConf rc = mconf(c.r, FC, LC, g.scale); rc.lifetime = 100 / g.scale; int const T = 1 + c.r.below(min(4, TMAX)); do tune(rc, c.r, T, true); while(rc.limit > 0 || rc.trim != TRIM_RANDOM || rc.trim_max < 1);
		Slot<Obj> slot(0xA5); construct(slot.raw, rc, T); slot.p = (Obj*)slot.raw; Source src(c.r.next(), 0); UseSource use(src); double x[FC]; int label; for(int i = 0; i < 100; ++i){ g.next(x, label); slot.p->train(x, label); }
		View const v = view(*slot.p, T); int const R = c.thorough ? 4000 : 1500; long used = 0; for(long k = 0; k < v.P; ++k) used += !v.n[k].available(); if(used < v.P - 1){ c.trivial = true; c.ev(); return; } // not full: no cut
		vector<vector<int>> lv(T); vector<vector<long>> lost(T); vector<vector<Node>> old(T); for(int t = 0; t < T; ++t) if(v.b[t].root >= 0){ lv[t] = leaves(v, t); lost[t].assign(lv[t].size(), 0); for(int k: lv[t]) old[t].push_back(v.n[k]); }
		// the training point is in a leaf of each tree: it may come back as a new leaf after the cut
		memcpy(x, g.old.back().data(), sizeof x); uint64_t cuts = 0;
		for(int k = 0; k < R; ++k){
			Slot<Obj> w(-1); w.p = new(w.raw) Obj(static_cast<Obj const&>(*slot.p)); w.p->train(x, 0); View const u = view(*w.p, T);
			for(int t = 0; t < T; ++t) if(lv[t].size() > 1){
				int gone = -1, home = -1, n = 0; vector<int> now = leaves(u, t);
				for(size_t z = 0; z < lv[t].size(); ++z){
					Node const &a = old[t][z], &b = u.n[lv[t][z]]; bool in = true; for(int f = 0; f < F_; ++f) in &= a.bound_lower[f] <= x[f] && x[f] <= a.bound_upper[f]; if(in) home = z;
					bool here = binary_search(now.begin(), now.end(), lv[t][z]); for(int f = 0; f < F_ && here; ++f) here = b.bound_lower[f] <= a.bound_lower[f] && b.bound_upper[f] >= a.bound_upper[f]; if(!here){ gone = z; ++n; }
				}
				REQUIRE(n <= 1, "tree %d lost %d of its %zu leaves", t, n, lv[t].size()); if(!n) gone = home; if(gone >= 0){ ++lost[t][gone]; ++cuts; }
			}
		}
		double worst = 0;
		for(int t = 0; t < T; ++t) if(lv[t].size() > 1){ double const p = 1.0 / lv[t].size(), sd = sqrt(p * (1 - p) / R); for(long k: lost[t]){ c.ev(); worst = max(worst, fabs((double)k / R - p) / sd); REQUIRE(fabs((double)k / R - p) <= 7 * sd + 2.0 / R, "%ld of %d random cuts of tree %d took the same leaf of %zu", k, R, t, lv[t].size()); c.see(k); } }
		stat("random_cuts", cuts); if(!cuts) c.trivial = true; c.ev(); c.sample("%d trees, %d random cuts of each, largest deviation %.2f", T, R, worst);
	}
	static void compact(RTree& t){ if(t.root < 0 || (long)t.n.size() < 4 * t.used + 16) return; vector<RNode> m; map<int, int> id; vector<int> s{ t.root }, order; while(!s.empty()){ int const i = s.back(); s.pop_back(); id[i] = order.size(); order.push_back(i); if(!t.n[i].leaf()){ s.push_back(t.n[i].l); s.push_back(t.n[i].r); } } for(int i: order){ RNode n = t.n[i]; if(!n.leaf()){ n.l = id[n.l]; n.r = id[n.r]; } if(n.p >= 0) n.p = id[n.p]; m.push_back(n); } t.root = 0; t.n.swap(m); }
};
struct Small{ short a; void update(int, int){ } double score(bool = false, int = -1) const{ return 0; } void increase_error(int = 1){ ++a; } void reset(){ a = 0; } bool ratio() const{ return false; } };
typedef Ad<NoMetrics, 2, 3, 6000, 10> A1; typedef Ad<ErrorMetrics<false>, 3, 2, 3001, 5> A2; typedef Ad<KappaMetrics<4>, 1, 4, 8003, 8> A3; typedef Ad<NoMetrics, 2, 2, 1502, 6> A4; typedef Ad<Small, 5, 5, 20005, 20> A5; typedef Ad<NoMetrics, 1, 1, 2000, 3> A6; typedef Ad<ErrorMetrics<true>, 12, 3, 12000, 4> A7; typedef Ad<KappaMetrics<2>, 2, 2, 700, 5> A8;
#define ALL(X) X<A1>, X<A2>, X<A3>, X<A4>, X<A5>, X<A6>, X<A7>, X<A8>
#define EACH(f) void (*t[])(Case&) = { MTests<A1>::f, MTests<A2>::f, MTests<A3>::f, MTests<A4>::f, MTests<A5>::f, MTests<A6>::f, MTests<A7>::f, MTests<A8>::f }; t[c.index % 8](c)
#define OWN(f) void (*t[])(Case&) = { A1::f, A2::f, A3::f, A4::f, A5::f, A6::f, A7::f, A8::f }; t[c.index % 8](c)
// trees, features and classes that a byte or a short cannot number
typedef Ad<NoMetrics, 2, 2, 90000, 300> W1; typedef Ad<ErrorMetrics<false>, 300, 3, 500000, 3> W2; typedef Ad<NoMetrics, 3, 300, 300000, 5> W3; typedef Ad<Small, 150, 150, 300000, 2> W4; typedef Ad<NoMetrics, 33000, 2, 10000000, 1> W5; typedef Ad<NoMetrics, 1, 33000, 5000000, 1> W6;
static void few(Case& c, void (*f)(Case&)){ c.thorough = false; f(c); }
#ifdef G_EXACT
typedef Ad<NoMetrics, 1, 2, 70000 * sizeof(MondrianNode<1, 2>), 1> A9;
TEST(endurance){ void (*t[])(Case&) = { MTests<A1>::endurance, MTests<A2>::endurance, MTests<A4>::endurance, MTests<A9>::endurance }; t[c.index % 4](c); }
TEST(exact){ EACH(exact); }
#endif
#ifdef G_SCORES
TEST(distribution){ EACH(distribution); }
TEST(wide){ void (*t[])(Case&) = { MTests<W1>::wide_symmetry, MTests<W2>::wide_symmetry, MTests<W3>::wide_symmetry, MTests<W4>::wide_symmetry }; few(c, t[c.index % 4]); }
TEST(symmetry){ EACH(symmetry); }
#endif
#ifdef G_MODEL
TEST(wide_divide){ void (*t[])(Case&) = { W1::divide, W2::divide, W3::divide, W4::divide }; few(c, t[c.index % 4]); }
TEST(wide_trim){ void (*t[])(Case&) = { W1::trim, W2::trim, W3::trim, W4::trim }; few(c, t[c.index % 4]); }
TEST(wide){ void (*t[])(Case&) = { W1::model, W2::model, W3::model, W4::model, W1::model, W2::model, W3::model, W5::model, W1::model, W2::model, W3::model, W4::model, W1::model, W2::model, W3::model, W6::model }; few(c, t[c.index % 16]); }
TEST(model){ OWN(model); }
TEST(trim){ OWN(trim); }
TEST(cut){ OWN(cut); }
TEST(divide){ OWN(divide); }
#endif
#ifdef G_REPORT
TEST(wide){ void (*t[])(Case&) = { W1::report, W2::report, W3::report, W4::report }; few(c, t[c.index % 4]); }
TEST(report){ OWN(report); }
#endif
#ifdef G_STRUCTURE
TEST(wide){ void (*t[])(Case&) = { W1::structure, W2::structure, W3::structure, W4::structure }; few(c, t[c.index % 4]); }
TEST(structure){ OWN(structure); }
// Fixed inputs, whatever the seed and the tier: they show the known findings
static void fixed_input(Case& c, uint64_t input){ g_triggers = true; c.r = Rng(input); c.index = input; c.thorough = false; OWN(structure); }
TEST(triggers_lost){ fixed_input(c, 230); }
TEST(triggers_lost_again){ fixed_input(c, 360); }
TEST(triggers_broken){ fixed_input(c, 2146); }
#endif
GENERIC(ALL(MGeneric)) GENERIC_COPY(ALL(MGeneric)) GENERIC_ALLOC(ALL(MGeneric))
#include "main.inc"
