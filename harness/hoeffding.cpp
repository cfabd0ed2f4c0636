#include "common.hpp"
#include "alloc.hpp"
#include "hoeffding_tree.hpp"
#include "generic.hpp"
using namespace vf;

struct Fn{
	static double log(double x){ return std::log(x); } static double log2(double x){ return std::log2(x); } static double sqrt(double x){ return std::sqrt(x); }
	static bool isnan(double x){ return std::isnan(x); }
};
// Streams of labelled points in which the label depends on some of the features
template<class F, int FC, int LC> struct Stream{
	Rng r; int shape, labels, axis; double scale, noise; double cut[8]; int given = 0, period = 1;
	explicit Stream(Rng& c): r(c.next()){
		shape = r.below(6); if(shape == 5) shape = 2 + r.below(2); labels = 1 + r.below(LC); if(r.below(3)) labels = LC; axis = r.below(FC); scale = is_integral<F>::value ? 100 : r.below(2) ? 1 : 1000; noise = r.below(3) ? 0 : r.real(0, 0.4);
		for(double& x: cut) x = r.real(-scale, scale);
	}
	void next(F* f, int& label){
		for(int j = 0; j < FC; ++j) f[j] = (F)(shape == 0 ? (double)r.range(-2, 2) : shape == 4 ? fabs(r.gauss()) * scale / 6 : r.real(-scale, scale));
		if(shape == 6){ // narrows around a point: the leaf there splits again and again
			int const level = given++ / period; double const w = scale * pow(0.5, level % 46), u = r.u01(); f[axis] = (F)(cut[0] + w * u); label = ((u > 0.5) ^ (level & 1)) ? labels - 1 : 0; return;
		}
		switch(shape){
			case 1: label = r.below(labels); break;                                        // nothing to learn
			case 2: { int k = 0; for(int j = 0; j < FC; ++j) k = (k * 2 + (f[j] > cut[j % 8])) & 0xfffff; label = k % labels; break; } // several axes
			case 3: { int k = 0; for(int j = 0; j < labels - 1 && j < 8; ++j) k += f[axis] > cut[j]; label = labels > 64 ? labels - 1 - k * (labels / 10) : k; break; }   // steps on one axis
			default: label = (f[axis] > (shape == 4 ? scale / 6 : 0) ? labels - 1 : 0); break;
		}
		if(noise && r.chance(noise)) label = r.below(labels);
	}
	void probe(F* f){ int l; next(f, l); if(r.below(4) == 0) for(int j = 0; j < FC; ++j) f[j] = (F)(r.real(-scale, scale) * (is_integral<F>::value ? 1.2 : 3)); }
};
template<class F, int FC, int LC, int MAX, int BINS> struct Ht: Defaults{
	static const bool readers = true;
	typedef HoeffdingTree<F, FC, LC, MAX, Fn> Tree;
	struct Obj{ Tree t; Stream<F, FC, LC> const* unused; Obj(double d, int const* s): t(d, s){} };
	static size_t budget(){ return MAX + FC * sizeof(int) + 96; }
	static int ops(){ return 120; }
	static int counters(int const* s){ int S = 0; for(int i = 0; i < FC; ++i) S += s[i]; return 4 + 16 * (S - FC) + 4 * S * LC; }
	static void sizes(Rng& c, int* s){
		for(int i = 0; i < FC; ++i) s[i] = 1 + c.below(BINS); if(c.below(2)) s[c.below(FC)] = BINS; if(c.below(4) == 0) for(int i = 0; i < FC; ++i) s[i] = BINS;
	}
	static double pick_delta(Rng& c){ static double const d[] = { 0.99, 0.9, 0.5, 0.1, 0.01, 1e-3, 1e-7 }; return d[min(c.below(7), c.below(7))]; }
	// limits of the root: sorted, some equal to values of the stream
	static vector<double> limits(Rng& c, int const* s){
		vector<double> l; double const sc = is_integral<F>::value ? 100 : c.below(2) ? 1 : 1000; int const how = c.below(3);
		for(int f = 0; f < FC; ++f){ vector<double> v; for(int i = 0; i + 1 < s[f]; ++i) v.push_back(how == 0 ? -sc + (i + 1) * 2 * sc / s[f] : how == 1 ? c.real(-sc, sc) : (double)c.range(-3, 3)); sort(v.begin(), v.end()); l.insert(l.end(), v.begin(), v.end()); }
		return l;
	}
	static Obj* construct(void* p, Rng& c){
		int s[FC]; sizes(c, s); Obj* o = new(p) Obj(pick_delta(c), s);
		if(c.below(4)){ vector<double> l; { bool const t = g_track_alloc; g_track_alloc = false; l = limits(c, s); if(l.empty()) l.push_back(0); g_track_alloc = t; } o->t.get_root()->set_limits(l.data()); bool const t = g_track_alloc; g_track_alloc = false; vector<double>().swap(l); g_track_alloc = t; }
		return o;
	}
	static void mutate(Obj& o, Rng& r, Hash& h){
		F f[FC], k[FC]; static double const cut[] = { 0, 30, -20, 0.3 };
		for(int i = 0; i < 6; ++i){
			for(int j = 0; j < FC; ++j) f[j] = (F)(r.below(3) ? r.real(-1, 1) * (is_integral<F>::value ? 90 : 1) : (double)r.range(-2, 2));
			int const label = r.below(8) ? (f[0] > cut[r.below(2)] ? LC - 1 : 0) : r.below(LC); memcpy(k, f, sizeof f);
			h.add(o.t.train(f, label)); if(memcmp(k, f, sizeof f)) violation("train modified the features");
		}
		if(o.t.get_root()->is_leaf()){ double g[FC * BINS + 1]; g[0] = 0; o.t.get_root()->compute_information_gain(g); h.addd(g[0]); }
	}
	static void query(Obj& o, Rng& r, Hash& h){
		F f[FC], k[FC]; double s[LC];
		for(int i = 0; i < 5; ++i){ for(int j = 0; j < FC; ++j) f[j] = (F)(r.real(-1, 1) * (is_integral<F>::value ? 90 : 1)); memcpy(k, f, sizeof f); h.add(o.t.predict(f, s)); for(double x: s) h.addd(x); h.add(o.t.predict(f)); if(memcmp(k, f, sizeof f)) violation("predict modified the features"); }
		h.add(o.t.get_root()->is_leaf());
	}
	// ------------------------------------------------ reference model
	struct Ambiguous{};
	struct Leaf{
		bool leaf = true; int f = -1; double v = 0; int child[2] = { -1, -1 }; vector<double> lo, hi, lim, gainsum; vector<int> cnt; int n = 0; int depth = 0;
	};
	struct Ref{
		int s[FC]; int S = 0, G; double delta; vector<Leaf> n; uint64_t splits = 0, refused = 0, compared = 0; double closest = 1e300;
		Ref(double d, int const* sz): delta(d){ for(int i = 0; i < FC; ++i){ s[i] = sz[i]; S += s[i]; } G = S - FC; n.push_back(blank()); n[0].lo.assign(FC, INFINITY); n[0].hi.assign(FC, -INFINITY); }
		Leaf blank(){ Leaf l; l.cnt.assign(S * LC, 0); l.lim.assign(G, 0); l.gainsum.assign(G, 0); return l; }
		int route(F const* f) const{ int i = 0; while(!n[i].leaf) i = n[i].child[(double)f[n[i].f] <= n[i].v ? 0 : 1]; return i; }
		static double plogp(double a, double b){ return a > 0 ? a / b * std::log2(a / b) : 0; }
		vector<double> gains(Leaf const& l) const{
			vector<double> g; if(!l.n) return vector<double>(G, 0.0); int base = 0; double tot[LC] = {0}; double H = 0; for(int c = 0; c < LC; ++c){ for(int v = 0; v < s[0]; ++v) tot[c] += l.cnt[c * S + v]; H -= plogp(tot[c], l.n); }
			for(int f = 0; f < FC; base += s[f], ++f) for(int v = 0; v + 1 < s[f]; ++v){
				double side[2][LC] = {{0}}, sum[2] = {0}; for(int c = 0; c < LC; ++c) for(int k = 0; k < s[f]; ++k){ side[k > v][c] += l.cnt[c * S + base + k]; sum[k > v] += l.cnt[c * S + base + k]; }
				double e = 0; for(int z = 0; z < 2; ++z) if(sum[z] > 0) for(int c = 0; c < LC; ++c) e -= sum[z] / l.n * plogp(side[z][c], sum[z]);
				g.push_back(H - e);
			}
			return g;
		}
		void count(Leaf& l, F const* f, int label){
			l.n++; int base = 0, lb = 0;
			for(int j = 0; j < FC; ++j){ if((double)f[j] > l.hi[j]) l.hi[j] = f[j]; if((double)f[j] < l.lo[j]) l.lo[j] = f[j]; int b = 0; while(b + 1 < s[j] && !((double)f[j] <= l.lim[lb + b])) ++b; l.cnt[label * S + base + b]++; base += s[j]; lb += s[j] - 1; }
			vector<double> g = gains(l); for(int i = 0; i < G; ++i) l.gainsum[i] += g[i];
		}
		// the split the Hoeffding bound justifies: the index of the limit, or -1
		int decide(Leaf const& l){
			if(!G) return -1; double const eps = 2 * std::log(1 / delta) / l.n; int best = 0; for(int i = 1; i < G; ++i) if(l.gainsum[i] > l.gainsum[best]) best = i;
			double second = G == 1 ? 0 : -1e300; for(int i = 0; i < G; ++i) if(i != best) second = max(second, l.gainsum[i]);
			double a = l.gainsum[best] / l.n, b = second / l.n, d = a - b; ++compared; closest = min(closest, fabs(d * d - eps));
			if(fabs(d * d - eps) < 1e-9 * (1 + eps)) throw Ambiguous();
			if(d * d > eps && fabs(a) < 1e-9) throw Ambiguous();
			return d * d > eps && a > 0 ? best : -1;
		}
		void children_limits(Leaf& l){ int k = 0; for(int f = 0; f < FC; ++f){ double const st = (l.hi[f] - l.lo[f]) / s[f]; for(int i = 1; i < s[f]; ++i) l.lim[k++] = l.lo[f] + i * st; } }
		void split(int i, int g){
			int f = 0, k = g; while(k >= s[f] - 1){ k -= s[f] - 1; ++f; } double const v = n[i].lim[g];
			for(int z = 0; z < 2; ++z){ Leaf l = blank(); l.lo = n[i].lo; l.hi = n[i].hi; l.depth = n[i].depth + 1; (z ? l.lo : l.hi)[f] = v; children_limits(l); n.push_back(l); n[i].child[z] = n.size() - 1; }
			n[i].leaf = false; n[i].f = f; n[i].v = v; ++splits;
		}
		void scores(Leaf const& l, double* p) const{ for(int c = 0; c < LC; ++c){ double k = 0; for(int v = 0; v < s[0]; ++v) k += l.cnt[c * S + v]; p[c] = l.n ? k / l.n : 1.0 / LC; } }
	};
	static void check_predict(Case& c, Tree& t, Ref const& ref, F const* f, int i){
		double s[LC], e[LC]; for(double& x: s) x = -7; int const got = t.predict(f, s), got2 = t.predict(f); Leaf const& l = ref.n[ref.route(f)]; ref.scores(l, e); c.ev();
		for(int k = 0; k < LC; ++k) REQUIRE(vf::close(s[k], e[k], 1e-12), "after %d points, the score of class %d is %.17g, the %d points of the leaf give %.17g (leaf at depth %d, %llu splits)", i + 1, k, s[k], l.n, e[k], l.depth, (unsigned long long)ref.splits);
		REQUIRE(got == got2 && got >= 0 && got < LC, "predict gives class %d with scores and %d without", got, got2);
		double const m = *max_element(e, e + LC); REQUIRE(e[got] >= m - 1e-12, "class %d is predicted with score %g, the best score is %g", got, e[got], m);
		c.see(got); c.seed_d(s[got]);
	}
	// predict just below and just above the value of a split, in its box
	static void besides(Case& c, Tree& t, Ref const& ref, int i){
		vector<int> in; for(size_t k = 0; k < ref.n.size(); ++k) if(!ref.n[k].leaf) in.push_back(k); Leaf const& l = ref.n[in[c.r.below(in.size())]]; F f[FC];
		for(int j = 0; j < FC; ++j){ if(!(l.lo[j] < INFINITY)) return; f[j] = (F)c.r.real(l.lo[j], l.hi[j]); }
		double const size = max(fabs(l.v), max(fabs(l.lo[l.f]), fabs(l.hi[l.f])));
		for(int z = 0; z < 2; ++z){ double const at = l.v + (z ? 1e-10 : -1e-10) * size; F x = (F)at; if((z && (double)x < at) || (!z && (double)x > at)) x = std::nextafter(x, z ? numeric_limits<F>::infinity() : -numeric_limits<F>::infinity()); f[l.f] = x; check_predict(c, t, ref, f, i); }
	}
	static void endurance(Case& c){ run(c, c.r.below(3) == 0, true); } // counters beyond 16 bits
	static void deep(Case& c){ run(c, true, false, true); }
	static void wide(Case& c){ run(c, c.r.below(4), false, false, true); } // features, classes and limits that a byte or a short cannot number
	static void run(Case& c, bool grow, bool endure = false, bool narrow = false, bool wide = false){
		int s[FC]; sizes(c.r, s); double delta = grow ? pick_delta(c.r) : 1e-300; bool const few = grow && (narrow || (!wide && c.r.below(4)));
		if(few){ for(int i = 0; i < FC; ++i) s[i] = 1; s[c.r.below(FC)] = 2; if(c.r.below(3)) s[c.r.below(FC)] = 2; if(c.r.below(4) == 0) s[c.r.below(FC)] = 3; delta = c.r.below(3) ? 0.99 : 0.9; } // few limits to choose from: many splits
		Stream<F, FC, LC> g(c.r); if(narrow){ g.shape = 6; g.labels = LC; g.noise = 0; g.period = 4 + c.r.below(30); for(int i = 0; i < FC; ++i) s[i] = 1; s[g.axis] = 2 + c.r.below(2); delta = c.r.below(2) ? 0.9999 : 0.99; }
		if(wide){ g.shape = 3 + c.r.below(2); if(grow){ s[g.axis] = max(2, s[g.axis]); static double const d[] = { 0.9999, 0.99, 0.9, 0.5 }; delta = d[c.r.below(4)]; if(c.r.below(2)) for(int i = 0; i < FC; ++i) if(i != g.axis && c.r.below(20)) s[i] = 1; } }
		Slot<Tree> slot(0xA5); slot.p = new(slot.raw) Tree(delta, s); Tree& t = *slot.p; Ref ref(delta, s);
		if(few && !narrow && c.r.below(4)){ g.axis = c.r.below(FC); for(int i = 0; i < 20 && s[g.axis] == 1; ++i) g.axis = c.r.below(FC); if(g.shape == 1) g.shape = 3; } F f[FC]; int label;
		if(narrow || c.r.below(5)){ vector<double> l = limits(c.r, s); if(narrow) for(size_t i = 0; i < l.size(); ++i) l[i] = g.cut[0] + g.scale * (i + 1) / s[g.axis]; ref.n[0].lim = l; l.push_back(0); t.get_root()->set_limits(l.data()); }
		if(endure && !grow) g.shape = c.r.below(2); int const n = wide ? 1 + c.r.below(FC > 1000 ? 60 : 400) : narrow ? g.period * (15 + c.r.below(40)) : endure ? 70000 + c.r.below(scale(c, 80000)) : 1 + c.r.below(scale(c, grow ? (c.r.below(3) ? 500 : 2500) : 250)), rare = endure ? 100 : 1; int i = 0; uint64_t gains = 0; bool tie = false; int const C = counters(s) + 8; long const node = sizeof(typename Tree::Node);
		for(; i < n; ++i){
			g.next(f, label); int const w = ref.route(f); bool const root_leaf = t.get_root()->is_leaf(); REQUIRE(root_leaf == ref.n[0].leaf, "the root is %sa leaf after %d points", root_leaf ? "" : "not ", i);
			bool const ok = t.train(f, label); ref.count(ref.n[w], f, label); int d; try{ d = ref.decide(ref.n[w]); }catch(Ambiguous){ tie = true; break; }
			if(d < 0) REQUIRE(ok, "training point %d fails although its leaf has nothing to split on", i);
			else{
				// 1 + 2 * splits nodes and 1 + splits blocks of counters are in use; a split needs two nodes and one block
				long const k = ref.splits, need = (2 * k + 3) * node + (k + 2) * C + 16;
				if(!ok) REQUIRE(need > MAX, "a justified split fails after %ld splits: %d bytes are available, %ld are enough", k, MAX, need);
				if(ok){ ref.split(w, d); Leaf& l = ref.n[ref.n[w].child[(double)f[ref.n[w].f] <= ref.n[w].v ? 0 : 1]]; ref.count(l, f, label); } else ++ref.refused;
			}
			if(i % rare == 0 && ref.n[0].leaf && t.get_root()->is_leaf() && ref.G){
				vector<double> o(ref.G + 1, -1), e = ref.gains(ref.n[0]); t.get_root()->compute_information_gain(o.data()); ++gains;
				for(int k = 0; k < ref.G; ++k){ REQUIRE(vf::close(o[k], e[k], 1e-9, 1e-9), "after %d points, the information gain of limit %d is %.17g instead of %.17g", i + 1, k, o[k], e[k]); c.seed_d(o[k]); }
				c.ev(ref.G);
			}
			if(i % rare == 0){ check_predict(c, t, ref, f, i); g.probe(f); check_predict(c, t, ref, f, i); if(!is_integral<F>::value && ref.splits && (i < 200 || c.r.below(8) == 0)) besides(c, t, ref, i); }
		}
		int depth = 0; for(auto const& l: ref.n) depth = max(depth, l.depth);
		stat("points_trained", i); stat("splits", ref.splits); stat("splits_refused_for_space", ref.refused); stat("split_decisions_compared", ref.compared); stat("information_gain_vectors", gains); stat("histories_ended_on_a_tie", tie); stat("tree_depth_sum", depth); if(depth > 16) stat("trees_deeper_than_16", 1);
		c.see(ref.splits); if(grow && !ref.splits && !ref.refused) c.trivial = true;
		c.sample("%d features, %d classes, %d bytes, delta %g: %d points, %llu splits, depth %d, %llu splits refused for space", FC, LC, MAX, delta, i, (unsigned long long)ref.splits, depth, (unsigned long long)ref.refused);
	}
	static void stats(Case& c){ run(c, false); }
	static void grow(Case& c){ run(c, true); }
};
typedef Ht<double, 2, 2, 20000, 6> H1; typedef Ht<int, 3, 4, 30000, 5> H2; typedef Ht<float, 1, 2, 4000, 10> H3; typedef Ht<double, 5, 3, 3001, 4> H4; typedef Ht<short, 2, 10, 8003, 4> H5; typedef Ht<double, 3, 1, 3000, 3> H6; typedef Ht<float, 12, 6, 50000, 4> H7; typedef Ht<double, 1, 3, 900, 3> H8; typedef Ht<double, 2, 2, 1000000, 2> H9; typedef Ht<double, 1, 2, 60000, 3> H10; typedef Ht<double, 3, 3, 200000, 3> H11;
#define ALL H1, H2, H3, H4, H5, H6, H7, H8
#ifdef G_STATS
TEST(endurance){ void (*f[])(Case&) = { H1::endurance, H3::endurance, H8::endurance, H2::endurance, H9::endurance }; f[c.index % 5](c); }
typedef Ht<double, 300, 2, 1000000, 3> W1; typedef Ht<float, 3, 300, 1000000, 4> W2; typedef Ht<double, 2, 3, 500000, 300> W3; typedef Ht<int, 140, 140, 3000000, 2> W4; typedef Ht<double, 33000, 2, 9000000, 2> W5; typedef Ht<double, 1, 40000, 9000000, 2> W6;
TEST(wide){ void (*f[])(Case&) = { W1::wide, W2::wide, W3::wide, W4::wide, W1::wide, W2::wide, W3::wide, W1::wide, W2::wide, W3::wide, W4::wide, W5::wide, W2::wide, W6::wide }; f[c.index % 14](c); }
TEST(stats){ void (*f[])(Case&) = { H1::stats, H2::stats, H3::stats, H4::stats, H5::stats, H6::stats, H7::stats, H8::stats }; f[c.index % 8](c); }
#endif
#ifdef G_SPLIT
TEST(deep){ void (*f[])(Case&) = { H9::deep, H10::deep, H11::deep }; f[c.index % 3](c); }
TEST(split){ void (*f[])(Case&) = { H1::grow, H2::grow, H3::grow, H4::grow, H5::grow, H6::grow, H7::grow, H8::grow }; f[c.index % 8](c); }
#endif
GENERIC(ALL) GENERIC_COPY(ALL) GENERIC_ALLOC(ALL)
#include "main.inc"
