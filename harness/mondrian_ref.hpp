// Reference of the online Mondrian forest, written from the paper and the documented strategies, on plain vectors.
#pragma once
#include "common.hpp"
#include "generic.hpp"
namespace vf {
static double g_fixed = -1; // when not negative, what every draw gives: their order does not matter anymore
struct MFn{
	static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); } static double rand_uniform(){ return g_fixed >= 0 ? g_fixed : g_random->draw(); }
	static double random(){ return rand_uniform(); }
};
struct UseFixed{ UseFixed(double u){ g_fixed = u; } ~UseFixed(){ g_fixed = -1; } };
enum { R_NONE = 0, R_ORIGINAL = 1, R_GHOST = 2, R_PARTIAL = 3, R_COUNTER = 4, R_BARY = 5 };
enum { O_CREATED, O_SPLIT, O_COUNTED, O_DROPPED, O_REFUSED, O_DIVIDED };
struct Ambiguous{};
struct RNode{ int dim = -1; double val = 0; vector<double> lo, hi; int l = -1, r = -1, p = -1; double tau = 0; vector<int> cnt; double fade = 0; int forced = 0; bool leaf() const { return dim < 0; } };
struct RTree{
	vector<RNode> n; int root = -1; int used = 0, size = 0;
	int levels(int i) const{ int best = 0; vector<pair<int, int>> s{{ i, 1 }}; while(!s.empty()){ auto t = s.back(); s.pop_back(); best = max(best, t.second); if(!n[t.first].leaf()){ s.push_back({ n[t.first].l, t.second + 1 }); s.push_back({ n[t.first].r, t.second + 1 }); } } return best; }
	int above(int i) const{ int d = 0; while(n[i].p >= 0){ i = n[i].p; ++d; } return d; }
	vector<int> leaves() const{ vector<int> v; if(root < 0) return v; vector<int> s{ root }; while(!s.empty()){ int const i = s.back(); s.pop_back(); if(n[i].leaf()) v.push_back(i); else{ s.push_back(n[i].l); s.push_back(n[i].r); } } return v; }
	void cut(int i){ // the sibling takes the place of the parent
		int const p = n[i].p, sib = n[p].l == i ? n[p].r : n[p].l, g = n[p].p; n[sib].p = g;
		if(g < 0) root = sib; else if(n[g].l == p) n[g].l = sib; else n[g].r = sib;
		used -= 2;
	}
};
struct RConf{
	int F, L, mode = R_ORIGINAL; double lifetime, base, discount; double tol = 1e-9;
	int depth_limit = INT_MAX;  // levels a tree may have
	int size_limit = INT_MAX;   // a tree of that size does not grow anymore
	bool size_is_depth = false;
	int management = 0, size_type = 1, limit = -1, trim = 0; double trim_max = 1, point_fading = 1, forced_part = 1; int split_helper = 0, split_trigger = 0, forced_share = 0; // ways to split existing nodes
	bool splits() const{ return split_helper || split_trigger; } // parameters of the coarse forest
};
struct RForest{
	RConf c; vector<RTree> t; long free_nodes; uint64_t outcomes[6] = {0}, exhausted = 0; int full = 0; vector<double> sums; double weight = 0; // what the division of the leaves depends on
	RForest(RConf const& c, int trees, long pool): c(c), t(trees), free_nodes(pool), sums(c.F, 0){}
	void average(double const* x){ for(int f = 0; f < c.F; ++f) sums[f] = sums[f] * c.point_fading + x[f]; weight = weight * c.point_fading + 1; } // at the start of a training
	void end(){ if(free_nodes <= 1) ++full; } // at its end
	RNode blank() const{ RNode n; n.lo.assign(c.F, 0); n.hi.assign(c.F, 0); n.cnt.assign(c.L, 0); return n; }
	bool near(double a, double b) const{ return fabs(a - b) <= c.tol * max(fabs(a), fabs(b)); }
	void extend(RNode& n, double const* x){ if(c.mode == R_BARY){ for(int f = 0; f < c.F; ++f){ if(x[f] < n.lo[f]) n.lo[f] -= (n.lo[f] - x[f]) * c.forced_part; if(x[f] > n.hi[f]) n.hi[f] += (x[f] - n.hi[f]) * c.forced_part; } return; } for(int f = 0; f < c.F; ++f){ n.lo[f] = min(n.lo[f], x[f]); n.hi[f] = max(n.hi[f], x[f]); } }
	void hold(RNode& n, double const* x){ for(int f = 0; f < c.F; ++f){ n.lo[f] = min(n.lo[f], x[f]); n.hi[f] = max(n.hi[f], x[f]); } }
	double size(RNode const& n, double const* x) const{ double m = 0; for(int f = 0; f < c.F; ++f) m = max(m, max(fabs(x[f]), max(fabs(n.lo[f]), fabs(n.hi[f])))); return m; }
	bool stopped(RTree const& t, int i) const{ return (c.depth_limit != INT_MAX && t.above(i) + 1 + t.levels(i) > c.depth_limit) || (c.size_limit != INT_MAX && t.size >= c.size_limit); }
	// A leaf is divided between the point, inside of its box, and the barycentre of the points
	template<class D> bool divide(RTree& t, int i, double const* x, int label, double pt, D draw){
		vector<double> b(c.F, 0), e(c.F, 0); double sum = 0;
		if(c.split_helper == 1) for(int f = 0; f < c.F; ++f) b[f] = sums[f] / weight;
		else{ double n = 0; for(int k: t.leaves()){ double m = 0; for(int v: t.n[k].cnt) m += v; n += m; for(int f = 0; f < c.F; ++f) b[f] += m * (t.n[k].lo[f] + t.n[k].hi[f]) / 2; } if(!(n > 0)) return false; for(double& v: b) v /= n; }
		for(int f = 0; f < c.F; ++f){
			double const tiny = 1e-9 * size(t.n[i], x); if(fabs(b[f] - t.n[i].lo[f]) <= tiny || fabs(b[f] - t.n[i].hi[f]) <= tiny){ if(t.n[i].lo[f] < t.n[i].hi[f]) throw Ambiguous(); continue; }
			if(b[f] > t.n[i].lo[f] && b[f] < t.n[i].hi[f]){ if(fabs(b[f] - x[f]) <= tiny) throw Ambiguous(); sum += e[f] = fabs(b[f] - x[f]); }
		}
		if(!(sum > 0)) return false;
		double const u = draw(); int const d = pick(e, sum, u); double const lo = t.n[i].lo[d], hi = t.n[i].hi[d], from = min(b[d], x[d]), to = max(b[d], x[d]), w = draw(), v = from + w * (to - from), part = (v - lo) / (hi - lo); if(to - v <= 1e-12 * max(fabs(from), fabs(to)) || (w > 0 && v <= from)) throw Ambiguous();
		RNode p = blank(), s = blank(); int const pi = t.n.size(), si = pi + 1; p.dim = d; p.val = v; p.tau = pt + (c.lifetime - pt) * w; p.p = t.n[i].p; p.lo = t.n[i].lo; p.hi = t.n[i].hi; s.lo = p.lo; s.hi = p.hi; s.p = pi; s.tau = c.lifetime;
		// the leaf stays on the side of most of its points
		int n = 0; for(int k: t.n[i].cnt) n += k; double const nl = n * part, nr = n * (1 - part); if(n && part > 0 && (fabs(nl - std::round(nl)) <= 1e-7 || fabs(nr - std::round(nr)) <= 1e-7)) throw Ambiguous();
		int left = nl, right = nr; (draw() < 0.5 ? left : right) += n - left - right; bool const stays = left > right; int const forced = t.n[i].forced;
		for(int l = 0; l < c.L; ++l){ double const k = t.n[i].cnt[l] * (stays ? 1 - part : part); if(fabs(k - std::floor(k) - 0.5) <= 1e-7) throw Ambiguous(); s.cnt[l] = std::floor(k + 0.5); t.n[i].cnt[l] -= s.cnt[l]; }
		switch(c.forced_share){
			case 0: t.n[i].forced = 0; break; case 1: s.forced = t.n[i].forced = forced / 2; break; case 3: t.n[i].forced = forced - 1; break;
			default: { double const stay = n ? (stays ? left : right) / (double)n : 0.5; s.forced = (1 - stay) * forced; t.n[i].forced = stay * forced; double const k = stay * forced; if(forced && fmod(stay, 0.5) != 0 && fabs(k - std::round(k)) <= 1e-7) throw Ambiguous(); }
		}
		(stays ? t.n[i].hi : t.n[i].lo)[d] = v; (stays ? s.lo : s.hi)[d] = v; p.l = stays ? i : si; p.r = stays ? si : i; RNode& home = (x[d] <= v) == stays ? t.n[i] : s; ++home.cnt[label]; home.fade += 1; free_nodes -= 2;
		if(p.p < 0) t.root = pi; else if(t.n[p.p].l == i) t.n[p.p].l = pi; else t.n[p.p].r = pi;
		t.n[i].p = pi; t.n.push_back(p); t.n.push_back(s); t.used += 2; return true;
	}
	// One of the dimensions, in proportion to their lengths
	int pick(vector<double> const& e, double sum, double u) const{
		int last = c.F - 1; while(!(e[last] > 0)) --last; double acc = 0;
		for(int f = 0; f < last; ++f){ acc += e[f] / sum; if(acc > 0 && fabs(u - acc) <= c.tol) throw Ambiguous(); if(u < acc) return f; }
		return last;
	}
	template<class D> int train_tree(RTree& t, double const* x, int label, D draw){
		if(t.root < 0){
			if(free_nodes < 1) return O_REFUSED;
			--free_nodes; t.n.push_back(blank()); t.root = t.n.size() - 1; t.used = 1; RNode& n = t.n.back(); n.tau = c.lifetime; n.cnt[label] = 1; for(int f = 0; f < c.F; ++f) n.lo[f] = n.hi[f] = x[f]; return O_CREATED;
		}
		if(c.mode == R_NONE && free_nodes <= 2) return O_REFUSED;
		int i = t.root; double pt = 0;
		for(;;){
			double sum = 0; vector<double> e(c.F); for(int f = 0; f < c.F; ++f){ e[f] = max(0.0, t.n[i].lo[f] - x[f]) + max(0.0, x[f] - t.n[i].hi[f]); sum += e[f]; }
			bool wants = false;
			if(c.mode == R_BARY && sum > 0 && sum <= 1e-9 * size(t.n[i], x)) throw Ambiguous(); // rounding of the boxes
			if(sum > 0){
				double const E = -std::log(1 - draw()) / sum, at = pt + E; wants = at < t.n[i].tau;
				if(at == t.n[i].tau ? E != 0 || (c.mode != R_NONE && c.mode != R_ORIGINAL) : near(at, t.n[i].tau)) throw Ambiguous();
				if(wants){
					bool const paused = stopped(t, i);
					if(free_nodes >= 2 && !paused){ free_nodes -= 2; split(t, i, x, label, e, sum, at, draw); return O_SPLIT; }
					++exhausted; if(c.mode == R_BARY) ++t.n[i].forced;
					if(c.mode == R_PARTIAL) return O_DROPPED;
					if(c.mode == R_GHOST){ ++t.n[i].cnt[label]; t.n[i].fade += 1; return O_DROPPED; }
				}
			}
			if(!(wants && c.mode == R_COUNTER)) extend(t.n[i], x);
			if(c.split_helper && t.n[i].leaf() && sum == 0 && full > 20 && free_nodes >= 2 && !stopped(t, i) && divide(t, i, x, label, pt, draw)) return O_DIVIDED;
			if(c.mode == R_GHOST || t.n[i].leaf()) ++t.n[i].cnt[label];
			if(t.n[i].leaf()){ t.n[i].fade += 1; return O_COUNTED; }
			pt = t.n[i].tau; i = x[t.n[i].dim] <= t.n[i].val ? t.n[i].l : t.n[i].r;
		}
	}
	template<class D> void split(RTree& t, int i, double const* x, int label, vector<double> const& e, double sum, double at, D draw){
		double const u = draw(); int const d = pick(e, sum, u);
		bool const right = x[d] > t.n[i].hi[d]; double const a = right ? t.n[i].hi[d] : x[d], b = right ? x[d] : t.n[i].lo[d]; double const w = draw(), v = w * (b - a) + a;
		if(w > 0 && (b - v <= 1e-12 * max(fabs(a), fabs(b)) || v - a <= 0)) throw Ambiguous();
		RNode p = blank(), s = blank(); int const pi = t.n.size(), si = pi + 1; p.dim = d; p.val = v; p.tau = at; p.p = t.n[i].p; p.lo = t.n[i].lo; p.hi = t.n[i].hi; hold(p, x); if(c.mode == R_GHOST){ p.cnt = t.n[i].cnt; ++p.cnt[label]; }
		p.l = right ? i : si; p.r = right ? si : i; s.p = pi; s.tau = c.lifetime; s.cnt[label] = 1; for(int f = 0; f < c.F; ++f) s.lo[f] = s.hi[f] = x[f];
		if(p.p < 0) t.root = pi; else if(t.n[p.p].l == i) t.n[p.p].l = pi; else t.n[p.p].r = pi;
		t.n[i].p = pi; t.n.push_back(p); t.n.push_back(s); t.used += 2;
	}
	void measure(RTree& t){ if(c.size_limit != INT_MAX && t.root >= 0) t.size = c.size_is_depth ? t.levels(t.root) : t.used; }
	template<class D> bool train(double const* x, int label, D draw){
		bool ok = true; for(RTree& k: t){ int const o = train_tree(k, x, label, draw); ++outcomes[o]; if(o == O_REFUSED) ok = false; measure(k); } return ok;
	}
	void counts(RTree& t) const{ // the tables of the internal nodes
		if(c.mode == R_GHOST || t.root < 0) return;
		vector<int> order, s{ t.root }; while(!s.empty()){ int const i = s.back(); s.pop_back(); order.push_back(i); if(!t.n[i].leaf()){ s.push_back(t.n[i].l); s.push_back(t.n[i].r); } }
		for(int k = (int)order.size() - 1; k >= 0; --k){ RNode& n = t.n[order[k]]; if(!n.leaf()) for(int l = 0; l < c.L; ++l) n.cnt[l] = min(1, t.n[n.l].cnt[l]) + min(1, t.n[n.r].cnt[l]); }
	}
	void scores_tree(RTree& t, double const* x, double* out) const{
		counts(t); vector<double> post(c.L, c.base), s(c.L, 0); double together = 1, pt = 0; int i = t.root; if(i < 0){ for(int l = 0; l < c.L; ++l) out[l] = c.base; return; }
		for(;;){
			RNode const& n = t.n[i]; double const dt = n.tau - pt; double eta = 0; for(int f = 0; f < c.F; ++f) eta += max(0.0, x[f] - n.hi[f]) + max(0.0, n.lo[f] - x[f]);
			double const p = -std::expm1(-dt * eta); double tabs = 0, tot = 0; for(int l = 0; l < c.L; ++l){ tabs += min(1, n.cnt[l]); tot += n.cnt[l]; }
			if(p > 0){ double const pd = eta / (eta + c.discount) * -std::expm1(-(eta + c.discount) * dt); for(int l = 0; l < c.L; ++l){ double const k = min(1, n.cnt[l]); s[l] += together * (tabs > 0 ? (p - pd) * k / tabs + pd * post[l] : p * post[l]); } }
			double const d = std::exp(-c.discount * dt); for(int l = 0; l < c.L; ++l) if(n.cnt[l] > 0) post[l] = (n.cnt[l] - d + d * tabs * post[l]) / tot;
			if(n.leaf()){ for(int l = 0; l < c.L; ++l) out[l] = s[l] + together * (1 - p) * post[l]; return; }
			together *= 1 - p; pt = n.tau; i = x[n.dim] <= n.val ? n.l : n.r;
		}
	}
	void scores(double const* x, double* out, int use = -1){ if(use < 0) use = t.size(); vector<double> o(c.L); for(int l = 0; l < c.L; ++l) out[l] = 0; for(int k = 0; k < use; ++k){ scores_tree(t[k], x, o.data()); for(int l = 0; l < c.L; ++l) out[l] += o[l] / use; } }
};
// Streams of labelled points for the forests
struct MStream{
	Rng r; int F, L, labels, shape; double scale; vector<vector<double>> centers; vector<vector<double>> old; bool integer; int step = 0;
	MStream(Rng& c, int F, int L, bool integer): r(c.next()), F(F), L(L), integer(integer){
		labels = r.below(4) ? L : 1 + r.below(L); shape = r.below(7); scale = integer ? 40 : r.below(3) ? 1 : r.below(2) ? 100 : 0.01; for(int i = 0; i < labels + 1; ++i){ vector<double> k; for(int f = 0; f < F; ++f) k.push_back(r.real(-scale, scale)); centers.push_back(k); }
	}
	double q(double v) const{ return integer ? std::floor(v) : (double)(float)v; } // exact in all the feature types
	void next(double* x, int& label){
		label = r.below(labels); ++step;
		for(int f = 0; f < F; ++f) switch(shape){
			case 0: x[f] = r.real(-scale, scale); break;                               // uniform
			case 1: x[f] = scale * 0.125 * r.range(-4, 4); break;                      // grid, many ties
			case 2: x[f] = centers[label][f]; break;                                   // the same few points
			case 3: x[f] = scale * 0.05 * step * (r.below(2) ? 1 : -1); break;         // always outside of the box
			case 4: x[f] = f == step % F ? r.real(-scale, scale) : centers[0][f]; break; // along the axes
			default: x[f] = centers[label][f] + r.gauss() * scale * 0.1; break;
		}
		for(int f = 0; f < F; ++f) x[f] = q(x[f]);
		if(shape == 5 && r.below(12) == 0) label = r.below(labels);
		if(old.size() < 50) old.push_back(vector<double>(x, x + F)); else old[r.below(50)] = vector<double>(x, x + F);
	}
	void probe(double* x){
		int const k = r.below(6);
		if(k < 3 && !old.empty()){ auto const& o = old[r.below(old.size())]; for(int f = 0; f < F; ++f) x[f] = k == 0 ? o[f] : q(o[f] + r.gauss() * scale * (k == 1 ? 0.02 : 0.3)); }
		else for(int f = 0; f < F; ++f) x[f] = q(r.real(-scale, scale) * (k == 5 ? 10 : 1.2));
	}
};
static inline RConf mconf(Rng& r, int F, int L, double scale){
	RConf c; c.F = F; c.L = L; static double const life[] = { 0, 0.2, 1, 5, 30, 1000 }; c.lifetime = life[r.below(6)] / scale; if(r.below(8) == 0) c.lifetime = 1e9;
	int const b = r.below(4); c.base = b == 0 ? 0 : b == 1 ? 1 : b == 2 ? 1.0 / L : r.u01(); int const d = r.below(4); c.discount = d == 0 ? 0 : d == 1 ? 0.1 : d == 2 ? 1 : r.real(0, 20);
	return c;
}
static inline double constant(Rng& r, bool zero){ switch(r.below(6)){ case 0: if(zero) return 0; /* fall through */ case 1: return r.u01() * 0.01; case 2: return r.real(0.9, 0.99999); default: return r.u01(); } }
// A(dapter): F, Obj, FC, LC, trees(Rng&), pool(trees), construct(void*, RConf, trees), tune(RConf&, Rng&, trees, trim)
struct NoTune{ static void tune(RConf&, Rng&, int, bool){} static void unlimited(RConf&){} static void splitting(RConf&, Rng&){} };
template<class A> struct MGeneric: A, Defaults{ // the generic monitors
	typedef typename A::Obj Obj; typedef typename A::F F;
	static const bool assigns = A::assigns;
	static size_t budget(){ return A::bytes ? A::bytes + 512 : 0; }
	static int ops(){ return 100; }
	static bool no_alloc(bool set){ bool const t = g_track_alloc; g_track_alloc = set; return t; }
	static Obj* construct(void* p, Rng& c){
		bool const t = no_alloc(false); RConf rc = mconf(c, A::FC, A::LC, is_integral<F>::value ? 40 : 1); int const T = A::trees(c); A::tune(rc, c, T, true); A::splitting(rc, c); no_alloc(t); return A::construct(p, rc, T);
	}
	static void point(Rng& r, F* f, int& label){
		label = r.below(A::LC); int const k = r.below(8);
		for(int i = 0; i < A::FC; ++i){ double const v = k == 0 ? r.range(-2, 2) * 0.5 : k == 1 ? r.real(-3, 3) : (label % 3 - 1) * 0.7 + r.gauss() * 0.2; f[i] = (F)(is_integral<F>::value ? v * 40 : v); }
	}
	static void mutate(Obj& o, Rng& r, Hash& h){
		F f[A::FC], k[A::FC]; int label;
		for(int i = 0; i < 3; ++i){ point(r, f, label); memcpy(k, f, sizeof f); h.add(o.train(f, label)); if(memcmp(k, f, sizeof f)) violation("train modified the features"); }
	}
	static void query(Obj& o, Rng& r, Hash& h){
		F f[A::FC], k[A::FC]; int label; double s[A::LC];
		for(int i = 0; i < 2; ++i){ point(r, f, label); memcpy(k, f, sizeof f); for(double& v: s) v = -4; h.add(o.predict(f, s)); for(double v: s) h.addd(v); h.add(o.predict(f)); if(memcmp(k, f, sizeof f)) violation("predict modified the features"); }
	}
};
template<class A> struct MTests{
	typedef typename A::F F;
	static void conv(double const* x, F* f){ for(int i = 0; i < A::FC; ++i) f[i] = (F)x[i]; }
	static double score_tol(){ return is_same<F, float>::value ? 2e-5 : 1e-8; }
	// The scores and the return values against the reference, with random numbers that do not depend on their order
	static void exact(Case& c){ run(c, false); }
	static void endurance(Case& c){ run(c, true); } // counters beyond 16 bits, or as many nodes as there is room for
	static void wide(Case& c){ run(c, false, true); } // trees, features and classes that a byte or a short cannot number
	static void run(Case& c, bool endure, bool wide = false){
		bool large = false;
		MStream g(c.r, A::FC, A::LC, is_integral<F>::value); RConf rc = mconf(c.r, A::FC, A::LC, g.scale); if(is_same<F, float>::value) rc.tol = 1e-5;
		int const T = A::trees(c.r); A::tune(rc, c.r, T, false); if(endure){ g.shape = c.r.below(2) ? 0 : 5; large = A::bytes ? A::pool(T) > 20000 : T == 1 && c.r.below(3) == 0; rc.lifetime = large ? 1e6 : min(rc.lifetime, 5 / g.scale); if(large) A::unlimited(rc); } long const pool = A::pool(T); RForest ref(rc, T, pool); Slot<typename A::Obj> slot(0xA5); A::construct(slot.raw, rc, T); slot.p = (typename A::Obj*)slot.raw; typename A::Obj& o = *slot.p;
		int const n = wide ? T > 1000 ? 2 : 1 + c.r.below(min(250, max(10, 60000 / (T * (A::FC + A::LC))))) : large ? 34000 : endure ? 66000 + c.r.below(scale(c, 10000)) : 1 + c.r.below(scale(c, c.r.below(3) ? 60 : 250)), rare = endure ? 2000 : 1; double x[A::FC]; F f[A::FC]; int label; bool tie = false; int i = 0; uint64_t scores = 0; Source src(1, 0); UseSource use(src); bool const zero = c.r.below(5) == 0; double const keepc = constant(c.r, zero); bool const same = c.r.below(6) == 0;
		for(; i < n && !tie; ++i){
			g.next(x, label); conv(x, f); double const k = large ? c.r.real(0.4, 0.95) : same ? keepc : constant(c.r, zero); bool got; { UseFixed u(k); got = o.train(f, label); } bool expected; try{ expected = ref.train(x, label, [k]{ return k; }); }catch(Ambiguous){ tie = true; break; }
			c.ev(); REQUIRE(got == expected, "training point %d returns %d instead of %d (%d trees, room for %ld nodes, %ld left)", i, got, expected, T, pool, ref.free_nodes);
			for(int q = 0; q < 3 && i % rare == 0; ++q){
				if(q) g.probe(x); conv(x, f); double s[A::LC], e[A::LC]; for(double& v: s) v = -3; int const p = o.predict(f, s), p2 = o.predict(f); ref.scores(x, e); ++scores; c.ev(A::LC);
				for(int l = 0; l < A::LC; ++l) REQUIRE(fabs(s[l] - e[l]) <= score_tol(), "after %d points, the score of class %d is %.17g instead of %.17g (%d trees, %ld nodes left, lifetime %g, base %g, discount %g)", i + 1, l, s[l], e[l], T, ref.free_nodes, rc.lifetime, rc.base, rc.discount);
				REQUIRE(p == p2 && p >= 0 && p < A::LC && s[p] >= *max_element(s, s + A::LC), "predicts class %d (then %d) with score %g of %g", p, p2, s[p], *max_element(s, s + A::LC));
				c.see(p); c.seed_d(std::round(s[p] * 1e5));
			}
		}
		int used = 0; for(auto const& t: ref.t) used += t.used;
		stat("points_trained", i); stat("scores_compared", scores); stat("trees_split", ref.outcomes[O_SPLIT]); stat("points_counted", ref.outcomes[O_COUNTED]); stat("splits_without_memory", ref.exhausted); stat("trees_refused", ref.outcomes[O_REFUSED]); stat("histories_ended_on_a_tie", tie);
		if(!used) c.trivial = true;
		c.sample("%d trees, %d features, %d classes, lifetime %g, stream %d: %d points, %d nodes, %llu splits, %llu without memory", T, A::FC, A::LC, rc.lifetime, g.shape, i, used, (unsigned long long)ref.outcomes[O_SPLIT], (unsigned long long)ref.exhausted);
	}
	// The scores averaged over many forests against the reference with its own random numbers
	static void distribution(Case& c){
		MStream g(c.r, A::FC, A::LC, is_integral<F>::value); RConf rc = mconf(c.r, A::FC, A::LC, g.scale); if(rc.lifetime > 100 / g.scale) rc.lifetime = 3 / g.scale; rc.tol = 0; int const T = A::trees(c.r); A::tune(rc, c.r, T, false); long const pool = A::pool(T); int const n = 2 + c.r.below(c.r.below(4) ? 9 : 25);
		vector<vector<double>> pts; vector<int> lab; for(int i = 0; i < n; ++i){ double x[A::FC]; int l; g.next(x, l); pts.push_back(vector<double>(x, x + A::FC)); lab.push_back(l); }
		int const P = 4; vector<vector<double>> probes; for(int i = 0; i < P; ++i){ double x[A::FC]; g.probe(x); probes.push_back(vector<double>(x, x + A::FC)); }
		int const R = c.thorough ? 1500 : 500; vector<double> m[2], v[2]; for(int z = 0; z < 2; ++z){ m[z].assign(P * A::LC, 0); v[z].assign(P * A::LC, 0); }
		Source src(c.r.next(), 0); UseSource use(src); Rng own(c.r.next()); unique_ptr<Slot<typename A::Obj>> slot(new Slot<typename A::Obj>(0xA5));
		for(int k = 0; k < R; ++k){
			A::construct(slot->raw, rc, T); slot->p = (typename A::Obj*)slot->raw; RForest ref(rc, T, pool);
			F f[A::FC]; for(int i = 0; i < n; ++i){ conv(pts[i].data(), f); slot->p->train(f, lab[i]); for(;;){ RForest keep = ref; try{ ref.train(pts[i].data(), lab[i], [&]{ return own.u01(); }); break; }catch(Ambiguous){ ref = keep; } } }
			for(int q = 0; q < P; ++q){ double s[2][A::LC]; conv(probes[q].data(), f); slot->p->predict(f, s[0]); ref.scores(probes[q].data(), s[1]); for(int z = 0; z < 2; ++z) for(int l = 0; l < A::LC; ++l){ m[z][q * A::LC + l] += s[z][l]; v[z][q * A::LC + l] += s[z][l] * s[z][l]; } }
			slot->destroy(0xA5);
		}
		double worst = 0;
		for(int j = 0; j < P * A::LC; ++j){
			double mean[2], var[2]; for(int z = 0; z < 2; ++z){ mean[z] = m[z][j] / R; var[z] = max(0.0, v[z][j] / R - mean[z] * mean[z]); } double const sd = sqrt((max(var[0], var[1]) * 2 + 1e-6) / R); c.ev(); worst = max(worst, fabs(mean[0] - mean[1]) / sd);
			REQUIRE(fabs(mean[0] - mean[1]) <= 7.5 * sd + 1e-7, "over %d forests of %d trees and %d points, the average score of class %d for probe %d is %g instead of %g (standard deviation of the difference %g)", R, T, n, j % A::LC, j / A::LC, mean[0], mean[1], sd);
			c.seed_d(std::round(mean[0] * 1e6));
		}
		stat("forests_averaged", R); stat("averages_compared", P * A::LC); c.sample("%d points of stream %d, %d forests of %d trees, lifetime %g, largest deviation %.2f", n, g.shape, R, T, rc.lifetime, worst);
	}
	// Long histories with any random numbers: bounds, renamed classes
	static void symmetry(Case& c){ mirror(c, 1000); }
	static void wide_symmetry(Case& c){ mirror(c, min(250, max(10, 60000 / (A::FC + A::LC) / A::trees(c.r)))); }
	static void mirror(Case& c, int most){
		MStream g(c.r, A::FC, A::LC, is_integral<F>::value); RConf rc = mconf(c.r, A::FC, A::LC, g.scale); int const T = A::trees(c.r); A::tune(rc, c.r, T, true); A::splitting(rc, c.r); vector<int> perm(A::LC); for(int i = 0; i < A::LC; ++i) perm[i] = i; for(int i = A::LC - 1; i > 0; --i) swap(perm[i], perm[c.r.below(i + 1)]);
		Slot<typename A::Obj> a(0x00), b(0xFF); A::construct(a.raw, rc, T); a.p = (typename A::Obj*)a.raw; A::construct(b.raw, rc, T); b.p = (typename A::Obj*)b.raw; uint64_t const seed = c.r.next(); int const mode = c.r.below(5); Source sa(seed, mode), sb(seed, mode);
		int const n = min<int>(most, 1 + c.r.below(scale(c, c.r.below(3) ? 100 : 800))); double x[A::FC]; F f[A::FC], k[A::FC]; int label; uint64_t refused = 0; set<int> seen;
		for(int i = 0; i < n; ++i){
			g.next(x, label); conv(x, f); memcpy(k, f, sizeof f); bool ra, rb; { UseSource u(sa); ra = a.p->train(f, label); } { UseSource u(sb); rb = b.p->train(f, perm[label]); } c.ev(); REQUIRE(ra == rb, "training point %d returns %d, and %d with renamed classes", i, ra, rb); REQUIRE(!memcmp(k, f, sizeof f), "train modified the features"); refused += !ra; seen.insert(label);
			if(n > 100 && c.r.below(8)) continue;
			g.probe(x); conv(x, f); memcpy(k, f, sizeof f); double s[A::LC], s2[A::LC]; int pa; { UseSource u(sa); pa = a.p->predict(f, s); } { UseSource u(sb); b.p->predict(f, s2); } REQUIRE(!memcmp(k, f, sizeof f), "predict modified the features");
			for(int l = 0; l < A::LC; ++l){ c.ev(); REQUIRE(s[l] >= -1e-9 && s[l] <= 1 + 1e-9, "after %d points the score of class %d is %.17g (base measure %g)", i + 1, l, s[l], rc.base); REQUIRE(fabs(s[l] - s2[perm[l]]) <= 1e-9, "after %d points class %d has score %.17g, and %.17g once renamed to %d", i + 1, l, s[l], s2[perm[l]], perm[l]); }
			if(!rc.base) for(int l = 0; l < A::LC; ++l) if(!seen.count(l)) REQUIRE(s[l] <= 1e-12, "class %d was never seen and has score %g", l, s[l]);
			c.see(pa); c.seed_d(s[pa]);
		}
		stat("points_trained", n); stat("trainings_refused", refused); c.sample("%d trees, lifetime %g, stream %d, random mode %d: %d points, %llu refused", T, rc.lifetime, g.shape, mode, n, (unsigned long long)refused);
	}
};
}
