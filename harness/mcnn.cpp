#include "common.hpp"
#include "alloc.hpp"
#include "mc_nn.hpp"
#include "generic.hpp"
using namespace vf;

// Generator of labelled points: blobs that move, overlapping classes, repeated points, far away points
template<class F, unsigned N> struct Points{
	int labels, shape; double scale; vector<vector<double>> center; Rng r; bool far; int stride = 1, first = 0;
	Points(Rng& c, int max_labels): r(c.next()){
		labels = 1 + r.below(max_labels); shape = r.below(5); static double const s[] = { 1, 10, 100, 400 }; scale = s[r.below(4)];
		if(is_integral<F>::value && scale < 10) scale = 50; far = !is_integral<F>::value && r.below(4) == 0; if(far) scale *= 1000;
		for(int i = 0; i < labels * 2; ++i){ center.push_back({}); for(unsigned j = 0; j < N; ++j) center.back().push_back(r.real(-scale, scale)); }
	}
	void next(F* f, int& label){
		label = r.below(labels); int const k = label * 2 + r.below(2); if(shape == 4 && r.below(10) == 0) for(auto& x: center[k]) x = r.real(-scale, scale);
		int const wrong = r.below(12) == 0 ? r.below(labels) : label;
		for(unsigned j = 0; j < N; ++j){
			double v; switch(shape){ case 0: v = r.real(-scale, scale); break; case 1: v = center[k][j]; break; case 2: v = (double)r.range(-3, 3); break; default: v = center[k][j] * 0.8 + r.gauss() * scale * 0.1; }
			v = max(-scale, min(scale, v)); f[j] = (F)v;
		}
		label = first + stride * wrong;
	}
	void probe(F* f){ int l; next(f, l); if(r.below(4) == 0) for(unsigned j = 0; j < N; ++j) f[j] = (F)(r.real(-scale, scale) * 1.2); }
};
template<class F, unsigned N, unsigned MAX, int EMPTY> struct Mc: Defaults{
	static const bool readers = true;
	typedef MCNN<F, N, MAX, EMPTY> Model;
	struct Obj{ Model m; Points<F, N>* none; int labels; double scale; int lastlabel; Obj(unsigned e, unsigned k, double p): m(e, k, p){} };
	static size_t budget(){ return MAX * (2 * N * sizeof(F) + 64) + 256; }
	static int ops(){ return 120; }
	static Obj* construct(void* p, Rng& c){
		unsigned const e = 1 + c.below(5), k = c.below(3); double const thr = c.real(0, 100); Obj* o = new(p) Obj(e, k, thr); o->labels = 1 + c.below(MAX + 2); o->scale = c.below(2) ? 10 : 200; o->none = nullptr; o->lastlabel = 0; return o;
	}
	static void draw(Obj& o, Rng& r, F* f){ for(unsigned j = 0; j < N; ++j) f[j] = (F)(r.below(3) ? r.real(-o.scale, o.scale) : (double)r.range(-2, 2)); }
	static void mutate(Obj& o, Rng& r, Hash& h){
		F f[N]; for(int i = 0; i < 3; ++i){ draw(o, r, f); F k[N]; memcpy(k, f, sizeof f); h.add(o.m.train(f, r.below(o.labels))); if(memcmp(k, f, sizeof f)) violation("train modified the features"); }
		h.add(o.m.count_clusters());
	}
	static void query(Obj& o, Rng& r, Hash& h){
		F f[N]; for(int i = 0; i < 6; ++i){ draw(o, r, f); F k[N]; memcpy(k, f, sizeof f); h.add(o.m.predict(f)); if(memcmp(k, f, sizeof f)) violation("predict modified the features"); }
		h.add(o.m.count_clusters()); h.add(o.m.get_error_thr()); h.add(o.m.get_performance_thr());
	}
	// ------------------------------------------------ reference model
	struct Cluster{ F sum[N], sq[N]; double ts; unsigned n; int label, err; double t0; };
	struct Ambiguous{};
	struct Ref{
		vector<Cluster> cl; double now = -1; unsigned err; unsigned method; double thr; double tol; uint64_t splits = 0, evictions = 0, cleaned = 0, created = 0, refused = 0;
		static double tri(double t){ return (t * t + t) * 0.5; }
		double perf(Cluster const& c) const{ return c.ts * (100 / (tri(now) - tri(c.t0))); }
		double dist(F const* f, Cluster const& c) const{ double s = 0; for(unsigned i = 0; i < N; ++i){ F const m = (F)((double)c.sum[i] / (double)c.n); double const d = (double)(F)(f[i] - m); s += d * d; } return s; }
		static void init(Cluster& c, F const* f, int label, double t, int e){ c.t0 = t; c.ts = t; c.n = 1; c.err = e; c.label = label; for(unsigned i = 0; i < N; ++i){ c.sum[i] = f[i]; c.sq[i] = f[i] * f[i]; } }
		int lowest(int excluded) const{
			int best = -1, second = -1; for(int i = 0; i < (int)cl.size(); ++i) if(i != excluded){ double const p = perf(cl[i]); if(std::isnan(p)) throw Ambiguous(); if(best < 0 || p < perf(cl[best])){ second = best; best = i; } else if(second < 0 || p < perf(cl[second])) second = i; }
			if(best >= 0 && second >= 0){ double const a = perf(cl[best]), b = perf(cl[second]); if(vf::close(a, b, 1e-9)) throw Ambiguous(); }
			return best;
		}
		void split(int i){
			int evict = -1;
			if(cl.size() >= MAX){ if(method == 1) return; evict = lowest(i); if(evict < 0) return; }
			double hv = 0; int at = -1; double second = -1; double mag = 0;
			Cluster& c = cl[i];
			for(unsigned j = 0; j < N; ++j){ double const a = (double)c.sq[j] / c.n, b = (double)c.sum[j] / c.n, v = a - b * b; mag = max(mag, fabs(a)); if(at < 0 || v > hv){ second = at < 0 ? -1 : max(second, hv); hv = v; at = j; } else second = max(second, v); }
			double const eps = is_same<F, float>::value ? 1e-4 : 1e-9;
			if(c.n > 1 && N > 1 && fabs(hv - second) <= eps * (mag + 1e-300)) throw Ambiguous();
			if(c.n > 1 && hv != 0 && fabs(hv) <= eps * mag) throw Ambiguous(); // rounding errors decide
			double const sd = hv > 0 ? sqrt(hv) : 0; F lo[N], hi[N];
			for(unsigned j = 0; j < N; ++j) lo[j] = hi[j] = (F)((double)c.sum[j] / (double)c.n);
			lo[at] -= sd; hi[at] += sd; int const t = (int)(c.ts / c.n); int const label = c.label;
			Cluster n; init(n, lo, label, t, err); init(cl[i], hi, label, t, err);
			if(evict >= 0){ cl[evict] = n; ++evictions; } else cl.push_back(n);
			++splits;
		}
		bool train(F const* f, int label){
			if(method) for(size_t i = 0; i < cl.size();){ double const p = perf(cl[i]); if(cl[i].n > 1 && fabs(p - thr) < 1e-9 * (1 + thr)) throw Ambiguous(); if(cl[i].n > 1 && p < thr){ cl.erase(cl.begin() + i); ++cleaned; } else ++i; }
			now += 1;
			int near = -1, same = -1; for(int i = 0; i < (int)cl.size(); ++i){ double const d = dist(f, cl[i]); if(near < 0 || d < dist(f, cl[near])) near = i; if(cl[i].label == label && (same < 0 || d < dist(f, cl[same]))) same = i; }
			if(same < 0){
				if(cl.size() < MAX){ Cluster c; init(c, f, label, now, err); cl.push_back(c); ++created; return true; }
				if(method == 1){ ++refused; return false; }
				int const i = lowest(-1); init(cl[i], f, label, now, err); ++evictions; return true;
			}
			double const ds = dist(f, cl[same]), dn = dist(f, cl[near]);
			for(int i = 0; i < (int)cl.size(); ++i){ double const d = dist(f, cl[i]); if(i != same && cl[i].label == label && fabs(d - ds) <= tol) throw Ambiguous(); if(i != near && i != same && near != same && cl[i].label != label && fabs(d - dn) <= tol) throw Ambiguous(); }
			if(near != same && ds == dn) near = same; // the documented tie break
			for(int i = 0; i < (int)cl.size(); ++i) if(i != same && cl[i].label != label){ double const d = dist(f, cl[i]); if(d != ds && fabs(d - ds) <= tol) throw Ambiguous(); }
			if(near == same){ Cluster& c = cl[same]; c.err += 1; add(c, f); }
			else{
				cl[near].err -= 1; cl[same].err -= 1; add(cl[same], f);
				// positions do not move: a split replaces in place or appends
				bool const sn = cl[near].err <= 0;
				if(cl[same].err <= 0){ if(sn && cl.size() >= MAX && method != 1){ int const e = lowest(same); if(e == near) throw Ambiguous(); } split(same); }
				if(cl[near].err <= 0) split(near);
			}
			return true;
		}
		void add(Cluster& c, F const* f){ c.ts += now; c.n += 1; for(unsigned i = 0; i < N; ++i){ c.sum[i] += f[i]; c.sq[i] += f[i] * f[i]; } }
		set<int> predict(F const* f) const{ set<int> s; if(cl.empty()){ s.insert(EMPTY); return s; } double b = INFINITY; for(auto const& c: cl) b = min(b, dist(f, c)); for(auto const& c: cl) if(dist(f, c) <= b + tol) s.insert(c.label); return s; }
	};
	// N01
	static void model(Case& c){ run(c, false); }
	static void endurance(Case& c){ run(c, true); } // counters and timestamps beyond 16 bits, and their squares beyond 32
	// many clusters, classes with any number. Clusters of many classes are created one after the other, and all of them answer.
	static void wide(Case& c){ run(c, false, true); }
	static void run(Case& c, bool endure, bool wide = false){
		Points<F, N> g(c.r, wide ? min(2 * MAX, MAX + 50) : MAX + 2); if(wide){ g.shape = 3 * c.r.below(2); g.labels = max(1, min(2 * (int)MAX, (int)MAX + 50) - c.r.below(MAX / 4 + 1)); while((int)g.center.size() < 2 * g.labels){ g.center.push_back({}); for(unsigned j = 0; j < N; ++j) g.center.back().push_back(g.r.real(-g.scale, g.scale)); } if(is_integral<F>::value && g.scale < 1e6){ for(auto& p: g.center) for(double& x: p) x *= 1e4; g.scale *= 1e4; } static int const st[] = { 1, 7, -1, 40000, -3, 1000003 }; g.stride = st[c.r.below(6)]; g.first = g.stride > 1000 ? -5 : c.r.range(-300, 300); while(g.first + g.stride * 1000 >= EMPTY && EMPTY >= g.first && g.stride > 0) ++g.first; } if(endure){ g.shape = 3 * c.r.below(2); g.labels = min(g.labels, 6); } unsigned const e = (endure || wide) && c.r.below(3) ? 1000000 : 1 + c.r.below(5), k = endure ? c.r.below(4) % 3 : wide && c.r.below(3) ? c.r.below(2) : c.r.below(3); double const thr = c.r.below(4) ? c.r.real(0, 100) : c.r.below(2) ? 0 : 1000;
		Slot<Model> s(0xA5); s.p = new(s.raw) Model(e, k, thr); Model& m = *s.p; Ref ref; ref.err = e; ref.method = k; ref.thr = thr; ref.tol = g.scale * g.scale * N * (is_same<F, float>::value ? 1e-4 : 1e-9); if(is_integral<F>::value) ref.tol = 0.001;
		int const n = endure ? 50000 + c.r.below(scale(c, 50000)) : wide ? 3 * MAX + c.r.below(scale(c, 2 * MAX)) : 1 + c.r.below(scale(c, c.r.below(3) ? 150 : 600)); F f[N]; int label; uint64_t ties = 0; int const rare = endure ? 50 : wide ? 1 + MAX / 100 : 1, quiet = endure ? c.r.below(g.labels) : -1; int i = 0; bool stopped = false;
		for(; i < n; ++i){
			do g.next(f, label); while(label == quiet && g.labels > 1 && i > 100 && i % 5000 > 4); bool const got = m.train(f, label); bool expected;
			try{ expected = ref.train(f, label); } catch(Ambiguous){ stopped = true; break; }
			c.ev(); REQUIRE(got == expected, "training point %d (label %d) returns %d, expected %d; %zu of %u clusters, cleaning method %u", i, label, got, expected, ref.cl.size(), MAX, k);
			REQUIRE(m.count_clusters() == (int)ref.cl.size(), "count_clusters() is %d, expected %zu after point %d", m.count_clusters(), ref.cl.size(), i);
			for(int q = 0; q < 4 && i % rare == 0; ++q){
				if(q == 0 || !g.r.below(2)) g.probe(f); set<int> const ok = ref.predict(f); int const p = m.predict(f); c.ev(); ties += ok.size() > 1;
				REQUIRE(ok.count(p), "predicts class %d after point %d, the nearest of the %zu micro-clusters has class %d", p, i, ref.cl.size(), *ok.begin());
				c.see(p + 7);
			}
		}
		c.see(ref.splits * 1000 + ref.evictions); stat("points_trained", i); stat("splits", ref.splits); stat("evictions", ref.evictions); stat("clusters_cleaned", ref.cleaned); stat("points_refused", ref.refused); stat("histories_ended_on_a_tie", stopped); stat("tied_predictions", ties);
		if(i < 2) c.trivial = true;
		c.sample("max %u clusters, %d labels, error threshold %u, method %u: %d points, %llu splits, %llu evictions, %llu cleaned%s", MAX, g.labels, e, k, i, (unsigned long long)ref.splits, (unsigned long long)ref.evictions, (unsigned long long)ref.cleaned, stopped ? ", ended on a tie" : "");
	}
	// N02: what holds without a model of the clusters, for whole histories
	static void capacity(Case& c){
		Points<F, N> g(c.r, MAX + 3); unsigned const e = c.r.below(6), k = c.r.below(3); double const thr = c.r.below(4) ? c.r.real(0, 100) : c.r.below(2) ? 0 : 1000;
		Slot<Model> s(0xA5); s.p = new(s.raw) Model(e, k, thr); Model& m = *s.p; int const n = 1 + c.r.below(scale(c, 1200)); F f[N]; int label; set<int> seen; uint64_t refused = 0, fullsteps = 0; vector<int> peak;
		REQUIRE(m.get_error_thr() == e && m.get_performance_thr() == (unsigned)thr, "the thresholds are %u and %u, given %u and %g", m.get_error_thr(), m.get_performance_thr(), e, thr);
		g.probe(f); REQUIRE(m.predict(f) == EMPTY && m.count_clusters() == 0, "an untrained model predicts %d with %d clusters", m.predict(f), m.count_clusters());
		for(int i = 0; i < n; ++i){
			g.next(f, label); int const before = m.count_clusters(); bool const fresh = !seen.count(label);
			bool const ok = m.train(f, label); int const after = m.count_clusters(); c.ev();
			REQUIRE(after >= 1 && after <= (int)MAX, "%d clusters, at most %u are allowed", after, MAX);
			REQUIRE(ok || k == 1, "a point is refused with cleaning method %u", k);
			if(!ok){ ++refused; REQUIRE(after == (int)MAX, "a point is refused with %d of %u clusters", after, MAX); }
			if(k == 0){ REQUIRE(after >= before && after <= before + 2, "%d clusters become %d", before, after); if(fresh && before < (int)MAX) REQUIRE(after == before + 1, "the first point of class %d, with %d of %u clusters used, leads to %d clusters", label, before, MAX, after); }
			if(ok) seen.insert(label);
			if(ok && fresh && !k){ /* exact location of the only cluster of that class unless another one lies there too */ }
			fullsteps += after == (int)MAX;
			for(int q = 0; q < 2; ++q){ F p[N]; g.probe(p); int const l = m.predict(p); REQUIRE(seen.count(l), "predicts class %d, which was never trained", l); c.see(l + 3); }
			c.see(after);
		}
		stat("points_trained", n); stat("points_refused", refused); stat("points_with_all_clusters_used", fullsteps);
		c.sample("max %u clusters, %d labels, error threshold %u, method %u: %d points, %llu refused, %d clusters at the end", MAX, g.labels, e, k, n, (unsigned long long)refused, m.count_clusters());
	}
};
typedef Mc<double, 2, 25, -1> M1; typedef Mc<double, 3, 4, -1> M2; typedef Mc<int, 2, 6, -1> M3; typedef Mc<float, 1, 10, 99> M4; typedef Mc<double, 7, 2, -1> M5; typedef Mc<long, 4, 50, -5> M6; typedef Mc<double, 1, 1, -1> M7; typedef Mc<float, 12, 40, -1> M8;
#define ALL M1, M2, M3, M4, M5, M6, M7, M8
#ifdef G_MODEL
TEST(endurance){ void (*f[])(Case&) = { M1::endurance, M2::endurance, M5::endurance, M7::endurance }; f[c.index % 4](c); }
typedef Mc<double, 2, 300, -1> W1; typedef Mc<double, 300, 6, -1> W2; typedef Mc<float, 3, 2000, -1> W3; typedef Mc<double, 70000, 3, -1> W4; typedef Mc<long, 2, 500, -1> W5;
TEST(wide){ void (*f[])(Case&) = { W1::wide, W2::wide, W1::wide, W3::wide, W5::wide, W1::wide, W2::wide, W4::wide }; f[c.index % 8](c); }
TEST(model){ void (*f[])(Case&) = { M1::model, M2::model, M3::model, M4::model, M5::model, M6::model, M7::model, M8::model }; f[c.index % 8](c); }
#endif
#ifdef G_CAPACITY
TEST(capacity){ void (*f[])(Case&) = { M1::capacity, M2::capacity, M3::capacity, M4::capacity, M5::capacity, M6::capacity, M7::capacity, M8::capacity }; f[c.index % 8](c); }
#endif
GENERIC(ALL) GENERIC_COPY(ALL) GENERIC_ALLOC(ALL)
#include "main.inc"
