#include "common.hpp"
#include "alloc.hpp"
#include "naive_bayes.hpp"
#include "generic.hpp"
using namespace vf;

struct Ln{ static double log(double x){ return std::log(x); } static double sqrt(double x){ return std::sqrt(x); } };
struct L2{ static double log(double x){ return std::log2(x); } static double sqrt(double x){ return std::sqrt(x); } };
struct L10{ static double log(double x){ return std::log10(x); } static double sqrt(double x){ return std::sqrt(x); } };
template<class F, int LC, int FC, class Fn> struct Nb: Defaults{
	typedef NaiveBayes<F, LC, FC, Fn> Obj;
	static size_t budget(){ return LC * FC * 3 * sizeof(double) + LC * 8 + 64; }
	static int ops(){ return 80; }
	static Obj* construct(void* p, Rng& c){ return c.below(2) ? new(p) Obj() : new(p) Obj(c.real(0, 5)); }
	static void draw(Rng& r, F* f){ for(int j = 0; j < FC; ++j) f[j] = (F)(r.below(3) ? r.real(-20, 20) : (double)r.range(-2, 2)); }
	static void mutate(Obj& o, Rng& r, Hash& h){
		F f[FC], k[FC];
		for(int i = 0; i < 4; ++i){ draw(r, f); memcpy(k, f, sizeof f); h.add(r.below(2) ? o.train(f, r.below(LC)) : o.train(f, r.below(LC), 0.25 * r.range(1, 12))); if(memcmp(k, f, sizeof f)) violation("train modified the features"); }
		if(r.below(10) == 0) o.set_smoothing(r.real(0, 3));
	}
	static void query(Obj& o, Rng& r, Hash& h){
		F f[FC], k[FC]; double s[LC];
		for(int i = 0; i < 4; ++i){ draw(r, f); memcpy(k, f, sizeof f); h.add(o.predict(f, s)); for(double x: s) h.addd(std::isnan(x) ? 12345 : x); h.add(o.predict(f)); if(memcmp(k, f, sizeof f)) violation("predict modified the features"); }
		h.addd(o.get_smoothing());
	}
	struct Pt{ double v, w; };
	static void model(Case& c){ run(c, false); }
	static void endurance(Case& c){ run(c, true); }
	static void wide(Case& c){ run(c, false, true); }
	static void run(Case& c, bool endure, bool wide = false){
		Slot<Obj> s(0xA5); double smoothing = c.r.below(2) ? 0 : c.r.real(0, 3); s.p = smoothing == 0 ? new(s.raw) Obj() : new(s.raw) Obj(smoothing); Obj& o = *s.p;
		vector<vector<vector<Pt>>> data(LC, vector<vector<Pt>>(FC)); double weight[LC] = {0}, total = 0;
		int const n = wide ? 1 + c.r.below(LC * FC > 10000 ? 40 : 700) : endure ? 70000 + c.r.below(scale(c, 70000)) : 1 + c.r.below(scale(c, c.r.below(4) ? 60 : 400)); int const labels = wide ? max(1, LC - c.r.below(10)) : 1 + c.r.below(LC), kind = c.r.below(5); bool const weights = c.r.below(2);
		double offset = is_integral<F>::value ? 0 : c.r.below(3) ? 0 : (is_same<F, float>::value ? 100 : 1e6), spread = is_integral<F>::value ? 50 : c.r.below(2) ? 1 : 30; vector<double> mu; for(int i = 0; i < LC * FC; ++i) mu.push_back(c.r.real(-1, 1) * spread);
		static double const units[] = { 0.25, 0.25, 0.1, 0, 1.0 / 4096, 64 }; double const unit = units[c.r.below(6)]; int const least = c.r.below(4) ? 1 : 0; uint64_t scores = 0, impossible = 0, flat = 0;
		for(int i = 0; i < n; ++i){
			int const l = c.r.below(labels); F f[FC]; for(int j = 0; j < FC; ++j) f[j] = (F)(offset + (kind == 0 ? mu[l * FC + j] : kind == 1 ? (double)c.r.range(-3, 3) : mu[l * FC + j] + c.r.gauss() * spread * 0.5));
			if(kind == 4 && j_const(c)) f[0] = (F)(offset + 1);
			double const w = !weights ? 1 : unit ? unit * c.r.range(i ? least : 1, 12) : c.r.real(0.01, 2); bool const ok = weights || c.r.below(2) ? o.train(f, l, w) : o.train(f, l); REQUIRE(ok, "train returns false");
			if(w) for(int j = 0; j < FC; ++j) data[l][j].push_back({ (double)f[j], w });
			weight[l] += w; total += w; if(c.r.below(16) == 0) o.set_smoothing(smoothing = c.r.real(0, 3)); REQUIRE(o.get_smoothing() == smoothing, "the smoothing is %g, it was set to %g", o.get_smoothing(), smoothing);
			if(i + 1 < n && (endure ? i % 30000 : c.r.below(4))) continue;
			for(int q = 0; q < 4; ++q){
				F p[FC]; int const at = c.r.below(labels); for(int j = 0; j < FC; ++j) p[j] = q == 0 ? f[j] : (F)(offset + (kind == 1 ? (double)c.r.range(-4, 4) : mu[at * FC + j] + c.r.gauss() * spread));
				double sc[LC], e[LC], tol[LC]; bool skip[LC]; F keep[FC]; memcpy(keep, p, sizeof p); for(double& x: sc) x = 77; int const got = o.predict(p, sc), got2 = o.predict(p);
				REQUIRE(!memcmp(keep, p, sizeof p), "predict modified the features"); REQUIRE(got == got2 && got >= 0 && got < LC, "predict gives class %d with scores and %d without", got, got2);
				for(int k = 0; k < LC; ++k){
					e[k] = Fn::log(weight[k] / total); tol[k] = 1e-9; skip[k] = false; if(!weight[k]) continue;
					for(int j = 0; j < FC; ++j){
						long double W = 0, m = 0, v = 0; for(Pt const& x: data[k][j]){ W += x.w; m += (long double)x.w * x.v; } m /= W; for(Pt const& x: data[k][j]) v += x.w * (x.v - m) * (x.v - m);
						bool equal = true; for(Pt const& x: data[k][j]) if(x.v != data[k][j][0].v) equal = false;
						if(equal || W <= 1.001){ if(!equal){ skip[k] = true; continue; } // around a weight of 1 the variance depends on the rounding of the sum
							 ++flat; e[k] += Fn::log((double)p[j] == data[k][j][0].v ? 1.0 : 0.0); continue; }
						v /= W - 1; double const d2 = (double)(((long double)p[j] - m) * ((long double)p[j] - m) / v), kappa = sqrt(1 + (double)(m * m / v));
						double const dens = (double)(1 / (2.50663L * sqrtl(v)) * expl(-d2 / 2));
						if(dens < 1e-290){ skip[k] = true; continue; }
						e[k] += Fn::log(dens); tol[k] += 1e-6 + (1e-9 + 1e-13 * data[k][j].size() * kappa) * (2 + d2); // the constant of the density may have six digits
					}
				}
				for(int k = 0; k < LC; ++k) if(!skip[k]){
					c.ev(); ++scores; impossible += std::isinf(e[k]);
					REQUIRE(std::isinf(e[k]) ? sc[k] == e[k] : fabs(sc[k] - e[k]) <= tol[k], "after %d points the score of class %d is %.15g, its %zu points (weight %g of %g) give %.15g", i + 1, k, sc[k], data[k][0].size(), weight[k], total, e[k]);
				}
				for(int k = 0; k < LC; ++k) REQUIRE(!(sc[k] > sc[got]), "class %d with score %g is predicted, class %d has score %g", got, sc[got], k, sc[k]);
				c.see(got); c.seed_d(sc[got]);
			}
		}
		stat("points_trained", n); stat("scores_compared", scores); stat("scores_of_impossible_points", impossible); stat("features_without_variance", flat);
		c.sample("%d features, %d of %d classes, offset %g: %d points, %llu scores compared", FC, labels, LC, offset, n, (unsigned long long)scores);
	}
	static bool j_const(Case& c){ return c.r.below(2); }
};
typedef Nb<double, 3, 4, Ln> N1; typedef Nb<float, 2, 1, L2> N2; typedef Nb<int, 5, 3, L10> N3; typedef Nb<double, 1, 2, Ln> N4; typedef Nb<float, 10, 12, Ln> N5; typedef Nb<double, 4, 1, L2> N6;
#define ALL N1, N2, N3, N4, N5, N6
#ifdef G_MODEL
TEST(endurance){ void (*f[])(Case&) = { N1::endurance, N3::endurance, N4::endurance, N6::endurance }; f[c.index % 4](c); }
// features and classes that a byte or a short cannot number
typedef Nb<double, 300, 2, Ln> W1; typedef Nb<double, 2, 300, Ln> W2; typedef Nb<float, 140, 140, L2> W3; typedef Nb<int, 2, 40000, Ln> W4; typedef Nb<double, 40000, 2, Ln> W5;
TEST(wide){ void (*f[])(Case&) = { W1::wide, W2::wide, W3::wide, W1::wide, W2::wide, W4::wide, W1::wide, W5::wide }; f[c.index % 8](c); }
TEST(model){ void (*f[])(Case&) = { N1::model, N2::model, N3::model, N4::model, N5::model, N6::model }; f[c.index % 6](c); }
#endif
GENERIC(ALL) GENERIC_COPY(ALL) GENERIC_ALLOC(ALL)
#include "main.inc"
