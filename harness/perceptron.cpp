#include "common.hpp"
#include "alloc.hpp"
#include "perceptron.hpp"
#include "generic.hpp"
using namespace vf;

static vector<double>* g_drawn = nullptr;
struct Sigmoid{ static double random(){ double const d = g_random->draw(); if(g_drawn) g_drawn->push_back(d); return d; } static double activation(double x){ return 1 / (1 + std::exp(-x)); } static double derivative(double o){ return o * (1 - o); } };
struct Tanh: Sigmoid{ static double activation(double x){ return std::tanh(x); } static double derivative(double o){ return 1 - o * o; } };
struct Leaky: Sigmoid{ static double activation(double x){ return x > 0 ? x : 0.01 * x; } static double derivative(double o){ return o > 0 ? 1 : 0.01; } };
template<int L, int W, int MAXN, class Fn> struct Mlp: Defaults{
	static const int max_size = 2 * 8 * W; // room for W weights and W neurons
	typedef MultiLayerPerceptron<L, max_size, Fn> Net; static const bool closed = true;
	struct Obj{ Net n; int s[L]; bool fresh; Obj(int const* z, double lr): n(z, lr), fresh(false){ for(int i = 0; i < L; ++i) s[i] = z[i]; } Obj(int const* z): n(z), fresh(false){ for(int i = 0; i < L; ++i) s[i] = z[i]; } };
	static size_t budget(){ return max_size + L * (sizeof(int) * 2) + 96; }
	static int ops(){ return 60; }
	static int weights(int const* s){ int w = 0; for(int i = 1; i < L; ++i) w += (s[i - 1] + 1) * s[i]; return w; }
	static void shape(Rng& c, int* s){
		for(;;){ int n = 0; for(int i = 0; i < L; ++i){ s[i] = MAXN > 1000 ? (int)exp(c.real(0, std::log(MAXN + 0.9))) : 1 + c.below(MAXN); n += s[i]; } if(weights(s) <= W && n <= W) return; }
	}
	static Obj* construct(void* p, Rng& c){ int s[L]; shape(c, s); Obj* o = c.below(3) ? new(p) Obj(s, c.real(0.001, 0.5)) : new(p) Obj(s); return o; }
	static void randomize(Rng& r, double* w, int n){ for(int i = 0; i < n; ++i) w[i] = r.real(-1, 1); }
	static void mutate(Obj& o, Rng& r, Hash& h){
		double w[W], in[MAXN], out[MAXN], ex[MAXN];
		switch(r.below(6)){
			case 0: { randomize(r, w, weights(o.s)); o.n.set_weights(w); break; }
			case 1: { int const l = 1 + r.below(L - 1); randomize(r, w, (o.s[l - 1] + 1) * o.s[l]); o.n.set_weights(l, w); break; }
			case 2: { int const l = 1 + r.below(L - 1), k = r.below(o.s[l]); randomize(r, w, o.s[l - 1] + 1); o.n.set_weights(l, k, w); break; }
			default: for(int i = 0; i < o.s[0]; ++i) in[i] = r.real(-2, 2); for(int i = 0; i < o.s[L - 1]; ++i) ex[i] = r.real(0, 1); o.n.feed_forward(in, out); h.addd(o.n.backpropagate(ex)); for(int i = 0; i < o.s[L - 1]; ++i) h.addd(out[i]);
		}
		double const* g = o.n.get_weights(); int const n = weights(o.s); for(int i = 0; i < n; ++i) h.addd(g[i]);
	}
	static void query(Obj& o, Rng& r, Hash& h){ double in[MAXN], out[MAXN]; for(int i = 0; i < o.s[0]; ++i) in[i] = r.real(-2, 2); o.n.feed_forward(in, out); for(int i = 0; i < o.s[L - 1]; ++i) h.addd(out[i]); h.addd(o.n.get_weights()[0]); }
	// ------------------------------------------------ reference
	typedef long double R;
	struct Ref{ int s[L]; vector<vector<vector<R>>> w; };
	static vector<vector<R>> forward(Ref const& r, vector<double> const& in, bool* kink = nullptr){ // kink: a sum so close to 0 that its sign depends on rounding
		vector<vector<R>> o(1, vector<R>(in.begin(), in.end()));
		for(int l = 1; l < L; ++l){ vector<R> k; for(int n = 0; n < r.s[l]; ++n){ R z = r.w[l][n][r.s[l - 1]]; for(int i = 0; i < r.s[l - 1]; ++i) z += r.w[l][n][i] * o[l - 1][i]; if(kink && is_same<Fn, Leaky>::value && fabsl(z) < 1e-12L * loose) *kink = true; k.push_back(Fn::activation((double)z)); } o.push_back(k); }
		return o;
	}
	static void take(Ref& r, Net& n){ double const* g = n.get_weights(); int k = 0; for(int l = 1; l < L; ++l) for(int i = 0; i < r.s[l]; ++i) for(int j = 0; j <= r.s[l - 1]; ++j) r.w[l][i][j] = g[k++]; }
	static void compare_weights(Case& c, Ref const& r, Net& n, char const* when, double tol){
		double const* g = n.get_weights(); int k = 0;
		for(int l = 1; l < L; ++l) for(int i = 0; i < r.s[l]; ++i) for(int j = 0; j <= r.s[l - 1]; ++j, ++k){ c.ev(); REQUIRE(fabs(g[k] - (double)r.w[l][i][j]) <= tol * (1 + fabs((double)r.w[l][i][j])), "%s: weight %d of neuron %d of layer %d is %.17g instead of %.17g", when, j, i, l, g[k], (double)r.w[l][i][j]); }
	}
	static constexpr double loose = MAXN > 100 ? MAXN / 20.0 : 1; // sums of many terms
	static bool close_(double a, double b){ return fabs(a - b) <= 1e-10 * loose * (1 + fabs(a)); }
	static void start(Case& c, Slot<Net>& slot, Ref& r, double& lr){
		shape(c.r, r.s); int s[L]; for(int i = 0; i < L; ++i) s[i] = r.s[i]; lr = c.r.below(3) ? c.r.real(0.0005, 1) : 0.1; slot.p = lr == 0.1 ? new(slot.raw) Net(s) : new(slot.raw) Net(s, lr); for(int i = 0; i < L; ++i) s[i] = -1;
		r.w.resize(L); for(int l = 1; l < L; ++l) r.w[l].assign(r.s[l], vector<R>(r.s[l - 1] + 1, 0));
	}
	static void set_some(Case& c, Net& n, Ref& r, uint64_t& sets){
		int const how = c.r.below(3), l = 1 + c.r.below(L - 1); vector<double> w; double const sc = c.r.below(2) ? 1 : 3;
		for(int a = how ? l : 1; a < (how ? l + 1 : L); ++a) for(int b = how == 2 ? c.r.below(r.s[l]) : 0, e = how == 2 ? b + 1 : r.s[a]; b < e; ++b){ for(int j = 0; j <= r.s[a - 1]; ++j){ w.push_back(c.r.real(-sc, sc)); r.w[a][b][j] = w.back(); } if(how == 2){ n.set_weights(a, b, w.data()); ++sets; return; } }
		if(how == 1) n.set_weights(l, w.data()); else n.set_weights(w.data()); ++sets;
	}
	static void forward_test(Case& c){
		Slot<Net> slot(0xA5); Ref r; double lr; Source src(c.r.next(), c.r.below(5), true); UseSource u(src); vector<double> drawn; g_drawn = &drawn; start(c, slot, r, lr); g_drawn = nullptr; Net& n = *slot.p;
		take(r, n); set<double> d(drawn.begin(), drawn.end()); for(int l = 1; l < L; ++l) for(auto& k: r.w[l]) for(R x: k){ c.ev(); REQUIRE(d.count((double)x), "an initial weight is %.17g, which the random function did not return", (double)x); }
		REQUIRE((int)drawn.size() >= weights(r.s), "%zu random numbers for %d weights", drawn.size(), weights(r.s));
		int const steps = 1 + c.r.below(scale(c, 30)); uint64_t outs = 0, sets = 0;
		for(int i = 0; i < steps; ++i){
			if(c.r.below(2)){ set_some(c, n, r, sets); compare_weights(c, r, n, "after setting weights", 0); }
			vector<double> in; for(int j = 0; j < r.s[0]; ++j) in.push_back(c.r.below(5) ? c.r.real(-3, 3) : 0); vector<double> keep = in, out(r.s[L - 1], -99), out2 = out; n.feed_forward(in.data(), out.data()); REQUIRE(in == keep, "feed_forward modified its input"); n.feed_forward(in.data(), out2.data());
			auto e = forward(r, in); for(int j = 0; j < r.s[L - 1]; ++j){ c.ev(); ++outs; REQUIRE(close_(out[j], (double)e[L - 1][j]) && out2[j] == out[j], "output %d is %.17g (then %.17g), expected %.17g (%d layers, %d inputs)", j, out[j], out2[j], (double)e[L - 1][j], L, r.s[0]); c.seed_d(out[j]); }
			compare_weights(c, r, n, "after feed_forward", 0);
		}
		stat("outputs_compared", outs); stat("weight_updates_compared", sets); c.sample("%d layers from %d to %d neurons, %d weights: %llu outputs compared", L, r.s[0], r.s[L - 1], weights(r.s), (unsigned long long)outs);
	}
	static void backprop(Case& c){
		Slot<Net> slot(0xA5); Ref r; double lr; Source src(c.r.next(), c.r.below(2), true); UseSource u(src); start(c, slot, r, lr); Net& n = *slot.p; uint64_t sets = 0; take(r, n); if(c.r.below(4)) set_some(c, n, r, sets);
		int const steps = 1 + c.r.below(scale(c, 25)); uint64_t grads = 0, numeric = 0;
		for(int it = 0; it < steps; ++it){
			if(c.r.below(8) == 0) set_some(c, n, r, sets);
			take(r, n); vector<double> in, ex; for(int j = 0; j < r.s[0]; ++j) in.push_back(c.r.below(5) ? c.r.real(-2, 2) : 0); for(int j = 0; j < r.s[L - 1]; ++j) ex.push_back(c.r.below(4) ? c.r.real(-1, 1) : (double)c.r.below(2));
			if(c.r.below(4) == 0){ vector<double> x(in.size(), 0.3), y(r.s[L - 1]); n.feed_forward(x.data(), y.data()); } // only the last forward pass counts
			vector<double> out(r.s[L - 1]); n.feed_forward(in.data(), out.data()); vector<double> keep = ex; double const loss = n.backpropagate(ex.data()); REQUIRE(ex == keep, "backpropagate modified the expected values");
			bool kink = false; auto o = forward(r, in, &kink); if(kink) continue; R sum = 0; vector<vector<R>> err(L); for(int l = 0; l < L; ++l) err[l].assign(r.s[l], 0);
			for(int j = 0; j < r.s[L - 1]; ++j){ R const d = o[L - 1][j] - ex[j]; sum += d * d; err[L - 1][j] = d * Fn::derivative((double)o[L - 1][j]); }
			c.ev(); REQUIRE(close_(loss, (double)(sum / r.s[L - 1])), "backpropagate returns %.17g, the mean squared error is %.17g", loss, (double)(sum / r.s[L - 1]));
			for(int l = L - 2; l > 0; --l) for(int i = 0; i < r.s[l]; ++i){ R e = 0; for(int k = 0; k < r.s[l + 1]; ++k) e += err[l + 1][k] * r.w[l + 1][k][i]; err[l][i] = e * Fn::derivative((double)o[l][i]); }
			if(!is_same<Fn, Leaky>::value && it == 0){ // the reference itself against finite differences of the loss
				Ref q = r; int const l = 1 + c.r.below(L - 1), i = c.r.below(r.s[l]), j = c.r.below(r.s[l - 1] + 1); R const h = 1e-5L; R E[2]; for(int z = 0; z < 2; ++z){ q.w[l][i][j] = r.w[l][i][j] + (z ? h : -h); auto p = forward(q, in); E[z] = 0; for(int k = 0; k < r.s[L - 1]; ++k) E[z] += (p[L - 1][k] - ex[k]) * (p[L - 1][k] - ex[k]) / 2; }
				R const g = (E[1] - E[0]) / (2 * h), a = err[l][i] * (j < r.s[l - 1] ? o[l - 1][j] : 1); REQUIRE(fabsl(g - a) < 1e-5L * loose * (1 + fabsl(a)), "internal: gradient %.12Lg, finite difference %.12Lg", a, g); ++numeric;
			}
			for(int l = 1; l < L; ++l) for(int i = 0; i < r.s[l]; ++i) for(int j = 0; j <= r.s[l - 1]; ++j){ R const d = lr * err[l][i] * (j < r.s[l - 1] ? o[l - 1][j] : 1); r.w[l][i][j] -= d; ++grads; }
			compare_weights(c, r, n, "after backpropagation", 1e-9 * loose); c.seed_d(loss);
			bool big = false; for(auto& a: r.w) for(auto& b: a) for(R x: b) big |= fabsl(x) > 1e3; if(big) break;
		}
		stat("weight_gradients_compared", grads); stat("finite_differences", numeric); c.sample("%d layers, %d weights, learning rate %g: %d steps, %llu gradients compared", L, weights(r.s), lr, steps, (unsigned long long)grads);
	}
};
typedef Mlp<3, 60, 6, Sigmoid> P1; typedef Mlp<2, 20, 5, Tanh> P2; typedef Mlp<4, 90, 6, Tanh> P3; typedef Mlp<3, 200, 12, Leaky> P4; typedef Mlp<6, 80, 4, Sigmoid> P5; typedef Mlp<2, 4, 2, Leaky> P6;
// layers, neurons and weights that a byte or a short cannot number
typedef Mlp<3, 100000, 300, Sigmoid> W1; typedef Mlp<2, 200000, 60000, Tanh> W2; typedef Mlp<300, 3000, 3, Sigmoid> W3; typedef Mlp<20, 4000, 12, Tanh> W4; typedef Mlp<4, 60000, 200, Leaky> W5;
#define ALL P1, P2, P3, P4, P5, P6
#ifdef G_FORWARD
TEST(wide){ void (*f[])(Case&) = { W1::forward_test, W2::forward_test, W3::forward_test, W4::forward_test, W5::forward_test }; f[c.index % 5](c); }
TEST(forward){ void (*f[])(Case&) = { P1::forward_test, P2::forward_test, P3::forward_test, P4::forward_test, P5::forward_test, P6::forward_test }; f[c.index % 6](c); }
#endif
#ifdef G_BACKPROP
TEST(wide){ void (*f[])(Case&) = { W1::backprop, W2::backprop, W3::backprop, W4::backprop, W5::backprop }; f[c.index % 5](c); }
TEST(backprop){ void (*f[])(Case&) = { P1::backprop, P2::backprop, P3::backprop, P4::backprop, P5::backprop, P6::backprop }; f[c.index % 6](c); }
#endif
GENERIC(ALL) GENERIC_COPY(ALL) GENERIC_ALLOC(ALL)
#include "main.inc"
