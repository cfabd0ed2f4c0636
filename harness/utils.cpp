#include "common.hpp"
#include "utils.hpp"
using namespace vf;
struct Fn{ static double rand_uniform(){ return g_random->draw(); } static double log(double x){ return std::log(x); } static double exp(double x){ return std::exp(x); } };
struct UseSource{ Source* old; explicit UseSource(Source& s): old(g_random){ g_random = &s; } ~UseSource(){ g_random = old; } };
#ifdef G_UTILS
// The distribution made from weights, and the indexes picked from it
TEST(distribution){
	int const n = 1 + c.r.below(c.r.below(3) ? 8 : 60), kind = c.r.below(6); vector<double> w(n), p; double sum = 0; Source src(c.r.next(), c.r.below(5)); UseSource use(src);
	for(int i = 0; i < n; ++i){ w[i] = kind == 0 ? 1 : kind == 1 ? (c.r.below(3) ? 0 : c.r.u01()) : kind == 2 ? pow(10, c.r.real(-8, 8)) : kind == 3 ? c.r.range(0, 20) : c.r.u01(); sum += w[i]; }
	if(sum == 0){ w[c.r.below(n)] = 3; sum = 3; }
	p = w; if(c.r.below(2)) Utils::turn_array_into_probability(p.data(), n); else Utils::turn_array_into_probability(p.data(), n, sum);
	long double acc = 0; for(int i = 0; i < n; ++i){ acc += (long double)w[i] / sum; c.ev(); REQUIRE(fabs(p[i] - (double)acc) < 1e-12 * n, "probability %d of %d is %.17g instead of %.17g", i, n, p[i], (double)acc); REQUIRE(i == 0 || p[i] >= p[i - 1], "probability %d decreases", i); }
	int const m = 40; vector<int> hit(n, 0);
	for(int i = 0; i < m; ++i){
		Source saved = src; int const k = Utils::pick_from_distribution<Fn>(p.data(), n); double const u = saved.draw(); c.ev(); REQUIRE(k >= 0 && k < n, "index %d is picked among %d", k, n);
		REQUIRE(p[k] > (k ? p[k - 1] : 0), "index %d, of weight %g, is picked (random number %.17g)", k, w[k], u);
		if(saved.calls == src.calls) REQUIRE((u < p[k] || u >= p[n - 1]) && (k == 0 || u >= p[k - 1]), "random number %.17g picks index %d, which covers [%.17g, %.17g)", u, k, k ? p[k - 1] : 0, p[k]);
		c.see(k); ++hit[k];
	}
	stat("indexes_picked", m); c.sample("%d weights of kind %d, first %g, total %g", n, kind, w[0], sum);
}
// Arrays longer than a byte or a short can number
TEST(wide){
	int const n = c.r.below(3) ? 200 + c.r.below(2000) : 33000 + c.r.below(60000); Source src(c.r.next(), c.r.below(3) ? 0 : c.r.below(5)); UseSource use(src); vector<double> w(n), p; double sum = 0; int const some = c.r.below(2) ? 1 : n / 4; for(int i = 0; i < n; ++i){ w[i] = i % some == 0 ? c.r.range(1, 9) : 0; sum += w[i]; }
	p = w; if(c.r.below(2)) Utils::turn_array_into_probability(p.data(), n); else Utils::turn_array_into_probability(p.data(), n, sum); long double acc = 0; for(int i = 0; i < n; ++i){ acc += (long double)w[i] / sum; c.ev(); REQUIRE(fabs(p[i] - (double)acc) < 1e-10, "probability %d of %d is %.17g instead of %.17g", i, n, p[i], (double)acc); }
	double high = 0; int const m = n > 10000 ? 60 : 400; for(int i = 0; i < m; ++i){ int const k = Utils::pick_from_distribution<Fn>(p.data(), n); c.ev(); REQUIRE(k >= 0 && k < n && p[k] > (k ? p[k - 1] : 0), "index %d is picked among %d", k, n); high += k >= n / 2; c.see(k); }
	if(src.mode == 0){ double const q = 1 - p[n / 2 - 1], sd = sqrt(m * q * (1 - q)); REQUIRE(fabs(high - m * q) <= 7 * sd + 3, "%g of %d picks are in the upper half of %d indexes, of weight %g", high, m, n, q); }
	vector<int> v(n); for(int i = 0; i < n; ++i) v[i] = i; Utils::shuffle<Fn, int>(v.data(), n); vector<char> in(n, 0); double moved = 0, crossed = 0; for(int i = 0; i < n; ++i){ REQUIRE(v[i] >= 0 && v[i] < n && !in[v[i]], "the shuffle of %d elements is not a permutation", n); in[v[i]] = 1; moved += v[i] != i; crossed += (i < n / 2) != (v[i] < n / 2); } c.ev(n);
	if(src.mode == 0){ REQUIRE(n - moved < 30, "%g of %d elements do not move in a shuffle", n - moved, n); REQUIRE(fabs(crossed - n / 2.0) <= 7 * sqrt(n / 4.0) * 1.1 + 2, "%g of %d elements change halves in a shuffle", crossed, n); }
	vector<float> f(n); for(float& x: f) x = (float)c.r.below(1000); int const at = c.r.below(n); f[at] = 5000; REQUIRE(Utils::index_max<float>(f.data(), n) == at, "index_max of %d elements gives %d instead of %d", n, Utils::index_max<float>(f.data(), n), at);
	stat("indexes_picked", m); stat("shuffles", 1); c.sample("%d elements, %g of them change halves", n, crossed);
}
// The frequencies of the indexes, of the shuffles and of the numbers
TEST(frequencies){
	Source src(c.r.next(), 0); UseSource use(src); int const what = c.index % 5;
	if(what == 0){
		int const n = 2 + c.r.below(8); vector<double> w, p; double s = 0; for(int i = 0; i < n; ++i){ w.push_back(c.r.below(5) ? c.r.range(1, 20) : 0); s += w.back(); } if(s == 0) w[0] = s = 1; p = w; Utils::turn_array_into_probability(p.data(), n);
		int const m = 6000; vector<double> o(n, 0); for(int i = 0; i < m; ++i) o[Utils::pick_from_distribution<Fn>(p.data(), n)]++;
		for(int i = 0; i < n; ++i){ double const e = m * w[i] / s, sd = sqrt(e * (1 - w[i] / s)); c.ev(); REQUIRE(fabs(o[i] - e) <= 7 * sd + 3, "index %d of weight %g/%g is picked %g times of %d", i, w[i], s, o[i], m); c.see((uint64_t)o[i]); }
		c.sample("%d picks among %d weights", m, n); stat("indexes_picked", m);
	}
	else if(what == 1){ // all the orders are as likely
		int const n = 2 + c.r.below(3); map<vector<int>, int> o; int f = 1; for(int i = 2; i <= n; ++i) f *= i; int const m = 400 * f;
		for(int i = 0; i < m; ++i){ vector<int> v; for(int j = 0; j < n; ++j) v.push_back(j); Utils::shuffle<Fn, int>(v.data(), n); vector<int> s = v; sort(s.begin(), s.end()); for(int j = 0; j < n; ++j) REQUIRE(s[j] == j, "the shuffle of %d elements loses element %d", n, j); o[v]++; }
		for(auto const& k: o){ c.ev(); REQUIRE(fabs(k.second - 400.0) <= 7 * 20, "one order of %d elements comes %d times of %d", n, k.second, m); c.see(k.second); } REQUIRE((int)o.size() == f, "%zu of the %d orders of %d elements appear", o.size(), f, n); c.sample("%d shuffles of %d elements", m, n); stat("shuffles", m);
	}
	else if(what == 2){ // long arrays: every element goes everywhere
		int const n = 5 + c.r.below(40), m = 4000; vector<vector<int>> o(n, vector<int>(n, 0)); vector<double> v(n);
		for(int i = 0; i < m; ++i){ for(int j = 0; j < n; ++j) v[j] = j; Utils::shuffle<Fn, double>(v.data(), n); vector<bool> in(n, false); for(int j = 0; j < n; ++j){ REQUIRE(v[j] >= 0 && v[j] < n && !in[(int)v[j]], "the shuffle is not a permutation"); in[(int)v[j]] = true; o[j][(int)v[j]]++; } }
		for(int a = 0; a < n; ++a) for(int b = 0; b < n; ++b){ double const e = (double)m / n; c.ev(); REQUIRE(fabs(o[a][b] - e) <= 7 * sqrt(e) + 3, "element %d of %d goes to place %d %d times of %d", b, n, a, o[a][b], m); } c.see(o[0][0]); c.see(o[n - 1][0]); stat("shuffles", m); c.sample("%d shuffles of %d elements", m, n);
	}
	else if(what == 3){ // exponential: by its distribution function
		double const rate = pow(10, c.r.real(-3, 3)); int const m = 5000; vector<double> v; for(int i = 0; i < m; ++i){ double const x = Utils::rand_exponential<Fn>(rate); REQUIRE(x >= 0, "an exponential number is %g", x); v.push_back(1 - exp(-rate * x)); } sort(v.begin(), v.end());
		double d = 0; for(int i = 0; i < m; ++i) d = max(d, max(fabs(v[i] - (double)i / m), fabs(v[i] - (i + 1.0) / m))); c.ev(m); REQUIRE(d < 3.2 / sqrt((double)m), "the exponential numbers of rate %g are not: distance %g", rate, d); c.seed_d(d); stat("exponential_numbers", m); c.sample("%d numbers of rate %g, distance %g", m, rate, d);
	}
	else{
		double const lo = c.r.real(-100, 100), hi = lo + pow(10, c.r.real(-3, 3)); int const m = 5000; vector<double> v; for(int i = 0; i < m; ++i){ double const x = Utils::rand_between<Fn>(lo, hi); REQUIRE(x >= lo && x < hi, "%.17g is not in [%.17g, %.17g)", x, lo, hi); v.push_back((x - lo) / (hi - lo)); } sort(v.begin(), v.end());
		double d = 0; for(int i = 0; i < m; ++i) d = max(d, max(fabs(v[i] - (double)i / m), fabs(v[i] - (i + 1.0) / m))); c.ev(m); REQUIRE(d < 3.2 / sqrt((double)m), "the numbers between %g and %g are not uniform: distance %g", lo, hi, d); c.seed_d(d); stat("uniform_numbers", m); c.sample("%d numbers between %g and %g, distance %g", m, lo, hi, d);
	}
}
// Extreme random numbers, narrow intervals, arithmetic helpers
template<class T> static void helpers(Case& c){
	auto draw = [&]{ return (T)(c.r.below(3) ? c.r.real(-1000, 1000) : (double)c.r.range(-3, 3)); };
	int const n = 1 + c.r.below(20); vector<T> a(n); for(T& x: a) x = draw(); vector<T> k = a; int const b = Utils::index_max<T>(a.data(), n); REQUIRE(a == k && b >= 0 && b < n, "index_max gives %d of %d", b, n); for(int i = 0; i < n; ++i){ c.ev(); REQUIRE(a[i] <= a[b] && (i >= b || a[i] < a[b]), "index_max gives %d, element %d is %g, element %d is %g", b, b, (double)a[b], i, (double)a[i]); }
	for(int i = 0; i < 10; ++i){ T const x = draw(), y = c.r.below(5) ? draw() : x; c.ev(3); REQUIRE(Utils::min<T>(x, y) == std::min(x, y) && Utils::max<T>(x, y) == std::max(x, y), "the minimum and maximum of %g and %g are %g and %g", (double)x, (double)y, (double)Utils::min<T>(x, y), (double)Utils::max<T>(x, y)); REQUIRE(Utils::abs<T>(x) == (x < 0 ? -x : x), "the absolute value of %g is %g", (double)x, (double)Utils::abs<T>(x)); c.seed_d((double)x);
		int const r = Utils::round<T>(x); REQUIRE(r == (int)std::lround((double)x) || (fabs((double)x - r) <= 0.5 && r == (int)std::round((double)x)), "%.17g is rounded to %d", (double)x, r); }
}
TEST(helpers){
	helpers<double>(c); helpers<float>(c); helpers<int>(c); Source src(c.r.next(), 1 + c.r.below(4)); UseSource use(src);
	for(int i = 0; i < 20; ++i){
		double const lo = c.r.below(4) ? c.r.real(-1e3, 1e3) : 0, hi = c.r.below(2) ? nextafter(lo, 1e9) : lo + pow(10, c.r.real(-12, 6)); if(!(lo < hi)) continue;
		double const x = Utils::rand_between<Fn>(lo, hi); c.ev(); REQUIRE(x >= lo && x < hi, "%.17g is not in [%.17g, %.17g)", x, lo, hi);
		double const e = Utils::rand_exponential<Fn>(c.r.real(0.001, 100)); REQUIRE(e >= 0 && !std::isinf(e), "an exponential number is %g", e);
		vector<int> v, s; int const n = 1 + c.r.below(12); for(int j = 0; j < n; ++j) v.push_back(c.r.below(4)); s = v; Utils::shuffle<Fn, int>(v.data(), n); sort(s.begin(), s.end()); vector<int> t = v; sort(t.begin(), t.end()); REQUIRE(s == t, "a shuffle changes the elements");
		int const a = c.r.range(0, 10000), b = c.r.range(1, 50); REQUIRE(Utils::div_int<int>(a, b) == a / b, "%d divided by %d is %g", a, b, Utils::div_int<int>(a, b)); double const y = c.r.real(-5, 5); REQUIRE(vf::close(Utils::expm1<Fn>(y), std::exp(y) - 1, 1e-12), "expm1(%g) is %.17g", y, Utils::expm1<Fn>(y));
		c.seed_d(x);
	}
	c.sample("random mode %d", src.mode);
}
#endif
#include "main.inc"
