#include "common.hpp"
#include "alloc.hpp"
#include "ltc.hpp"
#include "generic.hpp"
using namespace vf;

template<class E, class T, int EPS, int MAX, int MIN, int TUD> struct Comp: Defaults{
	struct Obj{ LTC<E, T, EPS, MAX, MIN, TUD> l; bool has = false; T now = 3; double level = 0; };
	static size_t budget(){ return 6 * (sizeof(T) + sizeof(double)) + 6 * sizeof(double) + 64; }
	static Obj* construct(void* p, Rng&){ return new(p) Obj(); }
	static void mutate(Obj& o, Rng& r, Hash& h){
		o.now += (T)(1 + r.below(5)); o.level += r.real(-2 * EPS - 1, 2 * EPS + 1);
		o.level = max((double)MIN, min((double)MAX, o.level)); E const v = (E)o.level;
		bool const n = o.l.add(o.now, v); h.add(n); o.has |= n;
		if(n){ T t; E x; o.l.get_value_to_transmit(t, x); h.addd(t); h.addd(x); }
	}
	static void query(Obj& o, Rng&, Hash& h){ if(o.has){ T t; E x; o.l.get_value_to_transmit(t, x); h.addd(t); h.addd(x); } }

	struct Pt{ double t, v; };
	// A stream, and the points transmitted for it
	static void stream(Case& c, vector<Pt>& data, vector<Pt>& sent, vector<int>& when){
		LTC<E, T, EPS, MAX, MIN, TUD> l; int const n = 2 + c.r.below(scale(c, c.r.below(6) ? 120 : 1500)), shape = c.r.below(8);
		double const span = min((double)MAX - MIN, EPS * 40.0 + 100), base = c.r.chance(0.7) ? max((double)MIN, min((double)MAX, c.r.real(-span, span))) : c.r.below(2) ? MAX : MIN;
		double level = base, slope = c.r.real(-1, 1) * (EPS + 1); double const noise = c.r.real(0, 1.5) * EPS;
		double now = is_signed<T>::value || is_floating_point<T>::value ? c.r.real(-1000, 1000) : c.r.real(0, 1000); int gap = 1 + c.r.below(c.r.below(3) ? 3 : 50);
		if(sizeof(T) >= 4) switch(c.r.below(12)){ case 0: case 1: now += 1e6; break; case 2: now += is_same<T, int>::value ? 2e9 : is_same<T, unsigned>::value ? 4.2e9 : 1e12; break; case 3: if(is_signed<T>::value) now -= is_same<T, int>::value ? 2e9 : 1e12; break; case 4: gap = 1 + c.r.below(300000); break; default: break; }
		now = (double)(T)now;
		for(int i = 0; i < n; ++i){
			double v;
			switch(shape){
				case 0: level += slope * c.r.real(-1, 1); v = level; break;                                        // walk
				case 1: if(c.r.below(12) == 0) slope = c.r.real(-1, 1) * (EPS + 1); level += slope; v = level + c.r.real(-noise, noise); break; // noisy lines
				case 2: v = base + span * 0.4 * sin(i * 0.2); break;
				case 3: v = base + (c.r.below(2) ? EPS : -EPS); break;                                               // on the edges of the margin
				case 4: if(c.r.below(10) == 0) level = c.r.real(MIN, MAX); v = level; break;                        // steps
				case 5: v = c.r.real(MIN, MAX); break;                                                              // anything
				case 6: v = base; break;                                                                            // constant
				default: v = base + ((i * 7) % 13) * 0.25 * (EPS + 1); break;
			}
			v = max((double)MIN, min((double)MAX, v)); E const e = (E)v; T const t = (T)now;
			data.push_back({ (double)t, (double)e });
			bool const n = l.add(t, e);
			if(n){ T st; E sv; l.get_value_to_transmit(st, sv); sent.push_back({ (double)st, (double)sv }); when.push_back(i); T st2; E sv2; l.get_value_to_transmit(st2, sv2); REQUIRE(st2 == st && sv2 == sv, "get_value_to_transmit gives two values"); }
			now += is_floating_point<T>::value ? c.r.real(0.01, gap) : 1 + c.r.below(gap);
		}
	}
	static double precision(){ return is_integral<E>::value ? 1.0 : is_same<E, float>::value ? 1e-3 * (1 + max(fabs((double)MAX), fabs((double)MIN)) * 1e-3) : 1e-6; }
	static double slack(){ return 1e-9 * max(fabs((double)MAX), fabs((double)MIN)); } // the timestamps only matter through their differences
	// L01
	static void error(Case& c){
		vector<Pt> d, s; vector<int> w; stream(c, d, s, w); uint64_t covered = 0; double worst = 0; size_t j = 0;
		for(size_t k = 0; k + 1 < s.size(); ++k){
			REQUIRE(s[k + 1].t > s[k].t, "transmitted timestamps do not increase: %.9g then %.9g", s[k].t, s[k + 1].t);
			for(size_t i = 0; i < d.size(); ++i) if(d[i].t >= s[k].t && d[i].t <= s[k + 1].t){
				double const x = s[k].v + (s[k + 1].v - s[k].v) * (d[i].t - s[k].t) / (s[k + 1].t - s[k].t), err = fabs(x - d[i].v); ++covered; worst = max(worst, err); c.ev();
				REQUIRE(err <= EPS + precision() + slack(), "point %zu (%.9g, %.9g) is reconstructed as %.9g from the transmitted points (%.9g, %.9g) and (%.9g, %.9g); epsilon is %d", i, d[i].t, d[i].v, x, s[k].t, s[k].v, s[k + 1].t, s[k + 1].v, EPS);
			}
		}
		for(auto const& p: s){ REQUIRE(p.v >= MIN && p.v <= MAX, "transmitted value %.9g is not within [%d, %d]", p.v, MIN, MAX); c.seed_d(p.t); c.seed_d(p.v); }
		if(s.size() < 2) c.trivial = true; stat("points_reconstructed", covered); stat("points_transmitted", s.size());
		c.sample("epsilon %d: %zu points, %zu transmitted, worst error %.4g over %llu points", EPS, d.size(), s.size(), worst, (unsigned long long)covered);
	}
	// L02, where all the slopes are exact: a line that only touches two margins still fits
	static void touch(Case& c){
		LTC<E, T, EPS, MAX, MIN, TUD> l; double const t0 = 8 * c.r.below(100), v0 = floor(c.r.real(MIN, MAX)); double up = INFINITY, low = -INFINITY; REQUIRE(!l.add((T)t0, (E)v0), "the first point is transmitted"); uint64_t touches = 0; int i = 1;
		for(double dt = 1 << c.r.below(3); dt <= 65536; dt *= 1 << (1 + c.r.below(2)), ++i){
			double v; int const k = c.r.below(6); bool const some = i > 1; double const a = (some ? up : 0) * dt + v0 + EPS, b = (some ? low : 0) * dt + v0 - EPS; // the margin of a starts where the highest line ends
			v = k == 0 ? a : k == 1 ? b : k == 2 ? (a + b) / 2 : k == 3 ? a - 2 * EPS : k == 4 ? b + 2 * EPS : a + (c.r.below(2) ? 1 : -1) * (double)c.r.below(2 * EPS + 2); v = max((double)MIN, min((double)MAX, is_integral<E>::value ? floor(v) : v));
			double const hi = (min(v + EPS, (double)MAX) - v0) / dt, lo = (max(v - EPS, (double)MIN) - v0) / dt; up = min(up, hi); low = max(low, lo); touches += up == low; bool const sent = l.add((T)(t0 + dt), (E)v); c.ev(); c.seed_d(v);
			REQUIRE(sent == (low > up), "point %d (%g, %g) %s, the lines from (%g, %g) that stay within %d have slopes %.17g to %.17g", i, t0 + dt, v, sent ? "ends the segment" : "does not end the segment", t0, v0, EPS, low, up);
			if(sent) break;
		}
		stat("lines_that_touch", touches); stat("points_held_back", i - 1); c.sample("epsilon %d: %d points, %llu times a single line was left", EPS, i, (unsigned long long)touches);
	}
	static void economy(Case& c){
		if(TUD == 1 && c.r.below(4) == 0){ touch(c); return; }
		vector<Pt> d, s; vector<int> w; stream(c, d, s, w); uint64_t held = 0;
		if(s.size()) REQUIRE(s[0].t == d[0].t && s[0].v == d[0].v, "the first transmitted point is (%.9g, %.9g), the first point was (%.9g, %.9g)", s[0].t, s[0].v, d[0].t, d[0].v);
		for(size_t k = 0; k < s.size(); ++k){
			// the segment that starts at s[k] ends when it is transmitted, at point w[k]
			int const end = w[k]; int const start = k == 0 ? 1 : w[k - 1]; double up = INFINITY, low = -INFINITY; bool found = k == 0;
			for(int i = 0; i < (int)d.size(); ++i) if(d[i].t == s[k].t) found = true;
			REQUIRE(found, "transmitted timestamp %.9g is not one of the timestamps given", s[k].t);
			if(k > 0) REQUIRE(s[k].t == d[w[k - 1] - 1].t, "a segment that cannot cover timestamp %.9g ends at %.9g, not at the point before it (%.9g)", d[w[k - 1]].t, s[k].t, d[w[k - 1] - 1].t);
			for(int i = start; i <= end; ++i){
				double const dt = d[i].t - s[k].t, hi = (min(d[i].v + EPS, (double)MAX) - s[k].v) / dt, lo = (max(d[i].v - EPS, (double)MIN) - s[k].v) / dt, span = d[end].t - s[k].t;
				up = min(up, hi); low = max(low, lo); double const gap = (low - up) * span, tol = 1e-6 * (1 + fabs(up) * span + fabs(low) * span) + precision() * 1e-3; c.ev();
				if(i < end){ ++held; REQUIRE(gap <= tol, "points up to %d are not transmitted, but no line from (%.9g, %.9g) stays within %d of them", i, s[k].t, s[k].v, EPS); }
				else REQUIRE(gap >= -tol, "a point is transmitted at point %d, but a line from (%.9g, %.9g) stays within %d of all the points up to it (slopes %.9g to %.9g)", i, s[k].t, s[k].v, EPS, low, up);
			}
			c.seed_d(s[k].t); c.seed_d(s[k].v);
		}
		if(s.empty()){
			// nothing was transmitted: a single line from the first point covers everything
			double up = INFINITY, low = -INFINITY; double const span = d.back().t - d[0].t;
			for(size_t i = 1; i < d.size(); ++i){ double const dt = d[i].t - d[0].t; up = min(up, (min(d[i].v + EPS, (double)MAX) - d[0].v) / dt); low = max(low, (max(d[i].v - EPS, (double)MIN) - d[0].v) / dt); }
			c.ev(); REQUIRE((low - up) * span <= 1e-6 * (1 + fabs(up) * span + fabs(low) * span) + 1e-3, "nothing is transmitted for %zu points, but no line from the first stays within %d of them", d.size(), EPS); c.seed_d(up);
		}
		stat("points_held_back", held); stat("points_transmitted", s.size());
		c.sample("epsilon %d: %zu points, %zu transmitted", EPS, d.size(), s.size());
	}
};
typedef Comp<int, int, 4, 32767, -32768, 1> L1; typedef Comp<double, double, 1, 1000, -1000, 1> L2; typedef Comp<float, int, 10, 30000, -30000, 10> L3; typedef Comp<short, unsigned, 50, 32767, -32768, 1> L4;
typedef Comp<double, long, 0, 500, -500, 1000> L5; typedef Comp<int, double, 7, 200, 0, 3> L6; typedef Comp<double, int, 200, 32767, -32768, 60> L7; typedef Comp<unsigned char, unsigned, 3, 255, 0, 1> L8; typedef Comp<int, long, 1000, 2000000000, -2000000000, 1> L9; typedef Comp<double, long, 100000, 2000000000, 0, 7> L10;
#define ALL L1, L2, L3, L4, L5, L6, L7, L8, L9, L10
template<class... Ks> static void errors(Case& c){ void (*f[])(Case&) = { Ks::error... }; f[c.index % sizeof...(Ks)](c); }
template<class... Ks> static void economies(Case& c){ void (*f[])(Case&) = { Ks::economy... }; f[c.index % sizeof...(Ks)](c); }
#ifdef G_ERROR
TEST(error){ errors<ALL>(c); }
#endif
#ifdef G_ECONOMY
TEST(economy){ economies<ALL>(c); }
#endif
GENERIC(ALL) GENERIC_COPY(ALL) GENERIC_ALLOC(ALL)
#include "main.inc"
