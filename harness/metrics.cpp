#include "common.hpp"
#include "alloc.hpp"
#include "metrics.hpp"
#include "generic.hpp"
using namespace vf;

template<class M> struct Labels{ static const int n = 6; };
template<int L, bool R> struct Labels<KappaMetrics<L, R>>{ static const int n = L; };
template<class M, int SIZE> struct Mt: Defaults{
	static const bool readers = true;
	typedef M Obj;
	static size_t budget(){ return SIZE; }
	static Obj* construct(void* p, Rng&){ return new(p) Obj(); }
	static void mutate(Obj& o, Rng& r, Hash& h){ int const k = r.below(20); h.add(k); if(k == 0) o.reset(); else if(k == 1) o.increase_error(r.range(1, 4)); else if(k == 2) o.increase_error(); else o.update(r.below(Labels<M>::n), r.below(Labels<M>::n)); }
	static void query(Obj& o, Rng& r, Hash& h){ for(int i = 0; i < 2; ++i){ int const t = r.range(1, 50); double const a = o.score(i, t); h.addd(std::isnan(a) ? 999 : a); } h.add(o.ratio()); }
};
// E01: recomputed from the list of the predictions since the last reset
template<class M, bool R, int L, bool kappa> struct Model{
	static double truth(vector<pair<int, int>> const& v){
		long double n = v.size();
		if(!kappa){ long double e = 0; for(auto const& p: v) e += p.first != p.second; return (double)(e / n); }
		long double agree = 0, chance = 0; for(auto const& p: v) agree += p.first == p.second;
		for(int l = 0; l < L; ++l){ long double a = 0, b = 0; for(auto const& p: v){ a += p.first == l; b += p.second == l; } chance += a / n * (b / n); }
		return chance > 1 - 1e-12L ? NAN : (double)((agree / n - chance) / (1 - chance));
	}
	static void run(Case& c){
		Slot<M> s(0xA5); s.p = new(s.raw) M(); M& m = *s.p; unique_ptr<M> copy; vector<pair<int, int>> copied; vector<pair<int, int>> v; int const n = 1 + c.r.below(scale(c, 200)); double const good = c.r.u01(); uint64_t compared = 0;
		for(int i = 0; i < n; ++i){
			int const k = c.r.below(60);
			if(k == 0){ m.reset(); v.clear(); }
			else if(k == 1){ int const e = c.r.range(1, 6); m.increase_error(e); for(int j = 0; j < e; ++j) v.push_back({ 0, 1 }); }
			else if(k == 2){ m.increase_error(); v.push_back({ 0, 1 }); }
			else if(k == 3){ copy.reset(new M()); *copy = m; copied = v; }
			else if(k == 4 && copy){ M& r = m; r = *copy; v = copied; }
			else{ int const t = c.r.below(L), p = c.r.chance(good) ? t : c.r.below(L); m.update(t, p); v.push_back({ t, p }); }
			REQUIRE(m.ratio() == R, "ratio() is %d", m.ratio());
			if(v.empty()) continue;
			double const x = truth(v); if(std::isnan(x)) continue;
			int const size = c.r.range(1, 400); double const bad = kappa ? (1 - x) / 2 : x; double const e0 = R ? bad * size : bad, e1 = R ? (1 - bad) / size : 1 - bad;
			double const g0 = m.score(false, size), g1 = m.score(true, size); c.ev(2); ++compared;
			REQUIRE(vf::close(g0, e0, 1e-9, 1e-12), "after %zu predictions the score is %.17g instead of %.17g", v.size(), g0, e0);
			REQUIRE(vf::close(g1, e1, 1e-9, 1e-12), "after %zu predictions the inverted score is %.17g instead of %.17g", v.size(), g1, e1);
			if(!R){ REQUIRE(m.score() == g0 && m.score(true) == g1, "the score depends on the size although it is not a ratio"); REQUIRE(g0 >= -1e-12 && g0 <= 1 + 1e-12 && vf::close(g0 + g1, 1, 1e-9), "the scores %g and %g are not in [0,1] or do not add up to 1", g0, g1); }
			if(kappa){ check_kappa(m, x); }
			c.seed_d(g0);
		}
		stat("scores_compared", compared); c.sample("%d classes, ratio %d, kappa %d: %d operations, %llu scores compared", L, R, kappa, n, (unsigned long long)compared);
	}
	template<int A, bool B> static void check_kappa(KappaMetrics<A, B> const& m, double x){ REQUIRE(vf::close(m.kappa(), x, 1e-9, 1e-9), "kappa is %.17g instead of %.17g", m.kappa(), x); }
	template<bool B> static void check_kappa(ErrorMetrics<B> const&, double){}
};
#ifdef G_MODEL
// Many predictions: only their table is kept
template<class M, int L, bool kappa> static void endure(Case& c){
	Slot<M> s(0xA5); s.p = new(s.raw) M(); M& m = *s.p; vector<vector<long>> table(L, vector<long>(L, 0)); long double n = 0; long const len = 70000 + c.r.below(scale(c, 70000)); double const good = c.r.u01(); int const favourite = c.r.below(L); double const fav = c.r.u01(); uint64_t compared = 0;
	for(long i = 0; i < len; ++i){
		if(c.r.below(5000) == 0){ int const e = c.r.range(1, 90000); m.increase_error(e); table[0][1] += e; n += e; } // an error predicts class 1 for class 0
		else{ int const t = c.r.chance(fav) ? favourite : c.r.below(L), p = c.r.chance(good) ? t : c.r.below(L); m.update(t, p); ++table[t][p]; ++n; }
		if(i % 1000 && i + 1 < len) continue;
		long double agree = 0, chance = 0; for(int a = 0; a < L; ++a){ long double r = 0, k = 0; for(int b = 0; b < L; ++b){ r += table[a][b]; k += table[b][a]; } agree += table[a][a]; chance += r / n * (k / n); }
		if(kappa && chance > 1 - 1e-12L) continue; double const x = kappa ? (double)((agree / n - chance) / (1 - chance)) : (double)(1 - agree / n), bad = kappa ? (1 - x) / 2 : x, g0 = m.score(false, 10), g1 = m.score(true, 10); c.ev(2); ++compared;
		REQUIRE(vf::close(g0, m.ratio() ? bad * 10 : bad, 1e-9, 1e-12) && vf::close(g1, m.ratio() ? (1 - bad) / 10 : 1 - bad, 1e-9, 1e-12), "after %.0Lf predictions the scores are %.17g and %.17g instead of %.17g and %.17g", n, g0, g1, bad, 1 - bad); c.seed_d(g0);
	}
	stat("scores_compared", compared); stat("predictions", (double)n); c.sample("%d classes, kappa %d: %.0Lf predictions, %llu scores compared", L, kappa, n, (unsigned long long)compared);
}
TEST(endurance){ void (*f[])(Case&) = { endure<ErrorMetrics<false>, 5, false>, endure<ErrorMetrics<true>, 2, false>, endure<KappaMetrics<2, false>, 2, true>, endure<KappaMetrics<6, true>, 6, true> }; f[c.index % 4](c); }
// classes that a byte or a short cannot number
TEST(wide){ void (*f[])(Case&) = { Model<ErrorMetrics<false>, false, 1000000007, false>::run, Model<KappaMetrics<300, false>, false, 300, true>::run, Model<KappaMetrics<1000, true>, true, 1000, true>::run }; f[c.index % 3](c); }
TEST(model){
	void (*f[])(Case&) = { Model<ErrorMetrics<false>, false, 5, false>::run, Model<ErrorMetrics<true>, true, 3, false>::run, Model<KappaMetrics<2, false>, false, 2, true>::run, Model<KappaMetrics<5, true>, true, 5, true>::run, Model<KappaMetrics<9, false>, false, 9, true>::run, Model<ErrorMetrics<>, false, 2, false>::run };
	f[c.index % 6](c);
}
#endif
#ifdef G_RESERVOIR
// E02: a group of k members of which the last one was just reset: the scores of the k members that can leave and of
// the newcomer are the probabilities of a reservoir of k over all the members ever made.
TEST(reservoir){
	int const k = 1 + c.r.below(12), n = 1 + c.r.below(scale(c, 40)); NoMetrics none; vector<unique_ptr<ReservoirSamplingMetrics>> v; long made0 = 0;
	{ ReservoirSamplingMetrics probe; double const s = probe.score(false, 0); REQUIRE(vf::close(s, 1), "the newest member has score %g with no one to replace", s); ReservoirSamplingMetrics second; made0 = lround(1 / probe.score(false, 1)); REQUIRE(vf::close(probe.score(false, 1), 1.0 / made0) && made0 >= 2, "the score of an older member is %g", probe.score(false, 1)); }
	long made = made0;
	if(c.index % 500 == 3){ ReservoirSamplingMetrics m; ++made; for(int i = 0; i < 70000; ++i) m.reset(); made += 70000; }
	vector<long> num; // the reset that made each member, counted from the first
	uint64_t copies = 0;
	for(int i = 0; i < n + k; ++i){
		if((int)v.size() <= k){ v.emplace_back(new ReservoirSamplingMetrics()); num.push_back(++made); }
		else{ int const j = c.r.below(v.size()); if(c.r.below(2)){ v[j]->reset(); num[j] = ++made; swap(v[j], v.back()); swap(num[j], num.back()); } else{ *v[j] = *v.back(); num[j] = num.back(); v.back()->reset(); num.back() = ++made; } }
		if(c.r.below(2)) v[c.r.below(v.size())]->update(0, 1); if(c.r.below(3) == 0) v[c.r.below(v.size())]->increase_error(3);
		bool const any = c.r.below(3) == 0; // a member takes the place of another, whichever they are
		if(any){ int const a = c.r.below(v.size()), b = c.r.below(v.size()); ++copies; if(c.r.below(2)) *v[a] = *v[b]; else{ ReservoirSamplingMetrics const& from = *v[b]; v[a].reset(new ReservoirSamplingMetrics(from)); } num[a] = num[b]; }
		double sum = 0; int const old = v.size() - 1; int newest = 0;
		for(size_t j = 0; j < v.size(); ++j){ bool const last = num[j] == made; newest += last; double const s = v[j]->score(c.r.below(2), old), e = last ? (double)(made - old) / made : 1.0 / made; c.ev(); REQUIRE(vf::close(s, e, 1e-12), "with %ld members made and %d others in the group, the score of %s member is %.17g instead of %.17g", made, old, last ? "the newest" : "an older", s, e); sum += s; c.seed_d(s); }
		REQUIRE(newest != 1 || vf::close(sum, 1), "the scores add up to %g", sum); REQUIRE(!v[0]->ratio(), "ratio() is true");
		none.update(c.r.below(3), 1); none.increase_error(); REQUIRE(none.score(c.r.below(2), 5) == 0 && !none.ratio(), "the score without metrics is %g", none.score());
	}
	stat("copies", copies);
	stat("members_made", made - made0); c.sample("group of %d, %ld members made before, %ld during the case", k + 1, made0, made - made0);
}
#endif
typedef Mt<ErrorMetrics<false>, 16> T1; typedef Mt<ErrorMetrics<true>, 16> T2; typedef Mt<KappaMetrics<2, false>, 40> T3; typedef Mt<KappaMetrics<7, true>, 4 * 49 + 24> T4; typedef Mt<NoMetrics, 8> T5;
#define ALL T1, T2, T3, T4, T5
GENERIC(ALL) GENERIC_COPY(ALL) GENERIC_ALLOC(ALL)
#include "main.inc"
