#include "common.hpp"
#include "alloc.hpp"
#include "reservoir_sampling.hpp"
#include "chained_reservoir.hpp"
#include "generic.hpp"
using namespace vf;

struct Blocks: vector<void*>{ ~Blocks(){ for(void* p: *this) ::free(p); } };
static thread_local uint64_t g_mallocs = 0; static thread_local Blocks g_blocks;
struct Fn{
	static double random(){ return g_random->draw(); }
	static double floor(double x){ return std::floor(x); }
	static void* malloc(size_t n){
		bool const t = g_track_alloc; g_track_alloc = false; // the functor may allocate, the component may not
		void* p = ::malloc(n); memset(p, 0xC7, n); g_blocks.push_back(p); ++g_mallocs; g_track_alloc = t; return p;
	}
};
static void free_blocks(){ for(void* p: g_blocks) ::free(p); g_blocks.clear(); g_mallocs = 0; }
struct FreeBlocks{ ~FreeBlocks(){ free_blocks(); } };
struct Rich{ // an element with its own copy semantics
	uint64_t id; unique_ptr<uint64_t> p;
	Rich(uint64_t i = ~0ull): id(i), p(new uint64_t(i)){}
	Rich(Rich const& o): id(o.id), p(new uint64_t(*o.p)){}
	Rich& operator=(Rich const& o){ id = o.id; *p = *o.p; return *this; }
};
static uint64_t key(Rich const& r){ return *r.p; }
static uint64_t key(int r){ return (uint64_t)(int64_t)r; }
static uint64_t key(double r){ return (uint64_t)(int64_t)r; }
static uint64_t key(uint64_t r){ return r; }
// |z| > 7 has a probability under 3e-12
static void zcheck(Case& c, double observed, double n, double p, char const* fmt, ...){
	double const var = n * p * (1 - p); c.ev();
	if(var < 20) return;
	double const z = (observed - n * p) / sqrt(var);
	if(fabs(z) <= 7) return;
	char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	violation("%s: observed %.0f of %.0f, expected %.1f (z = %.1f)", b, observed, n, n * p, z);
}

//---------------------------------------------------------------- generic
template<class R, class E, int N> struct Res: Defaults{
	typedef R Obj; static const bool closed = true, readers = true;
	static int ops(){ return 40 + 4 * N; }
	static size_t budget(){ return N * sizeof(E) + 64; }
	static Obj* construct(void* p, Rng&){ return new(p) Obj(); }
	static void mutate(Obj& o, Rng& r, Hash& h){
		E const e = E(r.below(1 << 20));
		if(r.below(8) == 0){ int const i = o.sample_index(); h.add(i); if(i >= 0) o[i] = e; }
		else h.add(o.add(e));
		h.add(o.count());
	}
	static void query(Obj& o, Rng&, Hash& h){ Obj const& k = o; h.add(o.count()); for(unsigned i = 0; i < N && i < o.count(); ++i){ h.add(key(k[i])); h.add(key(o[i])); } }
};
template<class E, int N> struct Chain: Defaults{
	typedef ChainedReservoirSampling<E, N, Fn> Obj; static const bool closed = true;
	static int ops(){ return 50 + 4 * N; }
	static Obj* construct(void* p, Rng&){
		bool const t = g_track_alloc; g_track_alloc = false; size_t const held = g_blocks.size(); g_track_alloc = t; // the first use in a thread allocates
		if(held > 200000) violation("internal: blocks");
		Obj* o = new(p) Obj(); return o; }
	// the timestamps are drawn in the script: any history is acceptable for these monitors
	static void mutate(Obj& o, Rng& r, Hash& h){
		if(r.below(12) == 0) o.obsolete(r.below(40)); else for(int i = 0; i < 1 + N / 4; ++i) o.add(E(r.below(1 << 20)), r.below(60));
		h.add(1);
	}
	// [] of a slot that was never filled is not defined: only used when nothing can be unfilled
	static void query(Obj& o, Rng&, Hash&){}
};
template<class E, int N> struct ChainFull: Chain<E, N>{
	typedef ChainedReservoirSampling<E, N, Fn> Obj;
	static Obj* construct(void* p, Rng& c){ Obj* o = new(p) Obj(); for(int i = 0; i < N + c.below(3 * N); ++i) o->add(E(1000000 + i), 1 + c.below(30)); return o; }
	static void query(Obj& o, Rng&, Hash& h){ Obj const& k = o; for(int i = 0; i < N; ++i){ h.add(key(k[i])); h.add(key(o[i])); } }
};
typedef Res<ReservoirSampling<int, 1, Fn>, int, 1> R1; typedef Res<ReservoirSampling<Rich, 7, Fn>, Rich, 7> R2; typedef Res<ReservoirSampling<double, 50, Fn>, double, 50> R3;
typedef Res<ExponentialReservoirSampling<int, 1, Fn>, int, 1> X1; typedef Res<ExponentialReservoirSampling<Rich, 6, Fn>, Rich, 6> X2; typedef Res<ExponentialReservoirSampling<double, 40, Fn>, double, 40> X3;
typedef Chain<int, 1> H1; typedef ChainFull<int, 3> H2; typedef ChainFull<double, 20> H3;
#define GEN R1, R2, R3, X1, X2, X3, H1, H2, H3
#define NOHEAP R1, R3, X1, X3, H1, H2, H3
#ifdef G_SAFE
TEST(safe){ FreeBlocks f; All<GEN>::safe(c); }
#endif
#ifdef G_DET
TEST(det){ FreeBlocks f; All<GEN>::det(c); }
#endif
#ifdef G_RO
TEST(ro){ FreeBlocks f; All<GEN>::ro(c); }
#endif
#ifdef G_COPY
TEST(copy){ FreeBlocks f; All<GEN>::copy(c); }
#endif
#ifdef G_THREADS
TEST(threads){ FreeBlocks f; All<GEN>::threads(c); }
TEST(readers){ FreeBlocks f; All<GEN>::readers(c); }
#endif
#ifdef G_ALLOC
TEST(alloc){ FreeBlocks f; All<NOHEAP>::alloc(c); }
// With a sliding window, the cells of the chains are used again.
TEST(window){
	FreeBlocks f; const int N = 4; Source src(c.r.next(), 0, true); UseSource u(src); ChainedReservoirSampling<int, N, Fn> o;
	int const W = 1 + c.r.below(40), n = 3000, restart = c.r.below(2) ? 0 : N + c.r.below(200); uint64_t half = 0; ChainedReservoirSampling<int, N, Fn> const empty;
	for(int i = 0; i < n; ++i){ if(restart && i && i % restart == 0) o = empty; o.add(i, i + 1); if(i >= W) o.obsolete(i + 1 - W); c.ev(); if(i == n / 2) half = g_mallocs; }
	REQUIRE(g_mallocs <= (uint64_t)N * (W + N + 2), "%llu cells allocated for a window of %d elements and %d slots", (unsigned long long)g_mallocs, W, N);
	c.see(g_mallocs); stat("cells_allocated", g_mallocs); c.sample("window %d: %llu cells for %d elements", W, (unsigned long long)g_mallocs, n);
}
#endif

//---------------------------------------------------------------- R02 contract of the reservoir
#ifdef G_CONTRACT
template<class E, unsigned N> static void contract(Case& c){
	Source src(c.r.next(), c.r.below(5), true); UseSource u(src); ReservoirSampling<E, N, Fn> o; ReservoirSampling<E, N, Fn> const& k = o;
	int const n = c.r.below(scale(c, 3 * N + 200)); vector<uint64_t> shadow; uint64_t rejected = 0, replaced = 0;
	REQUIRE(o.count() == 0, "count() is %u before the first element", o.count());
	for(int i = 0; i < n; ++i){
		uint64_t const id = 100 + i; E const e = E(id); int idx; bool const by_index = c.r.below(4) == 0;
		if(by_index){
			idx = o.sample_index();
			for(size_t j = 0; j < shadow.size(); ++j) REQUIRE(key(k[j]) == shadow[j], "sample_index() changed slot %zu", j);
			if(idx >= 0 && idx < (int)N) o[idx] = e;
		}
		else idx = o.add(e);
		REQUIRE(idx >= -1 && idx < (int)N, "index %d for element %d, the sample has %u slots", idx, i, N);
		if(i < (int)N) REQUIRE(idx == i, "element %d is put at index %d while the sample is not full", i, idx);
		if(idx == (int)shadow.size()) shadow.push_back(id); else if(idx >= 0){ shadow[idx] = id; ++replaced; } else ++rejected;
		for(size_t j = 0; j < shadow.size(); ++j){
			c.ev(); REQUIRE(key(k[j]) == shadow[j] && key(o[j]) == shadow[j], "slot %zu holds %llu after the addition of element %d at index %d, not %llu", j, (unsigned long long)key(k[j]), i, idx, (unsigned long long)shadow[j]);
		}
		REQUIRE(o.count() == (unsigned)i + 1, "count() is %u after %d elements", o.count(), i + 1);
		c.see(idx);
	}
	set<uint64_t> d(shadow.begin(), shadow.end()); REQUIRE(d.size() == shadow.size(), "an element is sampled twice");
	REQUIRE(shadow.size() == min<size_t>(n, N), "%zu slots used after %d elements", shadow.size(), n);
	if(!n) c.trivial = true; stat("elements", n); stat("elements_rejected", rejected); stat("elements_replaced", replaced);
	c.sample("size %u: %d elements, %llu rejected, %llu replaced another, random mode %d", N, n, (unsigned long long)rejected, (unsigned long long)replaced, src.mode);
}
// More slots than a byte or a short can number
template<class E, unsigned N> static void contract_wide(Case& c){
	Source src(c.r.next(), c.r.below(3) ? 0 : c.r.below(5), true); UseSource u(src); unique_ptr<ReservoirSampling<E, N, Fn>> h(new ReservoirSampling<E, N, Fn>()); ReservoirSampling<E, N, Fn>& o = *h; ReservoirSampling<E, N, Fn> const& k = o;
	int const n = N + c.r.below(2 * N); vector<uint64_t> shadow; uint64_t rejected = 0, high = 0;
	for(int i = 0; i < n; ++i){
		uint64_t const id = 100 + i; int idx; if(c.r.below(4) == 0){ idx = o.sample_index(); if(idx >= 0 && idx < (int)N) o[idx] = E(id); } else idx = o.add(E(id));
		REQUIRE(idx >= -1 && idx < (int)N && (i >= (int)N || idx == i), "index %d for element %d, the sample has %u slots", idx, i, N);
		if(idx == (int)shadow.size()) shadow.push_back(id); else if(idx >= 0){ shadow[idx] = id; high += idx >= (int)N / 2; } else ++rejected;
		size_t const j = idx >= 0 ? (size_t)idx : (size_t)c.r.below(shadow.size()); c.ev(); REQUIRE(key(k[j]) == shadow[j], "slot %zu holds %llu after element %d, not %llu", j, (unsigned long long)key(k[j]), i, (unsigned long long)shadow[j]);
		REQUIRE(o.count() == (unsigned)i + 1, "count() is %u after %d elements", o.count(), i + 1);
	}
	for(size_t j = 0; j < N; ++j){ c.ev(); REQUIRE(key(k[j]) == shadow[j] && key(o[j]) == shadow[j], "slot %zu holds %llu after %d elements, not %llu", j, (unsigned long long)key(k[j]), n, (unsigned long long)shadow[j]); }
	// half of the replacements go to the upper half of the slots
	if(src.mode == 0) zcheck(c, high, n - N - rejected, (N - (int)N / 2) / (double)N, "a replacement goes to the upper half of the %u slots", N);
	c.see(high); stat("elements", n); stat("elements_rejected", rejected); c.sample("size %u: %d elements, %llu rejected, random mode %d", N, n, (unsigned long long)rejected, src.mode);
}
TEST(wide){ void (*f[])(Case&) = { contract_wide<int, 700>, contract_wide<Rich, 300>, contract_wide<double, 70000>, contract_wide<int, 40000> }; f[c.index % 4](c); }
TEST(contract){ void (*f[])(Case&) = { contract<int, 1>, contract<Rich, 2>, contract<uint64_t, 5>, contract<int, 16>, contract<double, 100>, contract<int, 300> }; f[c.index % 6](c); }
#endif

//---------------------------------------------------------------- R01 uniform sampling
#ifdef G_UNIFORM
template<unsigned N, int LEN> static void uniform(Case& c){
	int const T = scale(c, 6000000 / LEN); Source src(c.r.next()); UseSource u(src);
	vector<double> in(LEN, 0); vector<double> slot(N, 0); double late = 0, accepted = 0, both = 0, sumpos = 0;
	bool const api = c.r.below(2);
	for(int t = 0; t < T; ++t){
		ReservoirSampling<int, N, Fn> o;
		for(int i = 0; i < LEN; ++i){
			int idx; if(api) idx = o.add(i); else{ idx = o.sample_index(); if(idx >= 0) o[idx] = i; }
			if(i >= (int)N && idx >= 0){ ++accepted; REQUIRE(idx < (int)N, "index out of the sample"); ++slot[idx]; }
		}
		bool a = false, b = false;
		for(unsigned j = 0; j < N; ++j){ int const e = o[j]; REQUIRE(e >= 0 && e < LEN, "the sample holds something that was not given"); ++in[e]; sumpos += e; a |= e == 0; b |= e == LEN - 1; if(e >= LEN / 2) ++late; }
		both += a && b;
	}
	double const p = (double)N / LEN;
	for(int i = 0; i < LEN; ++i) zcheck(c, in[i], T, p, "element %d of %d is in the sample of %u", i, LEN, N);
	// sum of positions: without replacement variance
	double const mean = (LEN - 1) / 2.0, var1 = N * ((double)LEN * LEN - 1) / 12 * ((double)(LEN - (int)N) / (LEN - 1));
	double const z = var1 > 0 ? (sumpos - (double)T * N * mean) / sqrt(T * var1) : 0; c.ev();
	REQUIRE(fabs(z) <= 7, "the mean position in the stream of the sampled elements is %.4f, expected %.4f (z = %.1f; %u of %d)", sumpos / T / N, mean, z, N, LEN);
	if(N > 1) zcheck(c, both, T, p * (N - 1.0) / (LEN - 1.0), "the first and the last of %d elements are both in the sample of %u", LEN, N);
	for(unsigned j = 0; j < N; ++j) zcheck(c, slot[j], accepted, 1.0 / N, "an accepted element replaces slot %u of %u", j, N);
	for(int i = 0; i < LEN; ++i) c.see((uint64_t)in[i]);
	stat("streams_sampled", T); stat("elements_offered", (double)T * LEN);
	c.sample("%u of %d, %d streams: first element sampled %.0f times, last %.0f, expected %.1f", N, LEN, T, in[0], in[LEN - 1], T * p);
}
// Long streams: the number of accepted elements between 2^k and 2^(k+1)
static void longrun(Case& c){
	const unsigned N = 500; int const total = c.thorough ? 1 << 27 : 1 << 23; Source src(c.r.next()); UseSource u(src); ReservoirSampling<int, N, Fn> o;
	double lo = 0, expected = 0, var = 0; int limit = 1024, acc = 0; double slots[2] = {0, 0}, all = 0;
	for(int i = 0; i < total; ++i){
		if(i == limit){ c.ev(); REQUIRE(var <= 0 || fabs(acc - expected) <= 7 * sqrt(var), "%d elements accepted between positions %d and %d, expected %.1f", acc, limit / 2, limit, expected); c.see(acc); acc = 0; expected = var = 0; limit *= 2; }
		int const idx = o.sample_index();
		if(i >= (int)N){ double const p = (double)N / (i + 1.0); expected += p; var += p * (1 - p); if(idx >= 0){ ++acc; ++all; ++slots[idx >= (int)N / 2]; } }
	}
	REQUIRE(o.count() == (unsigned)total, "count() is %u after %d elements", o.count(), total);
	zcheck(c, slots[1], all, 0.5, "upper half of the slots");
	stat("elements_offered", total); c.sample("%d elements through a reservoir of %u, %.0f accepted", total, N, all);
}
// Reservoirs with more slots than a byte or a short can number: where the elements of a large sample come from, and where they go
template<unsigned N> static void uniform_wide(Case& c){
	Source src(c.r.next()); UseSource u(src); int const LEN = N * (1 + c.r.below(6)) + c.r.below(N); bool const api = c.r.below(2); int const T = max(1, 100000 / LEN); static int const B = 16; double in[B] = {0}, slot[B] = {0}, size[B] = {0}, room[B] = {0}, replaced = 0;
	for(int i = 0; i < LEN; ++i) ++size[(long)i * B / LEN]; for(unsigned j = 0; j < N; ++j) ++room[(long)j * B / N];
	for(int t = 0; t < T; ++t){
		unique_ptr<ReservoirSampling<int, N, Fn>> h(new ReservoirSampling<int, N, Fn>()); ReservoirSampling<int, N, Fn>& o = *h; vector<char> seen(LEN, 0);
		for(int i = 0; i < LEN; ++i){ int idx; if(api) idx = o.add(i); else{ idx = o.sample_index(); if(idx >= 0){ REQUIRE(idx < (int)N, "index %d out of the %u slots", idx, N); o[idx] = i; } } if(i >= (int)N && idx >= 0){ REQUIRE(idx < (int)N, "index %d out of the %u slots", idx, N); ++slot[(long)idx * B / N]; ++replaced; } }
		for(unsigned j = 0; j < N; ++j){ int const e = o[j]; REQUIRE(e >= 0 && e < LEN && !seen[e], "slot %u holds %d, which was not given or is in the sample twice", j, e); seen[e] = 1; ++in[(long)e * B / LEN]; }
	}
	double const p = (double)N / LEN;
	for(int b = 0; b < B; ++b){ zcheck(c, in[b], size[b] * T, p, "an element of part %d of %d elements is in the sample of %u", b, LEN, N); c.see((uint64_t)in[b]); if(replaced > 0) zcheck(c, slot[b], replaced, room[b] / N, "an accepted element replaces one of part %d of the %u slots", b, N); }
	stat("streams_sampled", T); stat("elements_offered", (double)T * LEN); c.sample("%u of %d, %d streams: %.0f accepted after the sample was full", N, LEN, T, replaced);
}
TEST(wide){ void (*f[])(Case&) = { uniform_wide<300>, uniform_wide<700>, uniform_wide<40000>, uniform_wide<70000> }; f[c.index % 4](c); }
TEST(uniform){ void (*f[])(Case&) = { uniform<1, 10>, uniform<3, 20>, uniform<5, 6>, uniform<4, 40>, uniform<10, 200>, uniform<16, 17>, uniform<2, 1000>, longrun }; f[c.index % 8](c); }
#endif

//---------------------------------------------------------------- R03 exponential reservoir
#ifdef G_EXPONENTIAL
template<class E, unsigned N> static void exp_contract(Case& c){
	Source src(c.r.next(), c.r.below(5), true); UseSource u(src); ExponentialReservoirSampling<E, N, Fn> o; ExponentialReservoirSampling<E, N, Fn> const& k = o;
	int const n = c.r.below(scale(c, 6 * N + 60)); vector<uint64_t> shadow;
	REQUIRE(o.count() == 0, "count() is %u before the first element", o.count());
	for(int i = 0; i < n; ++i){
		uint64_t const id = 100 + i; int idx;
		if(c.r.below(4) == 0){ idx = o.sample_index(); if(idx >= 0 && idx < (int)N) o[idx] = E(id); } else idx = o.add(E(id));
		REQUIRE(idx >= 0 && idx <= (int)shadow.size() && idx < (int)N, "index %d for element %d, with %zu of %u slots used", idx, i, shadow.size(), N);
		if(idx == (int)shadow.size()) shadow.push_back(id); else shadow[idx] = id;
		REQUIRE(o.count() == shadow.size(), "count() is %u with %zu slots used", o.count(), shadow.size());
		for(size_t j = 0; j < shadow.size(); ++j){ c.ev(); REQUIRE(key(k[j]) == shadow[j] && key(o[j]) == shadow[j], "slot %zu holds %llu, not %llu", j, (unsigned long long)key(k[j]), (unsigned long long)shadow[j]); }
		c.see(idx);
	}
	if(!n) c.trivial = true; stat("elements", n); c.sample("size %u: %d elements, %zu slots used, random mode %d", N, n, shadow.size(), src.mode);
}
template<unsigned N> static void exp_law(Case& c){
	int const T = scale(c, 400000 / (int)N), AFTER = 6 * N; Source src(c.r.next()); UseSource u(src);
	vector<double> at(N + 1, 0), grew(N + 1, 0), slot(N, 0); double full = 0; vector<double> survived(AFTER + 1, 0); vector<double> low(N + 1, 0), replaced(N + 1, 0);
	double starts = 0;
	for(int t = 0; t < T; ++t){
		ExponentialReservoirSampling<int, N, Fn> o; int steps = 0;
		while(o.count() < N){
			unsigned const m = o.count(); int const idx = o.add(1); ++at[m];
			REQUIRE(++steps < 400 * (int)N + 4000, "the reservoir of %u is not full after %d elements", N, steps);
			if(o.count() > m) ++grew[m]; else{ ++replaced[m]; if(idx * 2 < (int)m) ++low[m]; }
		}
		int alive = o.add(7); ++slot[alive]; ++full; ++starts;
		for(int a = 1; a <= AFTER; ++a){ int const idx = o.add(9); ++slot[idx]; ++full; if(idx == alive) alive = -1; if(alive >= 0) ++survived[a]; else break; }
	}
	for(unsigned m = 0; m < N; ++m){
		double const p = 1 - (double)m / N; c.ev();
		if(m == 0) REQUIRE(grew[0] == at[0], "the first element does not fill the first slot");
		else{ zcheck(c, grew[m], at[m], p, "a reservoir with %u of %u slots used grows", m, N); if(m > 1) zcheck(c, low[m], replaced[m], ((m + 1) / 2) / (double)m, "a replacement goes to the first half of the %u used slots", m); }
	}
	double sq = 0; for(unsigned j = 0; j < N; ++j) sq += slot[j];
	// once full, every slot is equally likely. (The draws after the replaced element are not counted: the loop stops there.)
	for(int a = 1; a <= AFTER; a += 1 + a / 4) zcheck(c, survived[a], starts, pow(1 - 1.0 / N, a), "an element of a full reservoir of %u survives %d additions", N, a);
	for(int a = 1; a <= AFTER; ++a) c.see((uint64_t)survived[a]);
	stat("reservoirs_filled", T); c.sample("size %u, %d reservoirs: %.0f survive %u additions, expected %.1f", N, T, survived[N], N, starts * pow(1 - 1.0 / N, N));
}
template<unsigned N> static void exp_slots(Case& c){
	Source src(c.r.next()); UseSource u(src); ExponentialReservoirSampling<int, N, Fn> o; int steps = 0; while(o.count() < N){ o.add(0); REQUIRE(++steps < 400 * (int)N + 4000, "never full"); }
	int const T = scale(c, 300000); vector<double> slot(N, 0); for(int t = 0; t < T; ++t) ++slot[o.add(t)];
	for(unsigned j = 0; j < N; ++j){ zcheck(c, slot[j], T, 1.0 / N, "slot %u of a full reservoir of %u is replaced", j, N); c.see((uint64_t)slot[j]); }
	stat("elements_offered", T); c.sample("size %u full: slot 0 replaced %.0f times of %d", N, slot[0], T);
}
// More slots than a byte or a short can number. Filling 40000 slots takes about 40000 (ln 40000 + 0.58) elements.
template<class E, unsigned N> static void exp_wide(Case& c){
	Source src(c.r.next()); UseSource u(src); unique_ptr<ExponentialReservoirSampling<E, N, Fn>> h(new ExponentialReservoirSampling<E, N, Fn>()); ExponentialReservoirSampling<E, N, Fn>& o = *h; ExponentialReservoirSampling<E, N, Fn> const& k = o;
	int const n = 12 * N + c.r.below(4 * N); vector<uint64_t> shadow; double high = 0, full = 0, ln = 0; for(unsigned i = 1; i <= N; ++i) ln += 1.0 / i;
	for(int i = 0; i < n; ++i){
		uint64_t const id = 100 + i; bool const was = shadow.size() == N; int const idx = o.add(E(id));
		REQUIRE(idx >= 0 && idx <= (int)shadow.size() && idx < (int)N, "index %d for element %d, with %zu of %u slots used", idx, i, shadow.size(), N);
		if(idx == (int)shadow.size()) shadow.push_back(id); else shadow[idx] = id;
		if(was){ ++full; high += idx >= (int)N / 2; }
		c.ev(); REQUIRE(key(k[idx]) == id, "slot %d holds %llu, not %llu", idx, (unsigned long long)key(k[idx]), (unsigned long long)id);
		REQUIRE(o.count() == shadow.size(), "count() is %u with %zu slots used", o.count(), shadow.size());
	}
	for(size_t j = 0; j < shadow.size(); ++j){ c.ev(); REQUIRE(key(k[j]) == shadow[j] && key(o[j]) == shadow[j], "slot %zu holds %llu, not %llu", j, (unsigned long long)key(k[j]), (unsigned long long)shadow[j]); }
	// slots left empty: each of the last ones waits for a geometric time; N exp(-n/N) of them are expected at the end
	double const left = N * exp(-(double)n / N); REQUIRE((N - shadow.size()) <= left + 7 * sqrt(left) + 8, "%zu of %u slots used after %d elements", shadow.size(), N, n);
	zcheck(c, high, full, (N - (int)N / 2) / (double)N, "a replacement goes to the upper half of the %u slots", N);
	c.see((uint64_t)high); stat("elements", n); c.sample("size %u: %d elements, %zu slots used", N, n, shadow.size());
}
TEST(wide){ void (*f[])(Case&) = { exp_wide<int, 700>, exp_wide<Rich, 300>, exp_wide<double, 70000>, exp_wide<int, 40000> }; f[c.index % 4](c); }
TEST(exponential){
	void (*f[])(Case&) = { exp_contract<int, 1>, exp_law<2>, exp_contract<Rich, 3>, exp_law<5>, exp_contract<uint64_t, 10>, exp_law<12>, exp_contract<double, 100>, exp_law<40>, exp_slots<3>, exp_slots<10>, exp_slots<64>, exp_contract<int, 17> };
	f[c.index % 12](c);
}
#endif

//---------------------------------------------------------------- R04 chained reservoir: uniform, genuine, successors
#ifdef G_CHAINED
template<unsigned N, int LEN> static void chain_uniform(Case& c){
	int const T = scale(c, (N > 100 ? 1000000 : 3000000) / LEN / (1 + (int)N / 8)); Source src(c.r.next()); UseSource u(src); vector<double> in(LEN, 0); double sumpos = 0, both = 0; vector<double> slot(N, 0);
	for(int t = 0; t < T; ++t){
		FreeBlocks fb; ChainedReservoirSampling<int, N, Fn> o; ChainedReservoirSampling<int, N, Fn> const& k = o;
		for(int i = 0; i < LEN; ++i){
			o.add(i, (unsigned)i);
			if(t < 50) for(unsigned j = 0; j < N && (int)j <= i; ++j) REQUIRE(o[j] >= 0 && o[j] <= i && k[j] == o[j], "slot %u holds %d, elements 0 to %d were given", j, o[j], i);
			if(i < (int)N) REQUIRE(o[i] == i, "element %d is not put at slot %d while the sample is not full", i, i);
		}
		set<int> d; bool a = false, b = false;
		for(unsigned j = 0; j < N; ++j){ int const e = o[j]; REQUIRE(e >= 0 && e < LEN, "the sample holds something that was not given"); ++in[e]; sumpos += e; d.insert(e); if(e == LEN - 1) ++slot[j]; a |= e == 0; b |= e == LEN - 1; }
		REQUIRE(d.size() == N, "an element is sampled twice"); both += a && b;
	}
	double const p = (double)N / LEN;
	for(int i = 0; i < LEN; ++i){ zcheck(c, in[i], T, p, "element %d of %d is in the chained sample of %u", i, LEN, N); c.see((uint64_t)in[i]); }
	double const mean = (LEN - 1) / 2.0, var1 = N * ((double)LEN * LEN - 1) / 12 * ((double)(LEN - (int)N) / (LEN - 1));
	double const z = (sumpos - (double)T * N * mean) / sqrt(T * var1); c.ev();
	REQUIRE(fabs(z) <= 7, "the mean position of the sampled elements is %.4f, expected %.4f (z = %.1f)", sumpos / T / N, mean, z);
	if(N > 1) zcheck(c, both, T, p * (N - 1.0) / (LEN - 1.0), "the first and the last of %d elements are both in the sample of %u", LEN, N);
	for(unsigned j = 0; j < N; ++j) zcheck(c, slot[j], T, 1.0 / LEN, "the last element is at slot %u of %u", j, N);
	stat("streams_sampled", T); stat("elements_offered", (double)T * LEN);
	c.sample("%u of %d, %d streams: first element sampled %.0f times, last %.0f, expected %.1f", N, LEN, T, in[0], in[LEN - 1], T * p);
}
// The element that takes over an obsolete one is drawn uniformly among the N elements that follow it.
template<unsigned N> static void successor(Case& c){
	int const T = scale(c, N > 100 ? 4000 : 60000); Source src(c.r.next()); UseSource u(src); vector<double> got(N, 0); double kept = 0;
	for(int t = 0; t < T; ++t){
		FreeBlocks fb; ChainedReservoirSampling<int, N, Fn> o; int pos = 0;
		for(unsigned i = 0; i < N; ++i) o.add(pos++, 1);
		for(unsigned i = 0; i < N + c.r.below(N); ++i) o.add(pos++, 2);
		bool const mine = o[N - 1] == (int)N - 1; int const before = o[N - 1];
		o.obsolete(1);
		int const s = o[N - 1];
		if(!mine){ REQUIRE(s == before, "an element that is not obsolete is discarded"); continue; }
		++kept; REQUIRE(s >= (int)N && s < 2 * (int)N, "element %u is followed by element %d, not one of the %u next ones", N - 1, s, N); ++got[s - N];
	}
	for(unsigned j = 0; j < N; ++j){ zcheck(c, got[j], kept, 1.0 / N, "the successor of an element is the one added %u after it (sample of %u)", j + 1, N); c.see((uint64_t)got[j]); }
	double high = 0; for(unsigned j = N / 2; j < N; ++j) high += got[j]; zcheck(c, high, kept, (N - N / 2) / (double)N, "the successor of an element is in the second half of the %u next ones", N);
	stat("successors_observed", kept); c.sample("sample of %u: %.0f successors, the first candidate %.0f times", N, kept, got[0]);
}
// The same for an element accepted when the sample was full
template<unsigned N> static void successor_late(Case& c){
	int const T = scale(c, 60000); Source src(c.r.next()); UseSource u(src); vector<double> got(N, 0); double kept = 0;
	for(int t = 0; t < T; ++t){
		FreeBlocks fb; ChainedReservoirSampling<int, N, Fn> o; int pos = 0, const_pos = N + 1 + c.r.below(3);
		for(; pos < const_pos;) o.add(pos++, 1);
		int slot = -1; for(unsigned j = 0; j < N; ++j) if(o[j] == pos - 1) slot = j;
		if(slot < 0) continue;
		for(unsigned i = 0; i < N; ++i) o.add(pos++, 2);
		if(o[slot] != const_pos - 1) continue;
		o.obsolete(1); int const s = o[slot]; ++kept;
		REQUIRE(s >= const_pos && s < const_pos + (int)N, "element %d is followed by element %d", const_pos - 1, s); ++got[s - const_pos];
	}
	for(unsigned j = 0; j < N; ++j){ zcheck(c, got[j], kept, 1.0 / N, "the successor of an element accepted in a full sample is the one added %u after it (sample of %u)", j + 1, N); c.see((uint64_t)got[j]); }
	stat("successors_observed", kept); c.sample("sample of %u, late element: %.0f successors", N, kept);
}
TEST(chained){
	void (*f[])(Case&) = { chain_uniform<1, 8>, chain_uniform<3, 15>, chain_uniform<8, 9>, chain_uniform<5, 60>, chain_uniform<20, 100>, successor<1>, successor<2>, successor<5>, successor<16>, successor_late<2>, successor_late<6>, chain_uniform<2, 400>, successor<300>, chain_uniform<300, 700> };
	f[c.index % 14](c);
}
#endif
//---------------------------------------------------------------- R05 obsolescence
#ifdef G_OBSOLETE
template<class E, unsigned N> static void obsolete(Case& c){
	FreeBlocks fb; Source src(c.r.next(), c.r.below(3) ? 0 : c.r.below(5), true); UseSource u(src);
	ChainedReservoirSampling<E, N, Fn> o; vector<unsigned> ts; vector<pair<size_t, long>> waiting(N, make_pair((size_t)0, 0L)); // elements given, and threshold, when the slot last kept an obsolete element
	uint64_t discarded = 0, calls = 0, guaranteed = 0, awaited = 0;
	unsigned now = c.r.below(4) == 0 ? 4294967295u - 4000 : c.r.below(3); int const n = 1 + c.r.below(scale(c, 40 * N + 300)); int const speed = c.r.below(4); long last_obsolete = -1;
	int const every = 1 + c.r.below(3 * N + 10);
	auto look = [&](char const* what){
		for(unsigned j = 0; j < N && j < ts.size(); ++j){
			uint64_t const e = key(o[j]); c.ev();
			REQUIRE(e < ts.size(), "slot %u holds %llu after %s, which is not one of the %zu elements given", j, (unsigned long long)e, what, ts.size());
		}
	};
	for(int i = 0; i < n; ++i){
		vector<uint64_t> before; for(unsigned j = 0; j < N && j < ts.size(); ++j) before.push_back(key(o[j]));
		if(ts.size() && c.r.below(every) == 0){
			long t; switch(c.r.below(5)){ case 0: t = now; break; case 1: t = ts[c.r.below(ts.size())]; break; case 2: t = (long)now - 1 - c.r.below(N + 3); break; case 3: { size_t const b = ts.size() > 2 * N ? ts.size() - 2 * N : 0; t = (long)ts[b + c.r.below(ts.size() - b)] - 1; break; } default: t = ts.size() > N ? (long)ts[ts.size() - N] - 1 : 0; }
			if(t < 0) t = 0;
			o.obsolete((unsigned)t); ++calls; last_obsolete = max(last_obsolete, t); look("obsolete()");
			size_t fresh = 0; while(fresh < ts.size() && ts[ts.size() - 1 - fresh] > (unsigned long)t) ++fresh;
			for(unsigned j = 0; j < before.size(); ++j){
				uint64_t const e = key(o[j]), b = before[j];
				if(ts[b] > (unsigned long)t) REQUIRE(e == b, "obsolete(%ld) discards the element of timestamp %u at slot %u", t, ts[b], j);
				else{
					if(e == b) waiting[j] = make_pair(ts.size(), t);
					else{
						// what it had then was all obsolete, or it had nothing: only an element given since then can take over
						if(waiting[j].first && t >= waiting[j].second){ ++awaited; REQUIRE(e >= waiting[j].first, "obsolete(%ld) replaces element %llu by element %llu at slot %u, which an earlier call kept when %zu elements were given", t, (unsigned long long)b, (unsigned long long)e, j, waiting[j].first); }
						waiting[j].first = 0;
						++discarded; REQUIRE(ts[e] > (unsigned long)t && e > b, "obsolete(%ld) replaces element %llu by element %llu of timestamp %u, at slot %u", t, (unsigned long long)b, (unsigned long long)e, ts[e], j); }
					if(fresh >= N){ ++guaranteed; REQUIRE(ts[e] > (unsigned long)t, "slot %u still shows timestamp %u after obsolete(%ld), although the last %zu elements are later (sample of %u)", j, ts[e], t, fresh, N); }
				}
			}
			c.see(t);
		}
		else{
			unsigned const d = speed == 0 ? 0 : speed == 1 ? 1 : c.r.below(speed * 2); if(now < 4294967295u - d) now += d;
			uint64_t const id = ts.size(); ts.push_back(now); o.add(E(id), now); look("add()");
			for(unsigned j = 0; j < before.size(); ++j){ REQUIRE(key(o[j]) == before[j] || key(o[j]) == id, "the addition of element %llu puts element %llu at slot %u", (unsigned long long)id, (unsigned long long)key(o[j]), j); if(key(o[j]) != before[j]) waiting[j].first = 0; }
		}
	}
	for(unsigned j = 0; j < N && j < ts.size(); ++j) c.see(key(o[j]));
	stat("elements", ts.size()); stat("obsolete_calls", calls); stat("elements_discarded", discarded); stat("slots_with_guaranteed_replacement", guaranteed); stat("slots_replaced_after_waiting", awaited); stat("cells_allocated", g_mallocs);
	c.sample("sample of %u, %zu elements, %llu obsolete() calls, %llu discarded", N, ts.size(), (unsigned long long)calls, (unsigned long long)discarded);
}
// a chain longer than any fixed length
static void long_chain(Case& c){
	FreeBlocks fb; const unsigned N = 2; Source src(c.r.next()); UseSource u(src); ChainedReservoirSampling<int, N, Fn> o; int const n = c.r.below(c.thorough ? 8 : 24) ? 20000 : 140000;
	for(int i = 0; i < n; ++i) o.add(i, i + 1);
	unsigned t = 0; int steps = 0;
	for(; t < (unsigned)n - N; t += 1 + c.r.below(n / 10), ++steps){ o.obsolete(t); for(unsigned j = 0; j < N; ++j){ c.ev(); REQUIRE(o[j] >= (int)t && o[j] < n, "slot %u shows element %d after obsolete(%u)", j, o[j], t); } }
	o.obsolete(n - N); for(unsigned j = 0; j < N; ++j) REQUIRE(o[j] >= n - (int)N && o[j] < n, "slot %u shows element %d after obsolete(%d)", j, o[j], n - N);
	c.see(g_mallocs); stat("cells_allocated", g_mallocs); c.sample("%d elements in a sample of %u, %llu cells", n, N, (unsigned long long)g_mallocs);
}
// More slots than a byte or a short can number: every slot follows the window
template<unsigned N> static void obsolete_wide(Case& c){
	FreeBlocks fb; Source src(c.r.next()); UseSource u(src); typedef ChainedReservoirSampling<int, N, Fn> Obj; unique_ptr<Obj> h(new Obj()); Obj& o = *h; int const n = 2 * N + c.r.below(N);
	uint64_t high = 0, changed = 0; vector<int> shown;
	for(int i = 0; i < n; ++i){ o.add(i, i + 1); if(i < (int)N){ c.ev(); REQUIRE(o[i] == i, "element %d is not put at slot %d while the sample is not full", i, i); } }
	for(unsigned j = 0; j < N; ++j){ int const e = o[j]; c.ev(); REQUIRE(e >= 0 && e < n && (e >= (int)N || e == (int)j), "slot %u shows element %d", j, e); if(e >= (int)N){ ++changed; high += j >= N / 2; } shown.push_back(e); }
	zcheck(c, high, changed, (N - N / 2) / (double)N, "a slot replaced is in the upper half of the %u slots", N);
	for(int step = 0; step < 2; ++step){
		unsigned const t = n - (step ? N : N + c.r.below(N)); o.obsolete(t);
		for(unsigned j = 0; j < N; ++j){ int const e = o[j]; c.ev(); REQUIRE(e >= (int)t && e < n, "slot %u shows element %d after obsolete(%u)", j, e, t); if(shown[j] >= (int)t) REQUIRE(e == shown[j], "obsolete(%u) discards element %d of slot %u", t, shown[j], j); shown[j] = e; }
	}
	c.see(changed); stat("elements", n); stat("cells_allocated", g_mallocs); c.sample("sample of %u, %d elements, %llu slots replaced", N, n, (unsigned long long)changed);
}
TEST(wide){ void (*f[])(Case&) = { obsolete_wide<300>, obsolete_wide<900>, obsolete_wide<40000>, obsolete_wide<300> }; f[c.index % 4](c); }
TEST(obsolete){ void (*f[])(Case&) = { obsolete<int, 1>, obsolete<uint64_t, 2>, obsolete<int, 4>, obsolete<double, 7>, obsolete<int, 30> }; if(c.index % 16 == 15) long_chain(c); else f[c.index % 5](c); }
#endif
#include "main.inc"
