#include "common.hpp"
#include "alloc.hpp"
#include "bloom_filter.hpp"
#include "generic.hpp"
using namespace vf;

struct Big{ int a; double b; char c[24]; };
template<class T> struct Elem;
template<> struct Elem<int>{ static int make(uint64_t k){ return (int)k - 3; } static uint64_t key(int e){ return (uint64_t)(e + 3); } };
template<> struct Elem<double>{ static double make(uint64_t k){ return (double)k * 0.5 - 7; } static uint64_t key(double e){ return (uint64_t)((e + 7) * 2 + 0.5); } };
template<> struct Elem<unsigned char>{ static unsigned char make(uint64_t k){ return (unsigned char)k; } static uint64_t key(unsigned char e){ return e; } };
template<> struct Elem<Big>{
	static Big make(uint64_t k){ Big b; b.a = (int)(k * 3); b.b = (double)k; memset(b.c, (int)(k & 0xff), sizeof b.c); return b; }
	static uint64_t key(Big const& b){ return (uint64_t)b.b; } };

// The k-th hash function: mostly scattered, with the two extreme positions over-represented
static unsigned position(uint64_t key, int k, int bits, int family){
	uint64_t const m = mix64(key * 131 + k + 1000 * family);
	switch(m % 11){
		case 0: return 0; case 1: return bits - 1; case 2: return (unsigned)(bits / 2);
		default: return (unsigned)((m >> 8) % (uint64_t)bits);
	}
}
template<class T, int N, int K> struct Hashes{
	template<int I, int S> static unsigned h(T* e){ return position(Elem<T>::key(*e), I, N, S); }
	typedef unsigned (*F)(T*);
	template<int I, int S> struct Fill{ static void run(F* f){ f[I - 1] = h<I - 1, S>; Fill<I - 1, S>::run(f); } };
	template<int S> struct Fill<0, S>{ static void run(F*){} };
	// three families of functions: filters of a type do not have to use the same
	static void fill(F* f, int family){ if(family == 0) Fill<K, 0>::run(f); else if(family == 1) Fill<K, 1>::run(f); else Fill<K, 2>::run(f); }
};
template<class T, int N, int K> struct Bloom: Defaults{
	typedef BloomFilter<T, N, K> Obj; typedef Hashes<T, N, K> H;
	static const bool assigns = false;
	static int universe(){ return sizeof(T) == 1 ? 256 : N < 64 ? 40 : N / 2 + 20; }
	static size_t budget(){ return (N + 7) / 8 + K * sizeof(void*) + 32; }
	static Obj* construct(void* p, Rng& cfg, int* family = nullptr){ typename H::F f[K]; int const used = cfg.below(3); if(family) *family = used; H::fill(f, used); Obj* o = new(p) Obj(f); for(int i = 0; i < K; ++i) f[i] = nullptr; return o; }
	static void mutate(Obj& o, Rng& r, Hash& h){
		int const k = r.below(60);
		if(k == 0) o.clear();
		else if(k == 1){ unsigned char b[(N + 7) / 8]; for(unsigned char& x: b){ x = 0; for(int i = 0; i < 8; ++i) x |= (r.below(4) == 0) << i; } o.set(b); }
		else{ T e = Elem<T>::make(r.below(universe())); if(k & 1) o.add(e); else o.add(&e); }
		h.add(k);
	}
	static void query(Obj& o, Rng& r, Hash& h){ for(int i = 0; i < 6; ++i){ T e = Elem<T>::make(r.below(universe())); h.add(r.below(2) ? o.lookup(e) : o.lookup(&e)); } }
	static int ops(){ return 50; }

	static void model(Case& c){
		Rng cfg(c.r.next()); int family; Slot<Obj> s(c.r.below(2) ? 0xFF : 0x00); s.p = construct(s.raw, cfg, &family); Obj& o = *s.p;
		Slot<Obj> beside(0x5A); bool const two = c.r.below(2); if(two) beside.p = construct(beside.raw, cfg); Rng script(c.r.next()); // another filter of the type in use
		vector<bool> bits(N, false); set<uint64_t> in; // the elements added since the last clear or set
		int const n = 1 + c.r.below(scale(c, c.r.chance(0.3) ? 400 : 60)), U = universe();
		// queries with many absent elements when the filter is sparse
		uint64_t yes = 0, no = 0, fp = 0; int wide = N > 4096 ? 20 : 1;
		for(int i = 0; i < n; ++i){
			if(two && c.r.below(3) == 0){ Hash h; mutate(*beside.p, script, h); query(*beside.p, script, h); }
			int const k = c.r.below(50);
			if(k == 0){ o.clear(); bits.assign(N, false); in.clear(); }
			else if(k == 1 && N <= 4096){
				vector<unsigned char> b((N + 7) / 8); double const d = c.r.u01(); // the bits of a byte, from the least significant
				for(int j = 0; j < N; ++j) b[j / 8] |= c.r.chance(d) << j % 8;
				vector<unsigned char> keep = b; o.set(b.data());
				REQUIRE(b == keep, "set() modified the bits given");
				for(int j = 0; j < N; ++j) bits[j] = b[j / 8] >> j % 8 & 1;
				fill(b.begin(), b.end(), 0); in.clear();
			}
			else for(int w = 0; w < wide; ++w){
				uint64_t const key = c.r.below(U); T e = Elem<T>::make(key);
				if(c.r.below(2)) o.add(e); else{ T keep = e; o.add(&e); REQUIRE(!memcmp(&keep, &e, sizeof(int) < sizeof(T) ? sizeof(int) : sizeof(T)), "add() modified its element"); }
				for(int j = 0; j < K; ++j) bits[position(key, j, N, family)] = true;
				in.insert(key);
			}
			int const q = i + 1 == n ? U : 8;
			for(int j = 0; j < q; ++j){
				uint64_t const key = i + 1 == n ? j : c.r.below(U); T e = Elem<T>::make(key);
				bool expected = true; for(int t = 0; t < K; ++t) if(!bits[position(key, t, N, family)]) expected = false;
				bool const got = c.r.below(2) ? o.lookup(e) : o.lookup(&e);
				c.ev(); (got ? yes : no)++; if(got && !in.count(key)) ++fp;
				REQUIRE(got || !in.count(key), "false negative: element %llu was added (bits %d, hashes %d)", (unsigned long long)key, N, K);
				REQUIRE(got == expected, "lookup of element %llu gives %d, its positions are %sall set (bits %d, hashes %d)", (unsigned long long)key, got, expected ? "" : "not ", N, K);
				c.see(got);
			}
			c.see(k);
		}
		c.see(N * 64 + K); stat("lookups_true", yes); stat("lookups_false", no); stat("lookups_false_positive", fp);
		if(!yes && !no) c.trivial = true;
		c.sample("bits %d hashes %d: %d operations, %llu lookups true, %llu false", N, K, n, (unsigned long long)yes, (unsigned long long)no);
	}
};
typedef Bloom<int, 1, 1> A1; typedef Bloom<int, 7, 2> A2; typedef Bloom<int, 8, 1> A3; typedef Bloom<double, 9, 3> A4; typedef Bloom<Big, 64, 2> A5;
typedef Bloom<int, 100, 4> A6; typedef Bloom<int, 257, 3> A7; typedef Bloom<Big, 300, 12> A8; typedef Bloom<unsigned char, 65, 2> A9; typedef Bloom<int, 1000, 5> A10;
typedef Bloom<double, 70001, 3> A11; typedef Bloom<int, 255, 1> A12; typedef Bloom<int, 4096, 33> A13;
#define ALL A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13
template<class... Ks> static void models(Case& c){ void (*f[])(Case&) = { Ks::model... }; f[c.index % sizeof...(Ks)](c); }
#ifdef G_MODEL
TEST(model){ models<ALL>(c); }
// Filters of many bits and hash functions: positions beyond 16 and 24 bits, more than 255 functions
template<class T, int N, int K> static void wide(Case& c){
	typedef Bloom<T, N, K> B; Rng cfg(c.r.next()); int family; unique_ptr<Slot<typename B::Obj>> s(new Slot<typename B::Obj>(0xFF)); s->p = B::construct(s->raw, cfg, &family); typename B::Obj& o = *s->p;
	vector<bool> bits(N, false); vector<uint64_t> in; int const n = 1 + c.r.below(K > 100 ? 3000 : 30000); uint64_t yes = 0, no = 0; int const wipe = c.r.below(4) ? -1 : c.r.below(n);
	for(int i = 0; i < n; ++i){
		if(i == wipe){ o.clear(); bits.assign(N, false); in.clear(); }
		uint64_t const key = c.r.next() >> 33; T e = Elem<T>::make(key); if(i & 1) o.add(e); else o.add(&e); in.push_back(key); for(int j = 0; j < K; ++j) bits[position(Elem<T>::key(e), j, N, family)] = true; }
	for(uint64_t key: in){ T e = Elem<T>::make(key); c.ev(); REQUIRE(o.lookup(e), "false negative: element %llu was added (bits %d, hashes %d)", (unsigned long long)key, N, K); }
	for(int i = 0; i < 4 * n; ++i){
		uint64_t const key = c.r.next() >> 33; T e = Elem<T>::make(key); bool expected = true; for(int j = 0; j < K && expected; ++j) expected = bits[position(Elem<T>::key(e), j, N, family)];
		bool const got = o.lookup(&e); c.ev(); (got ? yes : no)++; REQUIRE(got == expected, "lookup of element %llu gives %d, its positions are %sall set (bits %d, hashes %d)", (unsigned long long)key, got, expected ? "" : "not ", N, K);
	}
	c.see(n); c.see(yes); stat("lookups_true", yes + in.size()); stat("lookups_false", no); c.sample("bits %d hashes %d: %zu elements, %llu of %d others found", N, K, in.size(), (unsigned long long)yes, 4 * n);
}
TEST(wide){ void (*f[])(Case&) = { wide<int, 600001, 300>, wide<double, 40000003, 4>, wide<Big, 5000, 700>, wide<int, 3000001, 9>, wide<int, 300000007, 3> }; f[c.r.below(c.index % 8 ? 4 : 5)](c); }
#endif
GENERIC(ALL) GENERIC_COPY(ALL) GENERIC_ALLOC(ALL)
#include "main.inc"
