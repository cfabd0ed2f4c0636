#include "common.hpp"
#include "alloc.hpp"
#include "cuckoo_filter.hpp"
#include "generic.hpp"
using namespace vf;

static double draw(){ return g_random->draw(); }
struct Item{ unsigned id; char pad[12]; };
static uint64_t id_of(int e){ return (unsigned)e; }
static uint64_t id_of(Item const& e){ return e.id; }
template<class T> static T item(uint64_t k);
template<> int item<int>(uint64_t k){ return (int)k; }
template<> Item item<Item>(uint64_t k){ Item i; memset(&i, 0, sizeof i); i.id = (unsigned)k; i.pad[3] = (char)k; return i; }

template<class T, int BUCKETS, int ENTRY, int EMPTY> struct Functions{
	static unsigned char fingerprint(T const* e){
		unsigned const values = 1u << ENTRY;
		unsigned fp = (unsigned)(mix64(id_of(*e) * 7 + 1) % (values - 1)); // values - 1 of them: not the empty one
		return (unsigned char)(fp >= (unsigned)(EMPTY & (values - 1)) ? fp + 1 : fp);
	}
	static unsigned int hash(T const* e){ return (unsigned)(mix64(id_of(*e) * 13 + 5) % BUCKETS); }
	// the user's function may take the fingerprint as any unsigned number
	static unsigned int hash(typename conditional<is_same<T, int>::value, unsigned char, unsigned int>::type fp){ return (unsigned)(mix64(fp * 1000003ull + 77) % BUCKETS); }
};
template<class T, int BUCKETS, int SIZE, int ENTRY, int EMPTY> struct Cuckoo: Defaults{
	typedef Functions<T, BUCKETS, ENTRY, EMPTY> F;
	typedef CuckooFilter<T, BUCKETS, SIZE, ENTRY, F, draw, EMPTY> Obj;
	static const bool closed = true, assigns = false;
	static const int capacity = BUCKETS * SIZE;
	static int universe(){ return capacity * 2 + 3; }
	static int ops(){ return 40 + min(capacity / 8, 40); }
	static size_t budget(){ return ((size_t)capacity * ENTRY + 7) / 8 + 32; }
	static Obj* construct(void* p, Rng&){ return new(p) Obj(); }
	static void mutate(Obj& o, Rng& r, Hash& h){
		int const k = r.below(40);
		if(k == 0) o.clear();
		else for(int w = 0; w < 1 + capacity / 80; ++w){
			T e = item<T>(r.below(universe()));
			if(k < 28) h.add((k & 1) ? o.add(e) : o.add(&e)); else if(k & 1) o.remove(e); else o.remove(&e);
		}
	}
	static void query(Obj& o, Rng& r, Hash& h){ for(int i = 0; i < 8; ++i){ T e = item<T>(r.below(universe())); h.add((i & 1) ? o.lookup(e) : o.lookup(&e)); } }

	// Two elements are the same to the filter when they have the same fingerprint and the same pair of buckets.
	typedef pair<int, pair<int, int>> Class;
	static Class class_of(T const& e){
		int const fp = F::fingerprint(&e), a = F::hash(&e), b = a ^ (int)F::hash((unsigned char)fp);
		return { fp, { min(a, b), max(a, b) } };
	}
	struct Model{
		map<Class, int> count; vector<int> touching; int total = 0;
		Model(): touching(BUCKETS, 0){}
		int get(Class const& k) const{ auto it = count.find(k); return it == count.end() ? 0 : it->second; }
		void change(Class const& k, int d){
			count[k] += d; total += d; touching[k.second.first] += d; if(k.second.first != k.second.second) touching[k.second.second] += d;
		}
	};
	static bool look(Case& c, Obj& o, T& e){ return c.r.below(2) ? o.lookup(e) : o.lookup(&e); }
	static bool put(Case& c, Obj& o, T& e){ return c.r.below(2) ? o.add(e) : o.add(&e); }
	static void del(Case& c, Obj& o, T& e){ if(c.r.below(2)) o.remove(e); else o.remove(&e); }
	static Source make_source(Case& c){ return Source(c.r.next(), c.r.below(3) ? 0 : c.r.below(5), true); }
	static void drain(Case& c, Obj& o, Model const& m, map<Class, T> const& rep, map<Class, int>& left){
		for(auto const& kv: rep){
			T e = kv.second; int n = 0;
			while(look(c, o, e)){ REQUIRE(n <= capacity, "an element is still found after it was removed %d times", n); del(c, o, e); ++n; }
			left[kv.first] = n; c.ev();
		}
	}
	// K01: as long as every add succeeded the filter is an exact multiset of (fingerprint, buckets)
	static void model(Case& c){
		Slot<Obj> s(c.r.below(2) ? 0xFF : 0x00); Source src = make_source(c); UseSource u(src); Rng cfg(0); s.p = construct(s.raw, cfg); Obj& o = *s.p;
		Model m; map<Class, T> rep; int const n = 1 + c.r.below(scale(c, 60 + capacity)), U = c.r.below(2) ? universe() : 1 + c.r.below(universe());
		double const fill = c.r.real(0.4, 1.0); uint64_t adds = 0, removes = 0, found = 0; bool full = false;
		for(int i = 0; i < n && !full; ++i){
			T e = item<T>(c.r.below(U)); Class const k = class_of(e); rep.insert({ k, e });
			int const what = c.r.below(100);
			if(what == 0 && c.r.below(3) == 0){ o.clear(); m = Model(); }
			else if(what < 65 && m.total < fill * capacity){
				T keep = e;
				if(put(c, o, e)){ m.change(k, 1); ++adds; }
				else{ full = true; break; } // K02 looks at what happens then
				REQUIRE(id_of(keep) == id_of(e), "add modified its element");
			}
			else if(what < 85 || m.total >= fill * capacity){
				if(!m.get(k) && c.r.below(4)){ // prefer an element that is there
					for(auto const& kv: rep) if(m.get(kv.first) && c.r.below(4) == 0){ e = kv.second; break; }
				}
				Class const kr = class_of(e); del(c, o, e);
				if(m.get(kr)) m.change(kr, -1);
				++removes;
			}
			for(int j = 0; j < 4; ++j){
				T q = j == 0 ? e : item<T>(c.r.below(U)); Class const kq = class_of(q);
				bool const got = look(c, o, q), expected = m.get(kq) > 0; c.ev(); found += got;
				REQUIRE(got || !expected, "false negative: element %llu (fingerprint %d) has %d additions not removed, and is not found; %d of %d entries used", (unsigned long long)id_of(q), kq.first, m.get(kq), m.total, capacity);
				REQUIRE(!got || expected, "element %llu (fingerprint %d) is found, but nothing with its fingerprint and buckets is in the filter; %d of %d entries used", (unsigned long long)id_of(q), kq.first, m.total, capacity);
			}
			c.see(what); c.see(m.total);
		}
		if(!full){
			for(auto const& kv: rep){ T e = kv.second; c.ev(); REQUIRE(look(c, o, e) == (m.get(kv.first) > 0), "element %llu: lookup disagrees with the %d additions not removed", (unsigned long long)id_of(e), m.get(kv.first)); }
			map<Class, int> left; drain(c, o, m, rep, left);
			for(auto const& kv: left) REQUIRE(kv.second == m.get(kv.first), "%d removals were needed for %d additions (fingerprint %d)", kv.second, m.get(kv.first), kv.first.first);
		}
		c.see(adds); stat("adds", adds); stat("removals", removes); stat("lookups_true", found);
		if(!adds) c.trivial = true;
		c.sample("%d buckets x %d entries of %d bits, empty value %d: %llu additions, %llu removals, %d left", BUCKETS, SIZE, ENTRY, EMPTY, (unsigned long long)adds, (unsigned long long)removes, m.total);
	}
	// K02: room in a candidate bucket => accepted; a refusal loses at most one fingerprint
	static void room(Case& c){
		Slot<Obj> s(0xFF); Source src = make_source(c); UseSource u(src); Rng cfg(0); s.p = construct(s.raw, cfg); Obj& o = *s.p;
		Model m; map<Class, T> rep; int fails = 0, adds = 0; int const max_fail = 1 + c.r.below(3), U = c.r.below(3) ? universe() : 1 + c.r.below(universe());
		vector<bool> doubt; // after a refusal the model is an upper bound
		for(int i = 0; i < 4 * capacity + 20 && fails < max_fail; ++i){
			T e = item<T>(c.r.below(U)); Class const k = class_of(e); rep.insert({ k, e });
			if(!fails && c.r.below(6) == 0 && m.get(k)){ del(c, o, e); m.change(k, -1); continue; }
			bool const room = m.touching[k.second.first] < SIZE || m.touching[k.second.second] < SIZE;
			bool const ok = put(c, o, e); c.ev();
			REQUIRE(ok || !room, "add refused although a bucket of the element has room (at most %d and %d of %d entries used)", m.touching[k.second.first], m.touching[k.second.second], SIZE);
			m.change(k, 1); // accepted, or put in place of another one
			if(ok) ++adds; else ++fails;
			REQUIRE(m.total - fails <= capacity, "%d elements accepted, the filter has %d entries", m.total - fails, capacity);
			c.see(ok);
		}
		map<Class, int> left; drain(c, o, m, rep, left); int missing = 0, kept = 0;
		for(auto const& kv: left){
			int const d = m.get(kv.first) - kv.second; kept += kv.second;
			REQUIRE(d >= 0, "%d entries for %d additions (fingerprint %d)", kv.second, m.get(kv.first), kv.first.first);
			missing += d;
		}
		REQUIRE(missing <= fails, "%d fingerprints lost by %d refused additions", missing, fails);
		c.see(kept); stat("adds_accepted", adds); stat("adds_refused", fails); stat("fingerprints_lost", missing);
		c.sample("%d buckets x %d: %d accepted, %d refused, %d lost", BUCKETS, SIZE, adds, fails, missing);
	}
};
typedef Cuckoo<int, 1, 1, 1, 0> C1; typedef Cuckoo<int, 2, 2, 2, 0> C2; typedef Cuckoo<Item, 4, 4, 3, 7> C3; typedef Cuckoo<int, 16, 4, 8, 0> C4; typedef Cuckoo<int, 16, 3, 5, 31> C5;
typedef Cuckoo<Item, 64, 4, 7, 0> C6; typedef Cuckoo<Item, 256, 4, 8, 0> C7; typedef Cuckoo<int, 8, 1, 8, 255> C8; typedef Cuckoo<Item, 32, 2, 6, 1> C9; typedef Cuckoo<Item, 512, 5, 8, 128> C10;
typedef Cuckoo<int, 4, 8, 4, 0> C11; typedef Cuckoo<int, 1024, 10, 8, 0> C12; typedef Cuckoo<int, 1, 6, 8, 0> C13;
#define ALL C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11, C12, C13
#define SMALL C1, C2, C3, C4, C5, C6, C8, C9, C11, C13, C7
template<class... Ks> static void models(Case& c){ void (*f[])(Case&) = { Ks::model... }; f[c.index % sizeof...(Ks)](c); }
template<class... Ks> static void rooms(Case& c){ void (*f[])(Case&) = { Ks::room... }; f[c.index % sizeof...(Ks)](c); }
#ifdef G_MODEL
TEST(model){ models<ALL>(c); }
#endif
#ifdef G_ROOM
TEST(room){ rooms<ALL>(c); }
// With well spread hashes and distinct elements, the first refusal comes when the filter is nearly full.
template<int BUCKETS, int SIZE> static double load(Case& c){
	typedef Cuckoo<int, BUCKETS, SIZE, 8, 0> K; Source src(c.r.next(), 0, false); UseSource u(src);
	Slot<typename K::Obj> s(0); Rng cfg(0); s.p = K::construct(s.raw, cfg); int n = 0; unsigned const base = (unsigned)c.r.below(1 << 20);
	while(n < K::capacity && s.p->add((int)(base + n * 7))) ++n;
	c.ev(n); c.see(n); stat("fills_until_refusal"); return (double)n / K::capacity;
}
// Filters of many buckets and bits
template<int BUCKETS, int SIZE, int ENTRY> static void large(Case& c){
	typedef Cuckoo<int, BUCKETS, SIZE, ENTRY, 0> K; Source src(c.r.next(), 0, false); UseSource u(src); Slot<typename K::Obj> s(0xFF); Rng cfg(0); s.p = K::construct(s.raw, cfg); typename K::Obj& o = *s.p; typename K::Model m; map<typename K::Class, int> rep;
	unsigned const base = (unsigned)c.r.below(1 << 20); int const n = K::capacity * c.r.real(0.1, ENTRY == 8 ? 0.7 : ENTRY == 7 ? 0.3 : 0.06); int added = 0; uint64_t found = 0;
	for(; added < n; ++added){ int e = (int)(base + added * 7u); if(!o.add(e)) break; m.change(K::class_of(e), 1); rep[K::class_of(e)] = e; }
	if(added < n){ c.trivial = true; c.ev(); stat("fills_refused"); return; }
	for(int i = 0; i < n; ++i){ int e = (int)(base + i * 7u); c.ev(); REQUIRE(o.lookup(e), "element %d of %d is not found (%d buckets of %d)", i, n, BUCKETS, SIZE); }
	for(int i = 0; i < n; ++i){ int e = (int)(c.r.next() & 0x7fffffff); c.ev(); bool const got = o.lookup(e); found += got; REQUIRE(got == (m.get(K::class_of(e)) > 0), "lookup of an element gives %d, %d additions have its fingerprint and buckets (%d buckets of %d)", got, m.get(K::class_of(e)), BUCKETS, SIZE); }
	for(auto const& k: rep){ int const times = m.get(k.first); int e = k.second; for(int j = 0; j < times; ++j){ c.ev(); REQUIRE(o.lookup(e), "an element is not found after %d of %d removals (%d buckets of %d)", j, times, BUCKETS, SIZE); o.remove(e); } REQUIRE(!o.lookup(e), "an element is found after all its removals (%d buckets of %d)", BUCKETS, SIZE); }
	stat("adds", n); stat("false_positives", found); c.see(found); c.see(n); c.sample("%d buckets x %d entries of %d bits: %d elements, %llu of as many others found", BUCKETS, SIZE, ENTRY, n, (unsigned long long)found);
}
TEST(large){ void (*f[])(Case&) = { large<131072, 2, 8>, large<16384, 4, 7>, large<262144, 1, 5>, large<4096, 40, 8>, large<64, 300, 8> }; f[c.index % 5](c); }
TEST(load){
	double const four = load<256, 4>(c), two = load<512, 2>(c), eight = load<64, 8>(c);
	c.sample("load at the first refusal: bucket size 4: %.3f, 2: %.3f, 8: %.3f", four, two, eight);
	stat("load4_sum", four); stat("load2_sum", two); stat("load8_sum", eight);
	REQUIRE(four > 0.88, "an addition is refused with %.1f%% of the entries used (bucket size 4)", 100 * four);
	REQUIRE(eight > 0.9, "an addition is refused with %.1f%% of the entries used (bucket size 8)", 100 * eight);
	REQUIRE(two > 0.7, "an addition is refused with %.1f%% of the entries used (bucket size 2)", 100 * two);
}
#endif
GENERIC(SMALL) GENERIC_COPY(SMALL) GENERIC_ALLOC(ALL)
#include "main.inc"
