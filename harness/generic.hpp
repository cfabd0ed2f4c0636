// Monitors that apply to any component. A component K provides
//   typedef Obj; static Obj* construct(void*, Rng& cfg); static void mutate(Obj&, Rng&, Hash&);
//   static void query(Obj&, Rng&, Hash&); static bool closed (its random function may return 1),
//   copies, assigns, isolated, static size_t budget() (0: not checked), static int ops().
// mutate and query put all they observe in the Hash: this is the trace the monitors compare.
#pragma once
#include "common.hpp"
#ifdef G_THREADS
#include <atomic>
#include <thread>
#endif
namespace vf {
struct Defaults{
	static const bool closed = false, copies = true, assigns = true, isolated = true, allocates = false;
	static const bool readers = false; // whether its queries are const operations
	static size_t budget(){ return 0; }
	static int ops(){ return 60; }
};
// Memory of exactly the size of the object, filled with a pattern before the construction.
template<class T> struct Slot{
	unsigned char* raw = nullptr; T* p = nullptr;
	explicit Slot(int pattern){
		if(posix_memalign((void**)&raw, alignof(T) < sizeof(void*) ? sizeof(void*) : alignof(T), sizeof(T))) abort();
		#ifdef VF_UNDEF
		pattern = -1; // memcheck follows what has no value
#endif
		if(pattern >= 0) memset(raw, pattern, sizeof(T));
	}
	void destroy(int pattern = 0xDD){ if(p){ p->~T(); p = nullptr; memset(raw, pattern, sizeof(T)); } }
	~Slot(){ if(p) p->~T(); free(raw); }
	Slot(Slot const&) = delete;
};
struct UseSource{
	Source* old; explicit UseSource(Source& s): old(g_random){ g_random = &s; }
	~UseSource(){ g_random = old; }
};
typedef vector<uint64_t> Trace;
// One instance with its own configuration, script and random numbers.
template<class K> struct Actor{
	typedef typename K::Obj Obj;
	Slot<Obj> slot; Rng script; Source src; Trace trace; int fill;
	Actor(uint64_t cfg, uint64_t script_seed, uint64_t src_seed, int mode, int pattern, int stack)
		: slot(pattern), script(script_seed), src(src_seed, mode, K::closed), fill(stack){
		Rng c(cfg); UseSource u(src); if(fill >= 0) fill_stack((unsigned char)fill);
		slot.p = K::construct(slot.raw, c);
	}
	Actor(int pattern, int stack): slot(pattern), script(0), src(0), fill(stack){}
	void mutate(){ Hash h; UseSource u(src); if(fill >= 0) fill_stack((unsigned char)fill); K::mutate(*slot.p, script, h); trace.push_back(h.h); }
	void query(){ Hash h; UseSource u(src); if(fill >= 0) fill_stack((unsigned char)fill); K::query(*slot.p, script, h); trace.push_back(h.h); }
	void step(){ if(script.below(4) == 0) query(); else mutate(); }
	void run(int n){ for(int i = 0; i < n; ++i) step(); }
};
static inline void compare(Case& c, Trace const& a, Trace const& b, size_t n, char const* what){
	REQUIRE(a.size() >= n && b.size() >= n, "internal: short trace");
	for(size_t i = 0; i < n; ++i){ c.ev(); REQUIRE(a[i] == b[i], "%s: the results of operation %zu of %zu differ", what, i, n); c.see(a[i]); }
}
static inline int scale(Case& c, int n){ return c.thorough ? n * 3 : n; }

// Same configuration, inputs and random numbers => same results, whatever was in memory, on the stack, and
// whatever the other instances of the program do.
template<class K> void determinism(Case& c){
	uint64_t const cfg = c.r.next(), scr = c.r.next(), rnd = c.r.next(); int const mode = c.r.below(2), n = 1 + c.r.below(scale(c, K::ops()));
	Actor<K> a(cfg, scr, rnd, mode, 0x00, 0x00); a.run(n);
	{ Actor<K> b(cfg, scr, rnd, mode, 0xFF, 0xFF); b.run(n); compare(c, a.trace, b.trace, n, "memory filled with 0xFF instead of 0"); }
	{ Actor<K> b(cfg, scr, rnd, mode, 0x41, 0x3C); b.run(n); compare(c, a.trace, b.trace, n, "memory filled with 0x41 instead of 0"); }
	if(K::isolated){
		Actor<K> other(c.r.next(), c.r.next(), c.r.next(), c.r.below(2), 0xA5, -1); other.run(c.r.below(n + 1));
		Actor<K> b(cfg, scr, rnd, mode, 0x5A, -1);
		unique_ptr<Actor<K>> third;
		for(int i = 0; i < n; ++i){
			if(c.r.chance(0.6)) other.step();
			if(c.r.chance(0.1)) third.reset(new Actor<K>(c.r.next(), c.r.next(), c.r.next(), 0, 0x11, -1));
			if(third && c.r.chance(0.3)) third->step();
			b.step();
		}
		compare(c, a.trace, b.trace, n, "interleaved with other instances");
		stat("instances_interleaved", 2);
	}
	stat("operations_compared", 3.0 * n);
	c.sample("config seed %llx, %d operations, random mode %d, trace end %llx", (unsigned long long)cfg, n, mode, (unsigned long long)a.trace.back());
}
// Queries change nothing: the same history with additional queries has the same results.
template<class K> void read_only(Case& c){
	uint64_t const cfg = c.r.next(), scr = c.r.next(), rnd = c.r.next(); int const mode = c.r.below(2), n = 1 + c.r.below(scale(c, K::ops()));
	Actor<K> a(cfg, scr, rnd, mode, 0x00, -1), b(cfg, scr, rnd, mode, 0x00, -1);
	uint64_t extra = 0; Rng q(c.r.next());
	for(int i = 0; i < n; ++i){
		a.step();
		int const k = q.below(4);
		for(int j = 0; j < k; ++j){
			Rng q1 = q, q2 = q; Hash h1, h2; UseSource u(b.src);
			K::query(*b.slot.p, q1, h1);
			Rng burn = q1; Hash hb; K::query(*b.slot.p, burn, hb); // another query between the two
			K::query(*b.slot.p, q2, h2);
			c.ev(); REQUIRE(h1.h == h2.h, "the same query gives two results without a change in between (operation %d)", i);
			q = burn; extra += 3;
		}
		b.step();
	}
	compare(c, a.trace, b.trace, n, "with additional queries");
	stat("additional_queries", extra); stat("operations_compared", n);
	c.sample("config seed %llx, %d operations, %llu additional queries", (unsigned long long)cfg, n, (unsigned long long)extra);
}
// A copy has the state of the original at that point, and is independent of it afterwards.
template<class K, bool assign> struct CopyOp{ static void run(typename K::Obj* dst, typename K::Obj const& s){ *dst = s; } };
template<class K> struct CopyOp<K, false>{ static void run(typename K::Obj* dst, typename K::Obj const&){} };
template<class K> void copies(Case& c){
	typedef typename K::Obj Obj;
	uint64_t const cfg = c.r.next(), scr = c.r.next(), rnd = c.r.next(), sx = c.r.next(), sy = c.r.next(), ry = c.r.next();
	int const mode = c.r.below(2), n0 = c.r.below(scale(c, K::ops())), n = 1 + c.r.below(scale(c, K::ops()));
	bool const assign = K::assigns && c.r.chance(0.5);
	// the two references never saw a copy
	Actor<K> rx(cfg, scr, rnd, mode, 0x00, -1); rx.run(n0); rx.trace.clear(); rx.script = Rng(sx); rx.run(n);
	Actor<K> ry_(cfg, scr, rnd, mode, 0x00, -1); ry_.run(n0); ry_.trace.clear(); ry_.script = Rng(sy); ry_.src = Source(ry, mode, K::closed); ry_.run(n);
	unique_ptr<Actor<K>> a(new Actor<K>(cfg, scr, rnd, mode, 0x77, -1)); a->run(n0); a->trace.clear();
	unique_ptr<Actor<K>> b;
	if(assign){
		// the overwritten instance has the same construction parameters or others, and a history
		b.reset(new Actor<K>(c.r.chance(0.5) ? cfg : c.r.next(), c.r.next(), c.r.next(), mode, 0x99, -1)); b->run(c.r.below(n + 1)); b->trace.clear();
		CopyOp<K, K::assigns>::run(b->slot.p, *a->slot.p);
		if(c.r.chance(0.2)) CopyOp<K, K::assigns>::run(a->slot.p, *a->slot.p); // self assignment
	}
	else{
		b.reset(new Actor<K>(0x99, -1)); b->slot.p = new(b->slot.raw) Obj(static_cast<Obj const&>(*a->slot.p));
	}
	b->script = Rng(sy); b->src = Source(ry, mode, K::closed);
	a->script = Rng(sx);
	int const how = c.r.below(3);
	if(how == 0){ // the original goes away
		a->slot.destroy(); b->run(n); compare(c, ry_.trace, b->trace, n, assign ? "assigned copy after the destruction of the original" : "copy after the destruction of the original");
	}
	else if(how == 1){ // the copy goes away
		b->run(n); compare(c, ry_.trace, b->trace, n, assign ? "assigned copy" : "copy");
		b->slot.destroy(); a->run(n); compare(c, rx.trace, a->trace, n, "original after the changes to its copy");
	}
	else{
		for(int i = 0; i < n;){ if(c.r.chance(0.5)){ a->step(); ++i; } else if((int)b->trace.size() < n) b->step(); }
		while((int)b->trace.size() < n) b->step();
		compare(c, rx.trace, a->trace, n, "original used along with its copy");
		compare(c, ry_.trace, b->trace, n, assign ? "assigned copy used along with the original" : "copy used along with the original");
	}
	stat(assign ? "assignments" : "copy_constructions"); stat("operations_compared", n);
	c.sample("config seed %llx, copied after %d operations, %d operations after it, %s", (unsigned long long)cfg, n0, n, assign ? "assignment" : "copy constructor");
}
// No dynamic memory, and the object is not larger than its parameters ask for.
template<class K> void allocation(Case& c){
	int const n = 1 + c.r.below(scale(c, K::ops()));
	uint64_t const before = g_allocs;
	Slot<typename K::Obj> slot(-1); Rng cfg(c.r.next()), script(c.r.next()); Source src(c.r.next(), c.r.below(2), K::closed);
	UseSource u(src);
	g_track_alloc = true;
	slot.p = K::construct(slot.raw, cfg);
	g_track_alloc = false;
	REQUIRE(g_allocs == before, "the constructor allocates dynamic memory (%llu allocations)", (unsigned long long)(g_allocs - before));
	Hash h;
	for(int i = 0; i < n; ++i){
		bool const q = script.below(4) == 0;
		g_track_alloc = true;
		if(q) K::query(*slot.p, script, h); else K::mutate(*slot.p, script, h);
		g_track_alloc = false;
		c.ev(); REQUIRE(g_allocs == before, "a %s allocates dynamic memory (operation %d)", q ? "query" : "training operation", i);
	}
	if(K::budget()) REQUIRE(sizeof(typename K::Obj) <= K::budget(), "the object takes %zu bytes, more than the %zu its parameters ask for", sizeof(typename K::Obj), K::budget());
	c.see(h.h); stat("operations_tracked", n); stat("objects_sized", K::budget() ? 1 : 0);
	c.sample("sizeof %zu, %d operations tracked", sizeof(typename K::Obj), n);
}
// Long hostile use; the sanitizers of the build are the oracle.
template<class K> void safety(Case& c){
	int const n = 1 + c.r.below(scale(c, K::ops() * 3));
	Actor<K> a(c.r.next(), c.r.next(), c.r.next(), c.r.below(5), c.r.below(2) ? 0xBE : 0x00, -1);
	for(int i = 0; i < n; ++i){ a.step(); c.ev(); }
	for(uint64_t t: a.trace){ c.see(t); if(t == 0x5EED) stat("impossible"); } // memcheck reports this branch when a result has no value
	stat("operations_sanitized", n); stat("random_numbers_drawn", a.src.calls);
	c.sample("%d operations on an object of %zu bytes, random mode %d", n, sizeof(typename K::Obj), a.src.mode);
}
#ifdef G_THREADS
// The order in which the threads worked. The tickets are relaxed: the monitor orders nothing between the threads, which
// would hide from the race detector what the code under test leaves unordered.
struct Turns{
	atomic<unsigned> next, ready; unsigned const limit; vector<unsigned char> who;
	explicit Turns(unsigned n): next(0), ready(0), limit(n), who(n, 255){}
	void take(int t){ unsigned const k = next.fetch_add(1, memory_order_relaxed); if(k < limit) who[k] = (unsigned char)t; }
	void start(unsigned n){ ready.fetch_add(1, memory_order_relaxed); for(int i = 0; ready.load(memory_order_relaxed) < n && i < 200000; ++i) if(i % 64 == 63) sched_yield(); }
	int switches() const { int k = 0; for(size_t i = 1; i < who.size(); ++i) k += who[i] != who[i - 1]; return k; }
};
// Every thread has instances of its own: no data race (the build has a race detector), and the results of the same work done by one thread.
struct Job{ uint64_t cfg, scr, rnd; int mode, n, pace; Trace trace; string error; };
struct Worker{ bool isolated; int ops; void (*threaded)(Job&, Turns&, int, int); Trace (*alone)(Job const&); };
template<class K> struct Work{
	static void threaded(Job& j, Turns& turns, int t, int T){
		try{
			turns.start(T);
			Actor<K> a(j.cfg, j.scr, j.rnd, j.mode, 0x21 + t, -1);
			for(int i = 0; i < j.n; ++i){ turns.take(t); a.step(); if(j.pace && (i + t) % j.pace == 0) sched_yield(); }
			j.trace = a.trace;
		}
		catch(Violation const& v){ j.error = v.what; }
	}
	static Trace alone(Job const& j){ Actor<K> a(j.cfg, j.scr, j.rnd, j.mode, 0x00, -1); a.run(j.n); return a.trace; }
	static Worker worker(){ return { K::isolated, K::ops(), threaded, alone }; }
};
static inline void threads(Case& c, vector<Worker> const& of){ // the instances of thread t are of[t]
	int const T = (int)of.size(); bool const same = c.r.chance(0.4); vector<Job> jobs(T); vector<thread> th; unsigned total = 0;
	int const n = 1 + c.r.below(scale(c, of[0].ops));
	for(int t = 0; t < T; ++t){
		jobs[t] = { c.r.next(), c.r.next(), c.r.next(), c.r.below(2), n, c.r.below(4), Trace(), string() }; total += n;
		if(same){ jobs[t].cfg = jobs[0].cfg; jobs[t].scr = jobs[0].scr; jobs[t].rnd = jobs[0].rnd; jobs[t].mode = jobs[0].mode; }
	}
	Turns turns(total);
	for(int t = 0; t < T; ++t) th.emplace_back([&, t]{ of[t].threaded(jobs[t], turns, t, T); });
	for(auto& x: th) x.join();
	// only now: what one thread has initialised, the others would find
	for(int t = 0; t < T; ++t){ REQUIRE(jobs[t].error.empty(), "in thread %d: %s", t, jobs[t].error.c_str()); compare(c, of[t].alone(jobs[t]), jobs[t].trace, n, "in a thread, along with other threads"); }
	for(unsigned char w: turns.who) c.see(w);
	stat("threads", T); stat("operations_in_threads", T * n); stat("switches_between_threads", turns.switches());
	c.sample("%d threads with an instance each, %d operations each, %d switches", T, n, turns.switches());
}
// Several threads query one instance.
template<class K> void readers(Case& c){
	if(!K::readers){ c.trivial = true; c.ev(); return; }
	int const T = 2 + c.r.below(3), n0 = 1 + c.r.below(scale(c, K::ops())), n = 1 + c.r.below(12);
	Actor<K> a(c.r.next(), c.r.next(), c.r.next(), c.r.below(2), 0x00, -1); a.run(n0);
	vector<uint64_t> scr(T); vector<Trace> alone(T), got(T); vector<string> error(T);
	for(int t = 0; t < T; ++t) scr[t] = c.r.next();
	Turns turns(T * n); vector<thread> th;
	for(int t = 0; t < T; ++t) th.emplace_back([&, t]{
		Source none; UseSource u(none);
		try{ turns.start(T); Rng s(scr[t]); for(int i = 0; i < n; ++i){ Hash h; turns.take(t); K::query(*a.slot.p, s, h); got[t].push_back(h.h); } }
		catch(Violation const& v){ error[t] = v.what; }
	});
	for(auto& x: th) x.join();
	for(int t = 0; t < T; ++t){ Rng s(scr[t]); UseSource u(a.src); for(int i = 0; i < n; ++i){ Hash h; K::query(*a.slot.p, s, h); alone[t].push_back(h.h); } }
	for(int t = 0; t < T; ++t){ REQUIRE(error[t].empty(), "in thread %d: %s", t, error[t].c_str()); compare(c, alone[t], got[t], n, "query in a thread, along with other threads"); }
	for(unsigned char w: turns.who) c.see(w);
	stat("reading_threads", T); stat("queries_in_threads", T * n); stat("switches_between_threads", turns.switches());
	c.sample("%d threads query one instance %d times each, %d switches", T, n, turns.switches());
}
#endif
template<class... Ks> struct All{
	typedef void (*F)(Case&);
	static void pick(Case& c, F const* f, int n){ f[c.index % n](c); }
	static void det(Case& c){ F f[] = { determinism<Ks>... }; pick(c, f, sizeof...(Ks)); }
	static void ro(Case& c){ F f[] = { read_only<Ks>... }; pick(c, f, sizeof...(Ks)); }
	static void copy(Case& c){ F f[] = { copies<Ks>... }; pick(c, f, sizeof...(Ks)); }
	static void alloc(Case& c){ F f[] = { allocation<Ks>... }; pick(c, f, sizeof...(Ks)); }
#ifdef G_THREADS
	static void threads(Case& c){ // instances of one class, or of several
		vector<Worker> all, of; for(Worker const& w: { Work<Ks>::worker()... }) if(w.isolated) all.push_back(w); // a total shared by the instances is part of an interface
		size_t const k = c.index % all.size(); int const T = 2 + c.r.below(3); bool const mixed = c.r.chance(0.25);
		for(int t = 0; t < T; ++t) of.push_back(all[(mixed ? k + t : k) % all.size()]);
		vf::threads(c, of);
	}
	static void readers(Case& c){ F f[] = { vf::readers<Ks>... }; pick(c, f, sizeof...(Ks)); }
#endif
	static void safe(Case& c){ F f[] = { safety<Ks>... }; pick(c, f, sizeof...(Ks)); }
};
}
// The generic tests of a harness, for the components listed. A build has the groups its G_ macros ask for.
#ifdef G_SAFE
#define GEN_SAFE(...) TEST(safe){ vf::All<__VA_ARGS__>::safe(c); }
#else
#define GEN_SAFE(...)
#endif
#ifdef G_DET
#define GEN_DET(...) TEST(det){ vf::All<__VA_ARGS__>::det(c); }
#else
#define GEN_DET(...)
#endif
#ifdef G_RO
#define GEN_RO(...) TEST(ro){ vf::All<__VA_ARGS__>::ro(c); }
#else
#define GEN_RO(...)
#endif
#ifdef G_COPY
#define GEN_COPY(...) TEST(copy){ vf::All<__VA_ARGS__>::copy(c); }
#else
#define GEN_COPY(...)
#endif
#ifdef G_THREADS
#define GEN_THREADS(...) TEST(threads){ vf::All<__VA_ARGS__>::threads(c); } TEST(readers){ vf::All<__VA_ARGS__>::readers(c); }
#else
#define GEN_THREADS(...)
#endif
#ifdef G_ALLOC
#define GEN_ALLOC(...) TEST(alloc){ vf::All<__VA_ARGS__>::alloc(c); }
#else
#define GEN_ALLOC(...)
#endif
#define GENERIC(...) GEN_SAFE(__VA_ARGS__) GEN_DET(__VA_ARGS__) GEN_RO(__VA_ARGS__) GEN_THREADS(__VA_ARGS__)
#define GENERIC_COPY(...) GEN_COPY(__VA_ARGS__)
#define GENERIC_ALLOC(...) GEN_ALLOC(__VA_ARGS__)
