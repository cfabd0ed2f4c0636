// Support code of all the harnesses: random numbers, monitors' verdicts, coverage records and the
// per-case watchdog. Nothing here knows about a component of OrpailleCC.
#pragma once
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <algorithm>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <unordered_set>
#include <vector>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
using namespace std;

namespace vf {

static inline uint64_t mix64(uint64_t z){
	z += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
// xoshiro256**
struct Rng{
	uint64_t s[4];
	explicit Rng(uint64_t seed = 1){ for(int i = 0; i < 4; ++i){ seed = mix64(seed + i); s[i] = seed; } }
	static uint64_t rotl(uint64_t x, int k){ return (x << k) | (x >> (64 - k)); }
	uint64_t next(){
		uint64_t const r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
		return r;
	}
	double u01(){ return (next() >> 11) * (1.0 / 9007199254740992.0); } // [0,1)
	int below(int n){ return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
	int range(int a, int b){ return a + below(b - a + 1); }             // [a,b]
	bool chance(double p){ return u01() < p; }
	double real(double a, double b){ return a + (b - a) * u01(); }
	double gauss(){ double u = 0; for(int i = 0; i < 12; ++i) u += u01(); return u - 6; }
	Rng fork(){ return Rng(next()); }
};
struct Hash{
	uint64_t h = 0x1234567;
	void add(uint64_t v){ h = mix64(h ^ v); }
	void addd(double d){ if(d == 0) d = 0; uint64_t b; memcpy(&b, &d, 8); add(b); }
};
// What a functor given to a component returns. The harness points g_random to the stream of the instance it calls.
struct Source{
	Rng r;
	int mode;      // 0: plain uniform. 1: often 0 or the value just below 1. 2: always 0. 3: always just below 1. 4: cycles
	bool closed;   // whether 1.0 itself can be returned
	uint64_t calls = 0;
	explicit Source(uint64_t seed = 1, int mode = 0, bool closed = false): r(seed), mode(mode), closed(closed){}
	double top() const { return closed ? 1.0 : 1.0 - 1.0 / 9007199254740992.0; }
	double draw(){
		++calls;
		double const u = r.u01();
		switch(mode){
			case 1: { int const k = r.below(8); return k == 0 ? 0.0 : k == 1 ? top() : k == 2 ? 0.5 : k == 3 ? 5e-324 : u; }
			case 2: return 0.0;
			case 3: return top();
			case 4: { int const k = calls % 3; return k == 0 ? 0.0 : k == 1 ? top() : u; }
			default: return u;
		}
	}
};
extern __thread Source* g_random;

struct Violation { string what; };
[[noreturn]] static inline void violation(char const* fmt, ...){
	char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	throw Violation{b};
}
#define REQUIRE(c, ...) do{ if(!(c)) ::vf::violation(__VA_ARGS__); }while(0)

struct Case;
typedef void (*TestFn)(Case&);
struct Case{
	char const* test; uint64_t index; uint64_t seed; bool thorough;
	Rng r;
	uint64_t evals = 0;
	bool trivial = false;
	Hash h;           // signature of the observed execution
	string note;      // a sample of what was observed
	void ev(uint64_t n = 1){ evals += n; }
	void see(uint64_t v){ h.add(v); }
	void seed_d(double d){ h.addd(d); }
	void sample(char const* fmt, ...){
		char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); note = b;
	}
};
void stat(char const* key, double n = 1);   // a counter reported in the evidence
void register_test(char const* name, TestFn fn);
struct Registrar{ Registrar(char const* n, TestFn f){ register_test(n, f); } };
#define TEST(name) static void test_##name(::vf::Case& c); static ::vf::Registrar reg_##name(#name, test_##name); static void test_##name(::vf::Case& c)

// Count of the allocations made while tracking is on (see alloc.hpp)
extern volatile __thread bool g_track_alloc;
extern volatile __thread uint64_t g_allocs;

// Fill the stack below the caller with a pattern, so a read of an uninitialised local depends on it.
__attribute__((noinline)) void fill_stack(unsigned char pattern);

static inline bool close(double a, double b, double rel = 1e-9, double abs_ = 1e-12){
	if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	if(a == b) return true;
	double const d = std::fabs(a - b), m = std::max(std::fabs(a), std::fabs(b));
	return d <= abs_ || d <= rel * m;
}
}
