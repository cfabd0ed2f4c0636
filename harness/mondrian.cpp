#include "common.hpp"
#include "alloc.hpp"
#include "mondrian.hpp"
#include "mondrian_ref.hpp"
using namespace vf;
template<class T, int TC, int F_, int L, int MAX> struct Ad: NoTune{
	typedef T F; static const int FC = F_, LC = L; static const bool assigns = true; static const size_t bytes = MAX;
	typedef MondrianForest<T, MFn, TC, F_, L, MAX> Obj;
	// what a node takes: split, box, links, time and counters
	struct Node{ int d; double v, lo[F_], hi[F_]; int l, r, p; double tau; int c[L]; };
	static int trees(Rng&){ return TC; } static long pool(int){ return MAX / sizeof(Node); }
	static Obj* construct(void* p, RConf const& c, int){ return new(p) Obj(c.lifetime, c.base, c.discount); }
};
typedef Ad<double, 5, 2, 3, 20000> A1; typedef Ad<int, 1, 3, 2, 6000> A2; typedef Ad<float, 10, 4, 5, 30000> A3; typedef Ad<double, 3, 1, 2, 2000> A4; typedef Ad<double, 20, 2, 2, 1501> A5; typedef Ad<double, 2, 7, 4, 100000> A6; typedef Ad<double, 1, 2, 3, 3003> A7; typedef Ad<short, 4, 2, 8, 12345> A8;
#define ALL(X) X<A1>, X<A2>, X<A3>, X<A4>, X<A5>, X<A6>, X<A7>, X<A8>
#define EACH(f) void (*t[])(Case&) = { MTests<A1>::f, MTests<A2>::f, MTests<A3>::f, MTests<A4>::f, MTests<A5>::f, MTests<A6>::f, MTests<A7>::f, MTests<A8>::f }; t[c.index % 8](c)
typedef Ad<double, 300, 2, 2, 60000> W1; typedef Ad<double, 2, 300, 3, 500000> W2; typedef Ad<float, 2, 3, 300, 300000> W3; typedef Ad<short, 1, 200, 200, 300000> W4; typedef Ad<double, 33000, 1, 2, 33000 * 64> W5; typedef Ad<double, 1, 40000, 2, 20000000> W6; typedef Ad<double, 1, 1, 40000, 10000000> W7;
#ifdef G_EXACT
typedef Ad<double, 1, 2, 2, 70000 * 88> A9;
TEST(wide){ void (*t[])(Case&) = { MTests<W1>::wide, MTests<W2>::wide, MTests<W3>::wide, MTests<W4>::wide, MTests<W1>::wide, MTests<W2>::wide, MTests<W3>::wide, MTests<W5>::wide, MTests<W2>::wide, MTests<W3>::wide, MTests<W4>::wide, MTests<W6>::wide, MTests<W2>::wide, MTests<W3>::wide, MTests<W7>::wide }; t[c.index % 15](c); }
TEST(endurance){ void (*t[])(Case&) = { MTests<A1>::endurance, MTests<A4>::endurance, MTests<A7>::endurance, MTests<A9>::endurance }; t[c.index % 4](c); }
TEST(exact){ EACH(exact); }
#endif
#ifdef G_SCORES
TEST(distribution){ EACH(distribution); }
TEST(wide){ void (*t[])(Case&) = { MTests<W1>::wide_symmetry, MTests<W2>::wide_symmetry, MTests<W3>::wide_symmetry, MTests<W4>::wide_symmetry }; t[c.index % 4](c); }
TEST(symmetry){ EACH(symmetry); }
#endif
GENERIC(ALL(MGeneric)) GENERIC_COPY(ALL(MGeneric)) GENERIC_ALLOC(ALL(MGeneric))
#include "main.inc"
