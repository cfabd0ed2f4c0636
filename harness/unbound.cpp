#include "common.hpp"
#include "alloc.hpp"
#include "mondrian_unbound.hpp"
#include "mondrian_ref.hpp"
using namespace vf;
template<class T, int F_, int L, int TREES = 0> struct Ad: NoTune{
	typedef T F; static const int FC = F_, LC = L; static const bool assigns = true; static const size_t bytes = 0;
	typedef MondrianForestUnbound<T, MFn, F_, L> Obj;
	static int trees(Rng& r){ if(TREES) return TREES; return r.below(3) ? 1 + r.below(4) : 1 + r.below(12); } static long pool(int){ return 1L << 60; }
	static Obj* construct(void* p, RConf const& c, int t){ return new(p) Obj(c.lifetime, c.base, c.discount, t); }
};
typedef Ad<double, 2, 3> A1; typedef Ad<int, 3, 2> A2; typedef Ad<float, 4, 5> A3; typedef Ad<double, 1, 1> A4; typedef Ad<double, 8, 10> A5; typedef Ad<short, 2, 4> A6;
#define ALL(X) X<A1>, X<A2>, X<A3>, X<A4>, X<A5>, X<A6>
#define EACH(f) void (*t[])(Case&) = { MTests<A1>::f, MTests<A2>::f, MTests<A3>::f, MTests<A4>::f, MTests<A5>::f, MTests<A6>::f }; t[c.index % 6](c)
typedef Ad<double, 2, 2, 300> W1; typedef Ad<double, 300, 3> W2; typedef Ad<float, 3, 300> W3; typedef Ad<short, 200, 200> W4; typedef Ad<double, 1, 2, 33000> W5; typedef Ad<double, 40000, 2, 1> W6; typedef Ad<double, 1, 40000, 1> W7;
#ifdef G_EXACT
TEST(wide){ void (*t[])(Case&) = { MTests<W1>::wide, MTests<W2>::wide, MTests<W3>::wide, MTests<W4>::wide, MTests<W1>::wide, MTests<W2>::wide, MTests<W3>::wide, MTests<W5>::wide, MTests<W2>::wide, MTests<W3>::wide, MTests<W4>::wide, MTests<W6>::wide, MTests<W2>::wide, MTests<W3>::wide, MTests<W7>::wide }; t[c.index % 15](c); }
TEST(endurance){ void (*t[])(Case&) = { MTests<A1>::endurance, MTests<A2>::endurance, MTests<A4>::endurance }; t[c.index % 3](c); }
TEST(exact){ EACH(exact); }
#endif
#ifdef G_SCORES
TEST(distribution){ EACH(distribution); }
TEST(wide){ void (*t[])(Case&) = { MTests<W1>::wide_symmetry, MTests<W2>::wide_symmetry, MTests<W3>::wide_symmetry, MTests<W4>::wide_symmetry }; t[c.index % 4](c); }
TEST(symmetry){ EACH(symmetry); }
#endif
GENERIC(ALL(MGeneric)) GENERIC_COPY(ALL(MGeneric))
#include "main.inc"
