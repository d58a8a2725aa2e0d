// C06: iteration visits every stored element exactly once, on every layout, after any single change made with an arbitrary hash.
#include "lib.h"
#ifndef SHAPES
#define SHAPES S_EMPTY, S_ONE, S_THREE_FULL, S_SEVEN_FULL, S_FULL15, S_TOMB_SMALL, S_CLEARED, S_SAME_CHAIN
#endif
static const unsigned char shapes[] = {SHAPES};
template<class C> static void walk(C &c, const Model &m)
{
	check_iter(c, m);
	// post-increment, default construction and assignment of iterators
	int n = 0; u64 seen = 0; auto it = c.begin(); auto stop = c.end(); decltype(it) j = it;
	while (j != stop) { auto old = j++; VF_CHECK(old == it && n++ < m.n, "post-increment"); u32 k = kid(*old); VF_CHECK(k < NK && m.has(k) && !(seen >> k & 1), "iteration yields each element once"); seen |= u64(1) << k; ++it; VF_CHECK(it == j, "pre- and post-increment agree"); }
	VF_CHECK(n == m.n && seen == m.mask(), "iteration visits every element");
}
extern "C" void vf_main()
{
	sym_hashes();
	Cont c; Model m;
	unsigned sh = sizeof(shapes) == 1 ? shapes[0] : shapes[vf_choose("shape", sizeof(shapes))];
#ifdef SYM_FIRST
	op_insert(c, m, 0);
#endif
	build(c, m, sh);
	switch (vf_choose("op", 6)) {
	case 0: break;
	case 1: op_insert(c, m, 0); break;
	case 2: op_insert(c, m, 0); if (NS > 1) op_insert(c, m, 1); else op_erase(c, m, 0, 1); break;
	case 3: { vf_assume(m.n > 0); unsigned p = vf_choose("pos", NK); vf_assume(p < unsigned(m.n)); const Key key(m.id[p]); c.erase(c.find(key)); m.erase(m.id[p]); break; }
	case 4: op_clear(c, m); if (vf_choose("refill", 2)) op_insert(c, m, 0); break;
	case 5: op_insert(c, m, 0); c.rehash(vf_choose("n", 2) * 60); break;
	}
	walk(c, m); walk(static_cast<const Cont &>(c), m);
	{ int n = 0; for (auto it = c.cbegin(); it != c.cend(); ++it) ++n; VF_CHECK(n == m.n, "cbegin/cend"); }
	VF_CHECK(c.size() == size_t(m.n) && c.empty() == (m.n == 0), "size agrees with iteration");
#ifdef HAS_REV
	check_riter(c, m); check_riter(static_cast<const Cont &>(c), m);
#endif
	vf_cover("end");
}
