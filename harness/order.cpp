// C05: ordered containers keep insertion order across everything that is not an insertion or erasure of the element itself.
#include "lib.h"
#ifndef DEPTH
#define DEPTH 2
#endif
#ifndef SHAPES
#define SHAPES S_EMPTY, S_ONE, S_THREE_FULL, S_SEVEN_FULL, S_TOMB_SMALL, S_CLEARED
#endif
static const unsigned char shapes[] = {SHAPES};
extern "C" void vf_main()
{
	sym_hashes();
	Cont c; Model m;
	unsigned sh = sizeof(shapes) == 1 ? shapes[0] : shapes[vf_choose("shape", sizeof(shapes))];
#ifdef SYM_FIRST
	op_insert(c, m, 0);
#endif
	build(c, m, sh);
	const unsigned depth = 1 + vf_choose("depth", DEPTH);
	for (unsigned i = 0; i < depth; ++i)
		switch (vf_choose("op", 9)) {
		case 0: op_insert(c, m, vf_choose("key", NS), 0); break;
		case 1: { vf_assume(m.n > 0); unsigned p = vf_choose("pos", NK); vf_assume(p < unsigned(m.n)); op_erase(c, m, m.id[p], p & 1); break; }
		case 2: { vf_assume(m.n > 0); unsigned p = m.n > 1 ? vf_choose("end", 2) * (m.n - 1) : 0; op_insert(c, m, m.id[p], 0); op_insert(c, m, m.id[p], 2); break; } // failed insertions
		case 3: { vf_assume(m.n > 0); unsigned p = m.n > 1 ? vf_choose("end", 2) * (m.n - 1) : 0; op_insert(c, m, m.id[p], MAP ? 5 : 1); op_insert(c, m, m.id[p], MAP ? 8 : 1); break; }
		case 4: switch (vf_choose("n", 3)) { case 0: c.rehash(0); break; case 1: c.rehash(33); break; case 2: c.reserve(20); break; } break;
		case 5: { Cont d(c); Cont e; e = d; check(d, m, 0); c = std::move(e); break; }
		case 6: { Cont d(std::move(c)); c = std::move(d); break; }
		case 7: { Cont d; swap(c, d); VF_CHECK(c.empty(), "swap with an empty container"); Cont e(std::move(d)); c.swap(e); break; }
		case 8: { Cont d; Model dm; u32 k = vf_choose("key", NS); op_insert(d, dm, k); swap(c, d); check(c, dm, 0); swap(d, c); check(d, dm, 0); break; }
		}
	check_all(c, m, g_used);
	vf_cover("end");
}
