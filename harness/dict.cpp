// C01/C02/C03 (and, with other parameters, C05, C30): any short history from a variety of layouts agrees with an ideal dictionary, for every hash function.
#include "lib.h"
#ifndef DEPTH
#define DEPTH 2
#endif
#ifndef SHAPES
#define SHAPES S_EMPTY, S_ONE, S_THREE_FULL, S_SEVEN_FULL
#endif
#ifndef OPS
#define OPS 4
#endif
static const unsigned char shapes[] = {SHAPES};
extern "C" void vf_main()
{
	sym_hashes();
	Cont c; Model m;
#if FAM == 3 && defined(SYM_MLF)
	{ static const float f[] = {.25f, .5f, .875f, 1.f, 1.5f, 3.f}; c.max_load_factor(f[vf_choose("mlf", 6)]); }
#endif
	unsigned sh = sizeof(shapes) == 1 ? shapes[0] : shapes[vf_choose("shape", sizeof(shapes))];
#ifdef SYM_FIRST
	op_insert(c, m, 0); // a key with an arbitrary hash takes part in building the layout
#endif
	build(c, m, sh);
	const unsigned conc = m.n ? m.id[m.n / 2] : 0; // one stored key with a fixed hash also takes part
	const unsigned depth = DEPTH == 1 ? 1 : 1 + vf_choose("depth", DEPTH);
	for (unsigned i = 0; i < depth; ++i) {
		unsigned k = vf_choose("key", NS + (m.n || conc ? 1 : 0)); if (k == NS) k = conc;
		switch (vf_choose("op", OPS)) {
		case 0: op_insert(c, m, k, 0); break;
		case 1: op_erase(c, m, k, 0); break;
		case 2: if (m.has(k)) op_erase(c, m, k, 1); else { op_insert(c, m, k, MAP ? 3 : 2); } break;
		case 3: {
			int x = m.find(k); const Key key(k); const Cont &cc = c; VF_CHECK(cc.contains(key) == (x >= 0), "contains"); auto it = c.find(key);
			VF_CHECK((it != c.end()) == (x >= 0), "find");
			if (x >= 0) VF_CHECK(kid(*it) == k && (!MAP || vof(*it) == m.val[x]), "find yields the entry");
			break; }
		case 4: op_clear(c, m); break;
		case 5: c.rehash(vf_choose("n", 2) ? 0 : 40); break;
		case 6: op_insert(c, m, k, MAP ? 5 : 1); break;
		case 7: op_insert(c, m, k, MAP ? 8 : 2); break;
		}
	}
	check(c, m, g_used);
#if ORD || FAM == 3
	check_riter(c, m);
#endif
	vf_cover("end"); if (m.n > 28) vf_cover("large");
}
