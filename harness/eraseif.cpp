// C32: erase_if asks once about every element, removes exactly the selected ones and counts them.
#define TRACK 1
#include "lib.h"
#ifndef SHAPES
#define SHAPES S_EMPTY, S_THREE_FULL, S_SAME_CHAIN
#endif
static const unsigned char shapes[] = {SHAPES};
extern "C" void vf_main()
{
	sym_hashes(); Cont c; Model m;
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, shapes[sizeof(shapes) == 1 ? 0 : vf_choose("shape", sizeof(shapes))]);
	if (vf_choose("last", 2)) op_insert(c, m, NS - 1);
	u64 sel = 0, asked = 0; int n = 0;
	for (int i = 0; i < m.n; ++i) if (i < 5 ? vf_choose("selected", 2) : i & 1) { sel |= u64(1) << m.id[i]; ++n; }
	const int total = m.n; int calls = 0;
	auto r = erase_if(c, [&](auto &&e) { u32 k = kid(e); VF_CHECK(k < NK && !(asked >> k & 1), "the predicate is called once on an element"); VF_CHECK(m.has(k) && (!MAP || vof(e) == m.val[m.find(k)]), "the predicate sees a stored element"); asked |= u64(1) << k; ++calls; return bool(sel >> k & 1); });
	VF_CHECK(calls == total, "the predicate is called on every element"); VF_CHECK(u64(r) == u64(n), "erase_if returns the number removed");
	for (u32 k = 0; k < u32(g_used); ++k) if (sel >> k & 1) m.erase(k);
	check_all(c, m, g_used);
	op_insert(c, m, 0); op_insert(c, m, NS - 1); check_all(c, m, g_used);
	vf_cover("end");
}
