// C07: a copy equals its source and is independent of it.
#include "lib.h"
#ifndef SRC
#define SRC S_EMPTY, S_ONE, S_SEVEN_FULL, S_TOMB_SMALL, S_CLEARED
#endif
#ifndef DST
#define DST S_EMPTY, S_ONE, S_SEVEN_FULL, S_CLEARED
#endif
#ifndef LIMIT
#define LIMIT (MAP == ORD)
#endif
static void limit(const Cont &d)
{
#if FAM == 3
	VF_CHECK(!LIMIT || d.max_load_factor() == 1.5f, "the load limit is copied");
#else
	(void)d;
#endif
}
static const unsigned char src[] = {SRC}, dst[] = {DST};
static void mutate(Cont &c, Model &m, u32 sym)
{
	if (m.n) { u32 k = m.id[m.n / 2]; op_erase(c, m, k, 1); }
	op_insert(c, m, sym, 0); op_erase(c, m, m.id[0], 0); op_insert(c, m, sym, 2);
}
extern "C" void vf_main()
{
	sym_hashes();
	Cont c; Model m;
#if FAM == 3
	if (LIMIT) c.max_load_factor(1.5f); // a load limit travels with a copy
#endif
	const unsigned sh = src[vf_choose("shape", sizeof(src))];
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, sh);
	Model dm = m;
	switch (vf_choose("form", 4)) {
	case 0: { Cont d(static_cast<const Cont &>(c)); check_all(d, dm, g_used); limit(d); mutate(d, dm, 0); check_all(c, m, g_used); limit(c); mutate(c, m, NS - 1); check_all(c, m, g_used); check_all(d, dm, g_used); break; }
	case 1: { Cont d(static_cast<const Cont &>(c), c.get_allocator()); check_all(d, dm, g_used); limit(d); c.clear(); m.n = 0; check_all(d, dm, g_used); mutate(d, dm, 0); check_all(d, dm, g_used); check_all(c, m, g_used); break; }
	case 2: {
		Cont d; Model old; const int first = g_used; const unsigned s2 = dst[vf_choose("dst", sizeof(dst))]; build(d, old, s2); if (vf_choose("dsym", 2)) op_insert(d, old, 0);
		(void)first; d = static_cast<const Cont &>(c); check_all(d, dm, g_used); limit(d); mutate(d, dm, 0); check_all(c, m, g_used); limit(c); mutate(c, m, NS - 1); check_all(d, dm, g_used); check_all(c, m, g_used); break; }
	case 3: { Cont &self = c; c = static_cast<const Cont &>(self); check_all(c, m, g_used); mutate(c, m, 0); check_all(c, m, g_used); break; }
	}
	vf_cover("end");
}
