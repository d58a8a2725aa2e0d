// C09: swap exchanges complete contents.
#include "lib.h"
#ifndef SRC
#define SRC S_EMPTY, S_ONE, S_SEVEN_FULL, S_TOMB_SMALL, S_CLEARED
#endif
#ifndef DST
#define DST S_EMPTY, S_THREE_FULL, S_TOMB_SMALL
#endif
static const unsigned char src[] = {SRC}, dst[] = {DST};
extern "C" void vf_main()
{
	sym_hashes();
	Cont a, b; Model ma, mb;
#if FAM == 3
	a.max_load_factor(1.5f);
#endif
	const unsigned s1 = src[vf_choose("a", sizeof(src))], s2 = dst[vf_choose("b", sizeof(dst))];
	build(a, ma, s1); if (vf_choose("asym", 2)) op_insert(a, ma, 0);
	build(b, mb, s2); if (vf_choose("bsym", 2)) op_insert(b, mb, NS - 1);
	if (vf_choose("self", 2)) { a.swap(a); check_all(a, ma, g_used); }
	if (vf_choose("free", 2)) { using std::swap; swap(a, b); } else a.swap(b);
	check_all(a, mb, g_used); check_all(b, ma, g_used);
#if FAM == 3
	VF_CHECK(b.max_load_factor() == 1.5f && a.max_load_factor() == .875f, "load limits are swapped");
#endif
	op_insert(a, mb, 0); op_insert(b, ma, 0);
	if (ma.n > 1) op_erase(b, ma, ma.id[0], 1);
	if (mb.n > 1) op_erase(a, mb, mb.id[mb.n - 1], 0);
	check_all(a, mb, g_used); check_all(b, ma, g_used);
	a.clear(); mb.n = 0; check_all(b, ma, g_used); op_insert(a, mb, NS - 1); check_all(a, mb, g_used);
	vf_cover("end");
}
