// C10: clear and assignment of new contents.
#include "lib.h"
#ifndef SRC
#define SRC S_EMPTY, S_ONE, S_SEVEN_FULL, S_TOMB_SMALL, S_CLEARED, S_SAME_CHAIN, S_FULL15
#endif
static const unsigned char src[] = {SRC};
#ifndef REFILL
#define REFILL 9
#endif
extern "C" void vf_main()
{
	sym_hashes();
	Cont c; Model m;
	const unsigned sh = src[vf_choose("shape", sizeof(src))];
	build(c, m, sh); if (vf_choose("sym", 2)) op_insert(c, m, 0);
	const Model old = m;
	switch (vf_choose("form", 4)) {
	case 0: c.clear(); m.n = 0; break;
	case 1: c.clear(); c.clear(); m.n = 0; break;
	case 2: {
		u32 k[3]; for (auto &x : k) x = vf_choose("il", NS + 1); if (old.n) for (auto &x : k) if (x == NS) x = old.id[0];
		if (!old.n) for (auto &x : k) vf_assume(x < NS);
		m.n = 0; for (u32 i = 0; i < 3; ++i) m.insert(k[i], 10 + i);
		std::initializer_list<Cont::value_type> il = {mk(k[0], 10), mk(k[1], 11), mk(k[2], 12)}; c = il; break; }
	case 3: { std::initializer_list<Cont::value_type> none = {}; c = none; m.n = 0; break; }
	}
	check_all(c, m, g_used);
	if (!m.n) { for (int k = 0; k < g_used; ++k) { const Key key(k); VF_CHECK(c.find(key) == c.end() && !c.contains(key), "cleared key is not found"); } VF_CHECK(c.begin() == c.end(), "cleared container is empty"); }
	for (int i = 0; i < old.n && i < REFILL; ++i) op_insert(c, m, old.id[i], i & 1);
	op_insert(c, m, NS - 1); op_erase(c, m, 0, 0); op_insert(c, m, 0);
	check_all(c, m, g_used);
	vf_cover("end");
}
