// C13: stable containers: the address of an element survives every operation that does not remove it.
#include "lib.h"
#ifndef SRC
#define SRC S_ONE, S_THREE_FULL, S_SEVEN_FULL, S_TOMB_SMALL
#endif
static const unsigned char src[] = {SRC};
#ifndef STEPS
#define STEPS 1
#endif
#ifndef OPS
#define OPS 9
#endif
template<class C> static const void *addr(C &c, u32 k) { const Key key(k); auto it = c.find(key); VF_CHECK(it != c.end(), "element is found"); return &*it; }
extern "C" void vf_main()
{
	sym_hashes(); Cont c; Model m;
	op_insert(c, m, 0); build(c, m, src[vf_choose("shape", sizeof(src))]);
	const void *a[NK] = {}; u32 val[NK] = {};
	for (int i = 0; i < m.n; ++i) { a[m.id[i]] = addr(c, m.id[i]); val[m.id[i]] = m.val[i]; }
	const u32 w = m.id[OPS > 1 ? vf_choose("w", m.n) : 0]; Model mo;
	unsigned steps = 1 + vf_choose("steps", STEPS);
	for (unsigned s = 0; s < steps; ++s) switch (vf_choose("op", OPS)) {
	case 0: op_insert(c, m, NS - 1, vf_choose("f", MAP ? 5 : 3)); if (OPS == 1) put(c, m, mkh(3, 7)); break; // the second one reclaims in RECL layouts
	case 1: { u32 k = m.n ? m.id[vf_choose("e", m.n)] : 0; if (k != w) { op_erase(c, m, k, vf_choose("ef", 2)); a[k] = nullptr; } break; }
	case 2: for (int i = 0; i < 9; ++i) put(c, m, mkh(i * 2, 5)); break;
	case 3: c.rehash(vf_choose("n", 2) ? 60 : 0); break;
	case 4: c.reserve(30); break;
	case 5: { Cont t(std::move(c)); c = std::move(t); break; }
	case 6: { Cont t; put(t, mo, mkh(1, 1)); mo.n = 0; t.swap(c); t.swap(c); break; }
	case 7: { Cont t; t.merge(c); VF_CHECK(c.empty(), "everything moved"); c.swap(t); break; }
	case 8: { const Key wk(w); auto nh = c.extract(wk); VF_CHECK(!nh.empty() && static_cast<const void *>(&nh.value()) == a[w], "extraction keeps the address"); int i = m.find(w); u32 v = m.val[i];
		put(c, m, mkh(9, 9)); auto r = c.insert(std::move(nh)); VF_CHECK(r.inserted, "re-insertion"); m.erase(w); m.insert(w, v); break; }
	}
	for (int i = 0; i < m.n; ++i) if (a[m.id[i]]) VF_CHECK(addr(c, m.id[i]) == a[m.id[i]], "address is stable");
	VF_CHECK(m.has(w) && (!MAP || m.val[m.find(w)] == val[w]), "the watched element is there");
	check_all(c, m, g_used);
	vf_cover("end");
}
