// C23: == is equality of contents, whatever the histories, layouts and capacities; != is its negation; comparing changes nothing.
#define KEYEQ 1
#include "lib.h"
#ifndef SHAPES
#define SHAPES S_EMPTY, S_ONE, S_THREE_FULL, S_TOMB_SMALL, S_SAME_CHAIN
#endif
static const unsigned char shapes[] = {SHAPES};
static void same(const Cont &a, const Cont &b, bool eq) { VF_CHECK((a == b) == eq, "== is equality of contents"); VF_CHECK((b == a) == eq, "== is symmetric"); VF_CHECK((a != b) == !eq && (b != a) == !eq, "!= is the negation of =="); VF_CHECK(a == a && !(a != a), "== is reflexive"); }
extern "C" void vf_main()
{
	sym_hashes(); Cont c, d; Model m;
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, shapes[vf_choose("shape", sizeof(shapes))]);
	if (vf_choose("last", 2)) op_insert(c, m, NS - 1);
	Model n; const bool rev = vf_choose("reversed", 2);
	switch (vf_choose("history", 3)) { // d gets the same contents by another route
	case 0: break;
	case 1: d.rehash(40); break;
	case 2: { Model t; build(d, t, S_THREE_FULL); for (int i = 0; i < t.n; ++i) d.erase(Key(u32(t.id[i]))); break; }
	}
	for (int i = 0; i < m.n; ++i) { int j = rev ? m.n - 1 - i : i; const Elem e = mk(m.id[j], m.val[j]); d.insert(e); n.insert(m.id[j], m.val[j]); }
	same(c, d, true);
	if (m.n) {
		const int w = int(vf_choose("which", 2)) ? m.n - 1 : 0; const u32 k = m.id[w];
		switch (vf_choose("difference", 4)) {
		case 0: d.erase(Key(k)); n.erase(k); same(c, d, false); break;
		case 1: { u32 x = g_used++; H[x] = vf_choose("alike", 2) ? H[k] : mkh(1, 1); d.erase(Key(k)); n.erase(k); const Elem e = mk(x, m.val[w]); d.insert(e); n.insert(x, m.val[w]); same(c, d, false); break; }
#if MAP
		case 2: { u32 v = static_cast<u32>(vf_sym("value", 32)), u = static_cast<u32>(vf_sym("value", 32)); d.at(Key(k)) = v; n.set(k, v); c.at(Key(k)) = u; m.set(k, u); same(c, d, u == v); break; }
#endif
		default: { u32 x = g_used++; H[x] = H[k]; const Elem e = mk(x, 1); d.insert(e); n.insert(x, 1); same(c, d, false); d.erase(Key(x)); n.erase(x); same(c, d, true); break; }
		}
	} else { op_insert(d, n, 0); same(c, d, false); }
	check(c, m, g_used); check(d, n, g_used);
	vf_cover("end");
}
