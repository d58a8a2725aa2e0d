// C25: hints never change what is stored; in ordered containers a hint at an element places a new element directly after it.
#define TRACK 1
#include "lib.h"
#ifndef SHAPES
#define SHAPES S_EMPTY, S_ONE, S_SEVEN_FULL, S_TOMB_SMALL
#endif
static const unsigned char shapes[] = {SHAPES};
extern "C" void vf_main()
{
	sym_hashes(); Cont c; Model m;
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, shapes[vf_choose("shape", sizeof(shapes))]);
	const unsigned w = vf_choose("key", NS + 1); const u32 k = w < NS ? w : m.n ? m.id[m.n / 2] : 0;
	const int i = m.find(k); const bool had = i >= 0; const u32 old = had ? m.val[i] : 0, nv = 777;
	const int h = int(vf_choose("hint", u32(m.n) + 1)); auto hint = c.cbegin(); auto mhint = c.begin(); for (int j = 0; j < h; ++j) { ++hint; ++mhint; }
	const int hi = h < m.n ? m.find(kid(*hint)) : -2;
	const Elem ce = mk(k, nv); Elem me = mk(k, nv); const Key ck(k); Key mkey(k);
	bool over = false;
	auto chk = [&](auto r) { VF_CHECK(r != c.end() && kid(*r) == k, "a hinted insertion returns the element"); if (over && had) m.set(k, nv); VF_CHECK(!MAP || vof(*r) == (had && !over ? old : nv), "a hinted insertion stores what the plain one would"); };
	switch (vf_choose("form", MAP ? 19 : 8)) {
	case 0: chk(c.insert(hint, ce)); break;
	case 1: chk(c.insert(hint, std::move(me))); break;
	case 2: chk(c.emplace_hint(hint, ce)); break;
	case 3: chk(c.emplace_hint(hint, std::move(me))); break;
	case 4: chk(c.insert(mhint, ce)); break;
	case 5: chk(c.insert(mhint, std::move(me))); break;
	case 6:
#if FAM == 2
		{ Cont o; Model t; put(o, t, mkh(2, 2)); const Elem e = mk(k, nv); o.insert(e); auto nh = o.extract(ck); chk(c.insert(hint, std::move(nh))); VF_CHECK(nh.empty() == !had, "a hinted node insertion keeps the node exactly when it fails"); }
		break;
#else
		chk(c.emplace_hint(mhint, ce)); break;
#endif
	case 7: chk(c.emplace_hint(mhint,
#if MAP
		std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(nv)
#else
		k
#endif
		)); break;
#if MAP
	case 8: chk(c.emplace_hint(hint, ck, Val(nv))); break;
	case 9: chk(c.try_emplace(hint, ck, nv)); break;
	case 10: chk(c.try_emplace(hint, std::move(mkey), nv)); break;
	case 11: chk(c.try_emplace(mhint, ck, nv)); break;
	case 12: chk(c.try_emplace(mhint, std::move(mkey), nv)); break;
	case 13: over = true; chk(c.insert_or_assign(hint, ck, Val(nv))); break;
	case 14: over = true; chk(c.insert_or_assign(hint, std::move(mkey), Val(nv))); break;
	case 15: over = true; chk(c.emplace_or_replace(hint, ck, nv)); break;
	case 16: over = true; chk(c.emplace_or_replace(hint, std::move(mkey), nv)); break;
	case 17: over = true; chk(c.emplace_or_replace(mhint, ck, nv)); break;
	case 18: over = true; chk(c.emplace_or_replace(mhint, std::move(mkey), nv)); break;
#endif
	}
	if (!had) {
#if ORD
		if (hi >= 0) m.insert_after(hi, k, nv);
		else { // the position a hint at end() gives is not specified: the others keep their order
			int at = -1, j = 0; for (auto it = c.cbegin(); it != c.cend(); ++it, ++j) if (kid(*it) == k) at = j;
			VF_CHECK(at >= 0, "the new element is stored"); m.insert_after(at - 1, k, nv);
		}
#else
		m.insert(k, nv);
#endif
	}
	check_all(c, m, g_used);
	vf_cover("end");
}
