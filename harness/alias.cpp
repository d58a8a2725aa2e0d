// C27: arguments that refer to the container's own elements give what equal independent objects give, even when the table grows or reclaims slots.
#define TRACK 1
#include "lib.h"
#ifndef SHAPES
#define SHAPES S_ONE, S_THREE_FULL, S_SEVEN_FULL, S_TOMB_SMALL, S_SAT31
#endif
static const unsigned char shapes[] = {SHAPES};
extern "C" void vf_main()
{
	sym_hashes(); Cont c; Model m;
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, shapes[sizeof(shapes) == 1 ? 0 : vf_choose("shape", sizeof(shapes))]);
	const int at = int(vf_choose("own", 3)) * (m.n - 1) / 2; // the first, a middle and the last own element
	const u32 own = m.id[at], ov = m.val[at], k = NS - 1; const bool had = m.has(k); const int ki = m.find(k);
	const Key nk(k), ownk(own); auto it = c.find(ownk); auto hint = c.cbegin(); const int hi = m.find(kid(*hint));
	auto &&e = *it;
	auto ret = [&](auto r, u32 id, u32 v) { VF_CHECK(r != c.end() && kid(*r) == id, "returns the entry"); VF_CHECK(!MAP || vof(*r) == v, "stored value of an own argument"); };
	auto added = [&](bool over, bool h = false) { if (had) { if (over) m.set(k, ov); } else if (h && ORD) m.insert_after(hi, k, ov); else m.insert(k, ov); };
	switch (vf_choose("form", MAP ? 18 : 8)) {
#if MAP
	case 0: { auto r = c.insert(e); VF_CHECK(!r.second, "an own element is already there"); ret(r.first, own, ov); break; }
	case 1: { auto r = c.emplace(e.first, e.second); VF_CHECK(!r.second, "an own element is already there"); ret(r.first, own, ov); break; }
	case 2: c.erase(e.first); m.erase(own); break;
	case 3: VF_CHECK(c.contains(e.first) && c.find(e.first) == it, "find by an own key"); VF_CHECK(c.at(e.first).get() == ov, "at by an own key"); break;
	case 4: { auto r = c.try_emplace(nk, e.second); ret(r.first, k, had ? m.val[ki] : ov); added(false); break; }
	case 5: { auto r = c.insert_or_assign(nk, e.second); ret(r.first, k, ov); added(true); break; }
	case 6: { auto r = c.emplace(nk, e.second); ret(r.first, k, had ? m.val[ki] : ov); added(false); break; }
	case 7: { auto r = c.emplace_or_replace(nk, e.second); ret(r.first, k, ov); added(true); break; }
	case 8: { auto r = c.try_emplace(hint, nk, e.second); ret(r, k, had ? m.val[ki] : ov); added(false, true); break; }
	case 9: { auto r = c.insert_or_assign(hint, nk, e.second); ret(r, k, ov); added(true, true); break; }
	case 10: { auto r = c.emplace_hint(hint, nk, e.second); ret(r, k, had ? m.val[ki] : ov); added(false, true); break; }
	case 11: { auto r = c.emplace_or_replace(hint, nk, e.second); ret(r, k, ov); added(true, true); break; }
	case 12: { auto r = c.insert_or_assign(e.first, e.second); ret(r.first, own, ov); break; }
	case 13: { auto r = c.emplace_or_replace(e.first, e.second); ret(r.first, own, ov); break; }
	case 14: { const Key key(k); auto r = c.insert_or_assign(e.first, Val(9)); m.set(own, 9); ret(r.first, own, 9); break; }
	case 15: VF_CHECK(c[e.first].get() == ov, "operator[] with an own key"); break;
	case 16: { auto r = c.try_emplace(e.first, 7u); VF_CHECK(!r.second, "own key is there"); ret(r.first, own, ov); break; }
	case 17: { Elem x(nk, e.second); auto r = c.insert(x); ret(r.first, k, had ? m.val[ki] : ov); added(false); break; }
#else
	case 0: { auto r = c.insert(e); VF_CHECK(!r.second, "an own element is already there"); ret(r.first, own, ov); break; }
	case 1: { auto r = c.emplace(e); VF_CHECK(!r.second, "an own element is already there"); ret(r.first, own, ov); break; }
	case 2: c.erase(e); m.erase(own); break;
	case 3: VF_CHECK(c.contains(e) && c.find(e) == it, "find by an own element"); break;
	case 4: ret(c.insert(hint, e), own, ov); break;
	case 5: ret(c.emplace_hint(hint, e), own, ov); break;
	case 6: c.erase(*c.begin()); { u32 first = 0; for (int i = 0; i < m.n; ++i) if (!c.contains(Key(u32(m.id[i])))) first = m.id[i]; m.erase(first); } break;
	case 7: { auto r = c.emplace(e.v); VF_CHECK(!r.second, "an own element is already there"); ret(r.first, own, ov); break; }
#endif
	}
	check_all(c, m, g_used);
	vf_cover("end");
}
