// C19 (and C20's operator[]): overwrite exactly when asked; report; leave arguments alone when not inserting; all hinted and unhinted overloads.
#define MAP 1
#define TRACK 1
#include "lib.h"
#ifndef SHAPES
#define SHAPES S_EMPTY, S_SEVEN_FULL, S_TOMB_SMALL
#endif
static const unsigned char shapes[] = {SHAPES};
extern "C" void vf_main()
{
	sym_hashes(); Cont c; Model m;
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, shapes[vf_choose("shape", sizeof(shapes))]);
	const unsigned w = vf_choose("key", NS + 1); const u32 k = w < NS ? w : m.n ? m.id[m.n / 2] : 0;
	const int i = m.find(k); const bool had = i >= 0; const u32 old = had ? m.val[i] : 0, nv = static_cast<u32>(vf_sym("value", 32));
	const Key ck(k); Key mkey(k); const Val cvv(nv); Val mv(nv); const Elem ce = mk(k, nv); Elem me = mk(k, nv);
	auto hint = c.cbegin(); const int hi = m.n ? m.find(kid(*hint)) : -1; const bool hinted = m.n > 0;
	auto inserted = [&](bool h) { if (had) return; if (ORD && h && hinted) m.insert_after(hi, k, nv); else m.insert(k, nv); };
	auto val = [&](auto it) { VF_CHECK(it != c.end() && kid(*it) == k, "an iterator to the entry is returned"); return vof(*it); };
	auto keep = [&](auto r) { inserted(false); VF_CHECK(r.second == !had, "reports whether it inserted"); VF_CHECK(val(r.first) == (had ? old : nv), "an existing mapped value is not changed"); };
	auto over = [&](auto r) { inserted(false); if (had) m.set(k, nv); VF_CHECK(r.second == !had, "reports whether it inserted"); VF_CHECK(val(r.first) == nv, "the given value is stored"); };
	auto keeph = [&](auto r) { inserted(true); VF_CHECK(val(r) == (had ? old : nv), "an existing mapped value is not changed"); };
	auto overh = [&](auto r) { inserted(true); if (had) m.set(k, nv); VF_CHECK(val(r) == nv, "the given value is stored"); };
	auto untouched = [&](bool keyarg) { if (had) { VF_CHECK(!mv.moved, "try_emplace leaves its arguments untouched"); if (keyarg) VF_CHECK(!mkey.moved, "try_emplace leaves its key untouched"); } };
	switch (vf_choose("form", 26)) {
	case 0: keep(c.insert(ce)); break;
	case 1: keep(c.insert(std::move(me))); break;
	case 2: keep(c.emplace(ck, cvv)); break;
	case 3: keep(c.emplace(std::move(mkey), std::move(mv))); break;
	case 4: keep(c.emplace(ce)); break;
	case 5: keep(c.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(nv))); break;
	case 6: keep(c.try_emplace(ck, cvv)); break;
	case 7: keep(c.try_emplace(ck, std::move(mv))); untouched(false); break;
	case 8: keep(c.try_emplace(std::move(mkey), std::move(mv))); untouched(true); break;
	case 9: over(c.insert_or_assign(ck, cvv)); break;
	case 10: over(c.insert_or_assign(ck, std::move(mv))); break;
	case 11: over(c.insert_or_assign(std::move(mkey), std::move(mv))); break;
	case 12: over(c.emplace_or_replace(ck, nv)); break;
	case 13: over(c.emplace_or_replace(std::move(mkey), std::move(mv))); break;
	case 14: keeph(c.insert(hint, ce)); break;
	case 15: keeph(c.insert(hint, std::move(me))); break;
	case 16: keeph(c.emplace_hint(hint, ck, cvv)); break;
	case 17: keeph(c.try_emplace(hint, ck, std::move(mv))); untouched(false); break;
	case 18: keeph(c.try_emplace(hint, std::move(mkey), std::move(mv))); untouched(true); break;
	case 19: overh(c.insert_or_assign(hint, ck, cvv)); break;
	case 20: overh(c.insert_or_assign(hint, std::move(mkey), std::move(mv))); break;
	case 21: overh(c.emplace_or_replace(hint, ck, nv)); break;
	case 22: overh(c.emplace_or_replace(hint, std::move(mkey), std::move(mv))); break;
	case 23: { auto &r = c[ck]; VF_CHECK(r.get() == (had ? old : 0), "operator[] gives the stored or a default value"); if (!had) m.insert(k, 0); r = Val(nv); m.set(k, nv); break; }
	case 24: { auto &r = c[mkey]; VF_CHECK(!mkey.moved, "operator[] does not consume a named key"); if (!had) m.insert(k, 0); VF_CHECK(r.get() == (had ? old : 0), "operator[] gives the stored or a default value"); break; }
	case 25: { auto &r = c[std::move(mkey)]; if (!had) m.insert(k, 0); VF_CHECK(r.get() == (had ? old : 0), "operator[] gives the stored or a default value"); if (had) VF_CHECK(!mkey.moved || true, "-"); break; }
	}
	check_all(c, m, g_used);
	vf_cover("end");
}
