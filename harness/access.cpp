// C20: at() and operator[] refer to the stored value of the key, or report / create its absence.
#define MAP 1
#define TRACK 1
#include "lib.h"
#ifndef SHAPES
#define SHAPES S_EMPTY, S_ONE, S_SEVEN_FULL, S_TOMB_SMALL, S_CLEARED
#endif
static const unsigned char shapes[] = {SHAPES};
extern "C" void vf_main()
{
	sym_hashes(); Cont c; Model m;
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, shapes[vf_choose("shape", sizeof(shapes))]);
	if (NS > 1 && vf_choose("last", 2)) op_insert(c, m, NS - 1, 8);
	const unsigned w = vf_choose("key", NS + 1); const u32 k = w < NS ? w : m.n ? m.id[m.n / 2] : 0;
	const int i = m.find(k); const bool had = i >= 0; const Cont &cc = c; const Key key(k);
	const u32 nv = static_cast<u32>(vf_sym("value", 32));
	switch (vf_choose("form", 6)) {
	case 0: { bool t = false; try { Val &v = c.at(key); VF_CHECK(had, "at of an absent key throws"); VF_CHECK(v.get() == m.val[i], "at yields the stored value"); VF_CHECK(&v == &(*c.find(key)).second, "at refers to the stored value"); v = Val(nv); m.set(k, nv); } catch (const std::out_of_range &) { t = true; }
		VF_CHECK(t == !had, "at throws exactly for an absent key"); break; }
	case 1: { bool t = false; try { const Val &v = cc.at(key); VF_CHECK(had, "at of an absent key throws"); VF_CHECK(v.get() == m.val[i], "at yields the stored value"); VF_CHECK(&v == &(*cc.find(key)).second, "at refers to the stored value"); } catch (const std::out_of_range &) { t = true; }
		VF_CHECK(t == !had, "at throws exactly for an absent key"); break; }
	case 2: { Val &v = c[key]; VF_CHECK(v.get() == (had ? m.val[i] : 0), "operator[] yields the stored or a default value"); VF_CHECK(&v == &c.at(key), "operator[] refers to the stored value"); if (!had) m.insert(k, 0); v = Val(nv); m.set(k, nv); break; }
	case 3: { Key named(k); Val &v = c[named]; VF_CHECK(!named.moved, "operator[] does not consume a named key"); VF_CHECK(v.get() == (had ? m.val[i] : 0), "operator[] yields the stored or a default value"); VF_CHECK(&v == &c.at(key), "operator[] refers to the stored value"); if (!had) m.insert(k, 0); break; }
	case 4: { Val &v = c[Key(k)]; VF_CHECK(v.get() == (had ? m.val[i] : 0), "operator[] yields the stored or a default value"); VF_CHECK(&v == &c.at(key), "operator[] refers to the stored value"); if (!had) m.insert(k, 0); v = Val(nv); m.set(k, nv); break; }
	case 5: { Key a(k), b(k); bool t = false; try { (void)c.at(a); } catch (const std::out_of_range &) { t = true; } VF_CHECK(t == !had, "at throws exactly for an absent key"); VF_CHECK(!a.moved, "at does not consume its key"); c[a] = Val(nv); Val &v = c[std::move(b)]; VF_CHECK(v.get() == nv, "operator[] after assignment"); VF_CHECK(c.at(a).get() == nv, "at after assignment"); if (!m.insert(k, nv)) m.set(k, nv); break; }
	}
	check_all(c, m, g_used);
	vf_cover("end");
}
