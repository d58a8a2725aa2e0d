// C16: life times of elements and memory over histories that include the whole-container operations.
#define TRACK 1
#include "lib.h"
#ifndef SHAPES
#define SHAPES S_EMPTY, S_ONE, S_SEVEN_FULL, S_TOMB_SMALL
#endif
#ifndef OPS
#define OPS 14
#endif
#ifndef DEPTH
#define DEPTH 2
#endif
static const unsigned char shapes[] = {SHAPES};
static void body()
{
	Cont c; Model m;
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, shapes[vf_choose("shape", sizeof(shapes))]);
	const unsigned conc = m.n ? m.id[m.n / 2] : 0;
	for (unsigned i = 0, d = 1 + vf_choose("depth", DEPTH); i < d; ++i) {
		const unsigned op = vf_choose("op", OPS); unsigned k = op < 6 ? vf_choose("key", NS + 1) : 0; if (k == NS) k = conc;
		switch (op) {
		case 0: op_insert(c, m, k, 0); break;
		case 1: op_insert(c, m, k, 1); break;
		case 2: op_insert(c, m, k, MAP ? 5 : 2); break;
		case 3: op_insert(c, m, k, MAP ? 7 : 2); break;
		case 4: op_erase(c, m, k, 0); break;
		case 5: op_erase(c, m, k, 1); break;
		case 6: op_clear(c, m); break;
		case 7: c.rehash(vf_choose("n", 2) ? 0 : 33); break;
		case 8: { Cont d(c); check(d, m, g_used); c = d; break; }
		case 9: { Cont d(std::move(c)); check(d, m, g_used); c = std::move(d); break; }
		case 10: { Cont d; Model n; put(d, n, mkh(3, 3)); d.swap(c); check(d, m, g_used); if (vf_choose("back", 2)) c = d; else m = n; break; }
		case 11: { const Elem e[3] = {mk(0, 1), mk(NS - 1, 2), mk(conc, 3)}; m.insert(0, 1); m.insert(NS - 1, 2); m.insert(conc, 3); c.insert(e, e + 3); break; }
		case 12: { Model l; for (int j = 0; j < m.n; ++j) if (j & 1) l.insert(m.id[j], m.val[j]); auto n = erase_if(c, [&](auto &&e) { return !l.has(kid(e)); }); VF_CHECK(int(n) == m.n - l.n, "erase_if count"); m = l; break; }
		case 13: { std::initializer_list<Cont::value_type> il = {mk(0, 5), mk(0, 6)}; c = il; m.n = 0; m.insert(0, 5); break; }
		}
	}
	check_all(c, m, g_used);
	VF_CHECK(g_live == m.n * (MAP ? 2 : 1), "exactly the stored elements are alive");
}
extern "C" void vf_main()
{
	sym_hashes(); const auto live = vf_live();
	body();
	VF_CHECK(g_live == 0, "every element is destroyed exactly once"); VF_CHECK(vf_live() == live, "no memory is leaked");
	vf_cover("end");
}
