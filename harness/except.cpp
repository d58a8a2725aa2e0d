// C18: an exception from the n-th fallible step (allocation, element construction or copy, hash, comparison), for every n, leaves valid containers and no leak.
#define TRACK 1
#define USE_SALLOC
#include "lib.h"
#ifndef SRC
#define SRC S_EMPTY, S_ONE, S_SEVEN_FULL, S_TOMB_SMALL
#endif
#ifndef FORMS
#define FORMS 16
#endif
static const unsigned char src[] = {SRC};
typedef SAlloc<Elem> A;
// valid: every element seen by iteration is found, counted once, and is one of `a` (or of `b`)
static void valid(Cont &c, const Model &a, const Model *b, bool exact)
{
	g_countdown = -1;
	if (exact) { check_all(c, a, g_used); return; }
	u64 seen = 0; int n = 0;
	for (auto it = c.begin(); it != c.end(); ++it) {
		u32 k = kid(*it); VF_CHECK(k < NK && !(seen >> k & 1), "iteration after a fault yields an element twice"); seen |= u64(1) << k; ++n;
		int i = a.find(k), j = b ? b->find(k) : -1; VF_CHECK(i >= 0 || j >= 0, "after a fault no unknown element appears");
		VF_CHECK(!MAP || (i >= 0 && vof(*it) == a.val[i]) || (j >= 0 && vof(*it) == b->val[j]), "after a fault mapped values are intact");
		VF_CHECK(c.contains(Key(k)), "after a fault every element seen by iteration is found");
	}
	VF_CHECK(c.size() == size_t(n), "size after a fault");
	for (int k = 0; k < g_used; ++k) VF_CHECK(c.contains(Key(u32(k))) == bool(seen >> k & 1), "after a fault lookup and iteration agree");
}
static void reuse(Cont &c)
{
	for (int k = 0; k < NS; ++k) { const Elem e = mk(u32(k), 7); (void)c.insert(e); VF_CHECK(c.contains(Key(u32(k))), "usable after a fault"); }
	const size_t n = c.size(); (void)c.erase(Key(0u)); VF_CHECK(c.size() == n - 1 && !c.contains(Key(0u)), "usable after a fault");
	c.clear(); Model e; check_all(c, e, g_used); op_insert(c, e, NS - 1); for (int i = 0; i < 4; ++i) put(c, e, mkh(u64(i), 7)); check_all(c, e, g_used);
}
template<class F> static bool tried(F &&f) { bool thrown = false; try { f(); } catch (const Fault &) { thrown = true; } g_countdown = -1; VF_CHECK(thrown == g_faulted, "the exception reaches the caller"); g_faulted = false; return thrown; }
static void arm() { g_countdown = int(vf_sym("fault", 16)); vf_assume(g_countdown >= 0); }
static void body()
{
	Cont c{A(1)}; Model m;
	op_insert(c, m, 0); if (vf_choose("first", 2)) op_erase(c, m, 0);
	build(c, m, src[sizeof(src) == 1 ? 0 : vf_choose("shape", sizeof(src))]);
#ifdef ONE_FORM
	const unsigned form = ONE_FORM;
#else
	const unsigned form = vf_choose("form", FORMS);
#endif
	bool bad, exact = false; Model b = m; Model *pb = &b;
	const u32 k = NS - 1, v = 5000;
	switch (form) {
	case 0: { const Elem e = mk(k, v); arm(); bad = tried([&] { (void)c.insert(e); }); b.insert(k, v); exact = true; break; }
	case 1: { Elem e = mk(k, v); arm(); bad = tried([&] { (void)c.insert(std::move(e)); }); b.insert(k, v); exact = true; break; }
	case 2: arm(); bad = tried([&] { (void)c.emplace(
#if MAP
		std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v)
#else
		k
#endif
		); }); b.insert(k, v); exact = true; break;
	case 3: { const Elem e = mk(k, v); arm(); bad = tried([&] { (void)c.insert(c.cbegin(), e); });
		b.insert(k, v); exact = true; // where an ordered hint puts it is C25's; here: the contents
		if (!bad) { valid(c, b, nullptr, !ORD); reuse(c); return; }
		break; }
#if MAP
	case 4: { const Key key(k); arm(); bad = tried([&] { (void)c.try_emplace(key, v); }); b.insert(k, v); exact = true; break; }
	case 5: { const Key key(k); const Val val(v); arm(); bad = tried([&] { (void)c.insert_or_assign(key, val); }); if (!b.insert(k, v)) b.set(k, v); exact = true; break; }
	case 6: { const Key key(k); arm(); bad = tried([&] { (void)c[key]; }); b.insert(k, 0); exact = true; break; }
	case 7: { const Key key(0u); const Val val(v); if (!m.has(0)) return; arm(); bad = tried([&] { (void)c.insert_or_assign(key, val); }); b.set(0, v); exact = true; break; }
#else
	case 4: case 5: case 6: case 7: return;
#endif
	case 8: { const u32 x = m.n ? m.id[m.n / 2] : 0; const Key key(x); arm(); bad = tried([&] { (void)c.erase(key); (void)c.contains(key); (void)c.find(key); }); b.erase(x); break; }
	case 9: arm(); bad = tried([&] { c.rehash(40); }); break;
	case 10: arm(); bad = tried([&] { c.reserve(20); c.rehash(0); }); break;
	case 11: { arm(); bool made = false; bad = tried([&] { Cont d(c); made = true; VF_CHECK(d.size() == c.size(), "copied"); }); VF_CHECK(made || bad, "copied or thrown"); b = m; exact = true; break; }
	case 12: { Cont d{A(2)}; Model o; put(d, o, mkh(1, 1)); put(d, o, mkh(1, 1)); arm(); bad = tried([&] { d = c; }); valid(c, m, nullptr, true);
		if (!bad) check_all(d, m, g_used); else valid(d, o, &m, false);
		reuse(d); b = m; exact = true; break; }
	case 13: { Cont d{A(2)}; Model o; put(d, o, mkh(1, 1)); put(d, o, mkh(1, 1)); arm(); bad = tried([&] { d = std::move(c); });
		if (!bad) check_all(d, m, g_used); else valid(d, o, &m, false);
		reuse(d); if (bad) valid(c, m, nullptr, false); else c.clear(); reuse(c); return; }
	case 14: { const Elem e[4] = {mk(k, v), mk(0, v + 1), mk(k, v + 2), mk(NS - 1, v + 3)}; b.insert(k, v); b.insert(0, v + 1); arm();
		if (vf_choose("ctor", 2)) { bad = tried([&] { Cont d(e, e + 4, 0, Hash{}, Cmp{}, A(3)); VF_CHECK(d.size() <= 2, "built"); }); b = m; exact = true; }
		else bad = tried([&] { c.insert(e, e + 4); });
		break; }
	case 15: { arm(); bool made = false; bad = tried([&] { Cont d(std::move(c), A(2)); made = true; check(d, m, g_used); }); if (!bad) { c.clear(); reuse(c); return; } valid(c, m, nullptr, false); reuse(c); return; }
	default: return;
	}
	if (!bad) valid(c, b, nullptr, true); else valid(c, m, pb, exact);
	reuse(c);
	vf_cover(bad ? "fault" : "no fault");
}
extern "C" void vf_main()
{
	sym_hashes(); const auto live = vf_live();
	body();
	VF_CHECK(g_live == 0, "no element is leaked or destroyed twice"); VF_CHECK(g_blocks == 0, "no block is leaked"); VF_CHECK(vf_live() == live, "no memory is leaked");
	vf_cover("end");
}
