// C17: every block goes back, with its size, to an allocator equal to the one that gave it; propagation follows the traits.
#define USE_SALLOC
#include "lib.h"
#ifndef SRC
#define SRC S_EMPTY, S_ONE, S_SEVEN_FULL, S_TOMB_SMALL
#endif
#ifndef DST
#define DST S_EMPTY, S_ONE, S_CLEARED
#endif
static const unsigned char src[] = {SRC}, dst[] = {DST};
typedef SAlloc<Elem> A;
static void aid(const Cont &c, int id) { VF_CHECK(c.get_allocator().id == id, "get_allocator reports the allocator in use"); }
static void use(Cont &c, Model &m) { op_insert(c, m, 0); if (m.n > 1) op_erase(c, m, m.id[0], 1); op_insert(c, m, NS - 1); for (int i = 0; i < 3; ++i) put(c, m, mkh(i, 7)); check_all(c, m, g_used); }
static void body()
{
	const int ib = 1 + int(vf_choose("unequal", 2));
	Cont c{A(1)}; Model m; aid(c, 1);
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, src[vf_choose("shape", sizeof(src))]);
#ifdef ONLY
	static const unsigned char only[] = {ONLY}; const unsigned form = only[vf_choose("form", sizeof(only))]; // the forms this allocator's traits matter to
#else
	const unsigned form = vf_choose("form", 10);
#endif
	switch (form) {
	case 0: { Cont d(c); aid(d, SOCCC ? 101 : 1); check_all(d, m, g_used); Model n = m; use(d, n); break; }
	case 1: { Cont d(c, A(ib)); aid(d, ib); check_all(d, m, g_used); Model n = m; use(d, n); break; }
	case 2: { Cont d(std::move(c)); aid(d, 1); aid(c, 1); check_all(d, m, g_used); Model e; c.clear(); use(c, e); use(d, m); m = e; break; }
	case 3: { Cont d(std::move(c), A(ib)); aid(d, ib); check_all(d, m, g_used); Model e; c.clear(); use(c, e); use(d, m); m = e; break; }
	case 4: { Cont d{A(ib)}; Model o; build(d, o, dst[vf_choose("dst", sizeof(dst))]); d = c; aid(d, POCCA ? 1 : ib); check_all(d, m, g_used); Model n = m; use(d, n); break; }
	case 5: { Cont d{A(ib)}; Model o; build(d, o, dst[vf_choose("dst", sizeof(dst))]); d = std::move(c); aid(d, POCMA ? 1 : ib); check_all(d, m, g_used); Model e; c.clear(); use(c, e); use(d, m); m = e; break; }
	case 6: { const int id = POCS ? ib : 1; Cont d{A(id)}; Model o; build(d, o, dst[vf_choose("dst", sizeof(dst))]); if (vf_choose("free", 2)) { using std::swap; swap(c, d); } else c.swap(d); aid(d, 1); aid(c, id); check_all(d, m, g_used); check_all(c, o, g_used); use(d, m); m = o; break; }
	case 7: {
		const Elem e[3] = {mk(0, 1), mk(NS - 1, 2), mk(0, 3)}; Model n; n.insert(0, 1); n.insert(NS - 1, 2);
		Cont d(e, e + 3, vf_choose("bc", 2) * 9, Hash{}, Cmp{}, A(ib)); aid(d, ib); check_all(d, n, NS); use(d, n); break; }
	case 8: { Cont d(size_t(vf_choose("bc", 20)), Hash{}, Cmp{}, A(ib)); aid(d, ib); Model n; use(d, n); break; }
	case 9:
#if FAM == 2
	{
		if (!m.n) break;
		Cont d{A(1)}; Model n; const u32 k = m.id[m.n / 2]; const Key key(k); const u32 v = m.val[m.n / 2];
		auto nh = c.extract(key); m.erase(k); VF_CHECK(nh.get_allocator().id == 1, "handle's allocator");
		switch (vf_choose("node", 4)) {
		case 0: { auto r = d.insert(std::move(nh)); VF_CHECK(r.inserted, "inserted elsewhere"); n.insert(k, v); break; }
		case 1: break;
		case 2: { d.merge(c); n = m; m.n = 0; break; }
		case 3: { Cont::node_type x; x = std::move(nh); (void)c.insert(std::move(x)); m.insert(k, v); break; }
		}
		check_all(d, n, g_used); use(d, n);
	}
#endif
		break;
	}
	aid(c, c.get_allocator().id);
	check_all(c, m, g_used); use(c, m); c.rehash(vf_choose("rehash", 2) * 40); check_all(c, m, g_used);
}
extern "C" void vf_main()
{
	sym_hashes(); const auto live = vf_live();
	body();
	VF_CHECK(g_blocks == 0, "every block is returned exactly once"); VF_CHECK(vf_live() == live, "no memory is leaked");
	vf_cover("end");
}
