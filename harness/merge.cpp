// C15: merge of stable containers.
#define TRACK 1
#include "lib.h"
#if OTHER_HASH
static u64 H2[NK];
struct Hash2 { size_t operator()(const Key &k) const { return H2[k.id()]; } };
struct Cmp2 { bool operator()(const Key &a, const Key &b) const { return a.id() == b.id(); } };
#if MAP
typedef tpp::NAME<Key, Val, Hash2, Cmp2, ALLOC(Elem)> Other;
#else
typedef tpp::NAME<Key, Hash2, Cmp2, ALLOC(Elem)> Other;
#endif
#else
typedef Cont Other;
#endif
#ifndef SRC
#define SRC S_EMPTY, S_ONE, S_SEVEN_FULL
#endif
static const unsigned char src[] = {SRC};
static void body()
{
	Cont a; Model ma; Other b; Model mb;
	build(a, ma, src[vf_choose("a", sizeof(src))]); if (vf_choose("a0", 2)) op_insert(a, ma, 0); if (vf_choose("a1", 2)) op_insert(a, ma, NS - 1);
	const int an = ma.n;
	if (vf_choose("b0", 2)) op_insert(b, mb, 0);
	build(b, mb, src[vf_choose("b", sizeof(src))]);
	if (vf_choose("b1", 2)) op_insert(b, mb, NS - 1);
	if (an) { const unsigned sh = vf_choose("shared", 3); if (sh) op_insert(b, mb, ma.id[0]); if (sh == 2) op_insert(b, mb, ma.id[an - 1]); } // keys both hold
	Model kept, res = ma; for (int i = 0; i < mb.n; ++i) if (!res.insert(mb.id[i], mb.val[i])) kept.insert(mb.id[i], mb.val[i]);
	const void *pb[NK] = {}, *pa[NK] = {}; for (auto it = b.cbegin(); it != b.cend(); ++it) pb[kid(*it)] = &*it; for (auto it = a.cbegin(); it != a.cend(); ++it) pa[kid(*it)] = &*it;
	const int copies = g_copies, moves = g_moves, live = g_live;
	switch (vf_choose("form", 3)) {
	case 0: a.merge(b); break;
	case 1: a.merge(std::move(b)); break;
	case 2: a.merge(b); a.merge(b); break;
	}
	VF_CHECK(g_copies == copies && g_live == live, "merge neither copies nor destroys elements"); (void)moves;
	for (auto it = a.cbegin(); it != a.cend(); ++it) { u32 k = kid(*it); VF_CHECK(static_cast<const void *>(&*it) == (pa[k] ? pa[k] : pb[k]), "merge keeps addresses"); }
	check_all(a, res, g_used); check_all(b, kept, g_used);
	if (kept.n) op_erase(b, kept, kept.id[0], 1);
	op_insert(b, kept, 0); op_insert(a, res, NS - 1); op_erase(a, res, 0); op_insert(a, res, 0);
	check_all(a, res, g_used); check_all(b, kept, g_used);
}
extern "C" void vf_main()
{
	sym_hashes(); const auto live = vf_live();
#if OTHER_HASH
	H2[0] = vf_sym("hash2", HBITS); for (int i = 1; i < NK; ++i) H2[i] = mkh(i * 3 % 8, i & 3);
#endif
	body();
	VF_CHECK(g_live == 0, "every element is destroyed exactly once"); VF_CHECK(vf_live() == live, "no memory is leaked");
	vf_cover("end");
}
