// C08: moving transfers everything and leaves a reusable source.
#include "lib.h"
#ifndef SRC
#define SRC S_EMPTY, S_ONE, S_SEVEN_FULL, S_TOMB_SMALL, S_CLEARED
#endif
#ifndef DST
#define DST S_EMPTY, S_ONE, S_SEVEN_FULL, S_CLEARED
#endif
#ifndef LIMIT
#define LIMIT (MAP == ORD)
#endif
static void limit(const Cont &d)
{
#if FAM == 3
	VF_CHECK(!LIMIT || d.max_load_factor() == 1.5f, "the load limit is moved");
#else
	(void)d;
#endif
}
static const unsigned char src[] = {SRC}, dst[] = {DST};
static void mutate(Cont &c, Model &m, u32 sym)
{
	if (m.n) { u32 k = m.id[m.n / 2]; op_erase(c, m, k, 1); }
	op_insert(c, m, sym, 0); op_insert(c, m, NS - 1, 1);
}
static void reuse(Cont &c, const Model &full)
{
	Model m; // the moved-from container is an empty, working one
	{ int n = 0; for (auto it = c.begin(); it != c.end(); ++it) ++n; VF_CHECK(size_t(n) == c.size() && c.empty() == (n == 0), "moved-from container is consistent"); }
	if (vf_choose("clear", 2)) c.clear();
	else { VF_CHECK(c.size() == 0, "moved-from container is empty"); }
	check_all(c, m, NS + 2 < NK ? NS + 2 : NK);
	op_insert(c, m, 0, 0);
	for (int i = 0; i < full.n && i < 9; ++i) if (!m.has(full.id[i])) op_insert(c, m, full.id[i], i % 3);
	check_all(c, m, g_used);
	op_erase(c, m, 0, 1); check_all(c, m, g_used);
}
extern "C" void vf_main()
{
	sym_hashes();
#ifdef USE_SALLOC
	const int ida = 1, idb = 1 + vf_choose("unequal", 2);
	Cont c{SAlloc<Elem>(ida)};
#else
	Cont c;
#endif
	Model m;
#if FAM == 3
	if (LIMIT) c.max_load_factor(1.5f); // a load limit travels with the contents
#endif
	const unsigned sh = src[vf_choose("shape", sizeof(src))];
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, sh);
	const Model full = m;
	switch (vf_choose("form", 4)) {
	case 0: { Cont d(std::move(c)); check_all(d, m, g_used); limit(d); reuse(c, full); mutate(d, m, 0); check_all(d, m, g_used); break; }
	case 1: {
#ifdef USE_SALLOC
		Cont d(std::move(c), SAlloc<Elem>(idb));
#else
		Cont d(std::move(c), c.get_allocator());
#endif
		check_all(d, m, g_used); limit(d); reuse(c, full); mutate(d, m, 0); check_all(d, m, g_used); break; }
	case 2: {
#ifdef USE_SALLOC
		Cont d{SAlloc<Elem>(idb)};
#else
		Cont d;
#endif
		Model old; const unsigned s2 = dst[vf_choose("dst", sizeof(dst))]; build(d, old, s2); if (vf_choose("dsym", 2)) op_insert(d, old, 0);
		d = std::move(c); check_all(d, m, g_used); limit(d); reuse(c, full); mutate(d, m, 0); check_all(d, m, g_used); break; }
	case 3: {
		Cont &self = c; c = std::move(self);
		int n = 0; for (auto it = c.begin(); it != c.end(); ++it) ++n; VF_CHECK(size_t(n) == c.size(), "self-moved container is consistent");
		Model e; c.clear(); op_insert(c, e, 0); op_insert(c, e, NS - 1); check_all(c, e, g_used); break; }
	}
	vf_cover("end");
}
