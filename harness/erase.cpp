// C12: erasing by key, position or range removes exactly that; the returned iterator is the next position; all other elements stay where iteration and lookup find them.
#include "lib.h"
#ifndef SRC
#define SRC S_ONE, S_THREE_FULL, S_SEVEN_FULL, S_TOMB_SMALL, S_SAME_CHAIN
#endif
static const unsigned char src[] = {SRC};
extern "C" void vf_main()
{
	sym_hashes(); Cont c; Model m;
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, src[sizeof(src) == 1 ? 0 : vf_choose("shape", sizeof(src))]);
	if (vf_choose("last", 2)) op_insert(c, m, NS - 1);
	u8 seq[NK]; int n = 0; for (auto it = c.cbegin(); it != c.cend(); ++it) seq[n++] = u8(kid(*it));
	VF_CHECK(n == m.n, "iteration yields every element");
	auto at = [&](int i) { auto it = c.cbegin(); while (i--) ++it; return it; };
	const int f = int(vf_choose("from", unsigned(n) + 1)); int len = 0;
	switch (vf_choose("form", 5)) {
	case 0: { // by position, constant iterator
		if (f == n) break;
		len = 1; auto r = c.erase(at(f)); m.erase(seq[f]);
#if FAM != 3 || ORD
		if (f + 1 < n) VF_CHECK(r != c.end() && kid(*r) == seq[f + 1], "erase returns the next element"); else VF_CHECK(r == c.end(), "erase of the last element returns end()");
#else
		VF_CHECK(r - c.begin() == f, "erase returns the same position"); // dense: the last element moves into the gap
#endif
		break; }
	case 1: { // by position, mutable iterator
		if (f == n) break;
		auto it = c.begin(); for (int i = 0; i < f; ++i) ++it;
		len = 1; auto r = c.erase(it); m.erase(seq[f]);
		if (f + 1 == n) VF_CHECK(r == c.end(), "erase of the last element returns end()"); else VF_CHECK(r != c.end(), "erase returns the next element");
		break; }
	case 2: { // range
		len = int(vf_choose("len", unsigned(n - f) + 1));
		auto r = c.erase(at(f), at(f + len)); for (int i = 0; i < len; ++i) m.erase(seq[f + i]);
#if FAM != 3 || ORD
		if (f + len < n) VF_CHECK(r != c.end() && kid(*r) == seq[f + len], "range erase returns the element after the range"); else VF_CHECK(r == c.end(), "range erase up to the end returns end()");
#else
		VF_CHECK(r - c.begin() == f, "range erase returns the same position");
#endif
		break; }
	case 3: { // by key, present or absent (0 and NS-1 may be either)
		u32 k = f == n ? u32(vf_choose("sym", NS)) : seq[f]; bool had = m.has(k);
		auto sz = c.size(); op_erase(c, m, k, 0); VF_CHECK(c.size() == sz - had, "size after erase by key"); break; }
	case 4: { // erase while iterating: every element is visited exactly once
		const u32 sel = vf_choose("sel", 16); u64 seen = 0; int steps = 0;
		for (auto it = c.begin(); it != c.end(); ++steps) { u32 k = kid(*it); VF_CHECK(k < NK && !(seen >> k & 1), "erasing loop visits an element twice"); seen |= u64(1) << k; if (sel >> (k & 3) & 1) { it = c.erase(it); m.erase(k); } else ++it; }
		VF_CHECK(steps == n, "erasing loop visits every element"); break; }
	}
	VF_CHECK(c.size() == size_t(m.n), "size after erasure");
	check_all(c, m, g_used);
	for (int i = 0; i < n && i < 3; ++i) if (!m.has(seq[i])) op_insert(c, m, seq[i], i & 1); // erased keys can come back
	op_insert(c, m, 0);
	check_all(c, m, g_used);
	vf_cover("end");
}
