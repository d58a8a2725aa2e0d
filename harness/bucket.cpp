// C28: the bucket interface of dense containers partitions the elements by key.
#include "lib.h"
#ifndef SHAPES
#define SHAPES S_ONE, S_THREE_FULL, S_SEVEN_FULL, S_TOMB_SMALL, S_SAME_CHAIN
#endif
static const unsigned char shapes[] = {SHAPES};
template<class C> static void part(C &c, const Model &m)
{
	u64 seen = 0; size_t total = 0;
	for (size_t b = 0; b < c.bucket_count(); ++b) {
		size_t n = 0;
		for (auto it = c.begin(b); it != c.end(b); ++it, ++n) {
			auto &&e = *it; u32 k = kid(e); int i = m.find(k);
			VF_CHECK(i >= 0 && !(seen >> k & 1), "a bucket yields a stored element once"); seen |= u64(1) << k; VF_CHECK(!MAP || vof(e) == m.val[i], "value seen in a bucket");
			VF_CHECK(c.bucket(Key(k)) == b, "a bucket yields the elements of that bucket"); VF_CHECK(n < size_t(m.n), "bucket iteration ends");
		}
		VF_CHECK(c.bucket_size(b) == n, "bucket_size is the number of its elements"); VF_CHECK((c.begin(b) == c.end(b)) == (n == 0), "begin(b)==end(b) iff the bucket is empty"); total += n;
		{ size_t q = 0; for (auto it = c.cbegin(b); it != c.cend(b); ++it) ++q; VF_CHECK(q == n, "constant local iteration"); }
	}
	VF_CHECK(total == size_t(m.n), "buckets hold all elements");
	for (int i = 0; i < m.n; ++i) VF_CHECK(seen >> m.id[i] & 1, "every element is in a bucket");
}
extern "C" void vf_main()
{
	sym_hashes(); Cont c; Model m;
#ifdef SYM_MLF
	{ static const float f[] = {.5f, 1.f, 3.f}; c.max_load_factor(f[vf_choose("mlf", 3)]); }
#endif
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, shapes[sizeof(shapes) == 1 ? 0 : vf_choose("shape", sizeof(shapes))]);
	if (vf_choose("rehash", 2)) c.rehash(11);
	if (vf_choose("last", 2)) op_insert(c, m, NS - 1);
	switch (vf_choose("op", 4)) {
	case 1: op_erase(c, m, m.id[m.n / 2], 1); break;
	case 2: op_erase(c, m, 0, 0); break;
	case 3: if (m.n > 1) { c.erase(c.cbegin(), c.cbegin() == c.cend() ? c.cend() : ++c.cbegin()); Model t; for (int i = 0; i < m.n; ++i) if (c.contains(Key(u32(m.id[i])))) t.insert(m.id[i], m.val[i]); m = t; } break;
	}
	part(c, m); part(static_cast<const Cont &>(c), m);
	for (u32 k = 0; k < NS; ++k) VF_CHECK(c.bucket(Key(k)) < c.bucket_count(), "bucket index is in range");
#if MAP
	for (size_t b = 0; b < c.bucket_count(); ++b) for (auto it = c.begin(b); it != c.end(b); ++it) { (*it).second = kid(*it) + 1000; m.set(kid(*it), kid(*it) + 1000); }
#endif
	check_all(c, m, g_used);
	vf_cover("end");
}
