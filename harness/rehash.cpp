// C11: rehash / reserve / bucket-count construction keep their promises and the contents.
#include "lib.h"
#ifndef SRC
#define SRC S_EMPTY, S_ONE, S_THREE_FULL, S_SEVEN_FULL, S_TOMB_SMALL, S_CLEARED
#endif
#ifndef NMAX
#define NMAX 70
#endif
static const unsigned char src[] = {SRC};
#ifdef FEW
static const unsigned tab[] = {0, 8, 15, 16, 29, 33, 57, 64, 113, 200};
#else
static const unsigned tab[] = {0, 1, 7, 8, 14, 15, 16, 28, 29, 31, 32, 33, 56, 57, 63, 64, 65, 112, 127, 128, 129, 200};
#endif
extern "C" void vf_main()
{
	sym_hashes(); Model m;
#if FAM == 3 && defined(SYM_MLF)
	static const float fs[] = {.25f, .5f, .7f, 1.f, 1.5f, 3.f}; const float mlf = fs[vf_choose("mlf", 6)];
#endif
#if NMAX
	const unsigned n = vf_choose("n", NMAX);
#else
	const unsigned n = tab[vf_choose("n", sizeof(tab) / sizeof(*tab))];
#endif
#ifdef CTOR
	Cont c(n);
	VF_CHECK(c.bucket_count() >= n, "constructed with at least the requested bucket count");
	VF_CHECK(c.size() == 0 && c.begin() == c.end(), "constructed empty");
	op_insert(c, m, 0); build(c, m, S_SEVEN_FULL); op_insert(c, m, NS - 1);
	VF_CHECK(c.bucket_count() >= n, "bucket count never shrinks by insertion");
#else
	Cont c;
#if FAM == 3 && defined(SYM_MLF)
	c.max_load_factor(mlf);
#endif
	const unsigned sh = src[vf_choose("shape", sizeof(src))];
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, sh);
	switch (vf_choose("form", 3)) {
	case 0: c.rehash(n); VF_CHECK(c.bucket_count() >= n, "rehash(n) gives at least n buckets"); break;
	case 1: { c.reserve(n); VF_CHECK(c.capacity() >= n, "reserve(n) gives a capacity of at least n");
		const auto bc = c.bucket_count(); check_all(c, m, g_used);
		for (int i = 0; i < 8 && m.n < int(n); ++i) put(c, m, mkh(i * 3, i & 3));
		VF_CHECK(c.bucket_count() == bc, "no growth up to the reserved size"); break; }
	case 2: c.reserve(n); c.rehash(n / 2); c.rehash(0); break;
	}
#endif
	VF_CHECK(c.size() <= c.capacity(), "elements fit the load limit");
	check_all(c, m, g_used);
	op_insert(c, m, NS - 1); op_erase(c, m, 0, 1); op_insert(c, m, 0);
	VF_CHECK(c.size() <= c.capacity(), "elements fit the load limit");
	check_all(c, m, g_used);
	vf_cover("end");
}
