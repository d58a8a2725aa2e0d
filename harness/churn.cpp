// C24: every operation terminates, the load limit holds and the bucket count stays bounded while elements come and go for a long time.
#include "lib.h"
#ifndef LIVE
#define LIVE 6
#endif
#ifndef ROUNDS
#define ROUNDS 40
#endif
#ifndef SYM_EVERY
#define SYM_EVERY 8
#endif
#ifndef PATTERN
#define PATTERN 0
#endif
static size_t top;
static void ok(const Cont &c)
{
	VF_CHECK(c.size() <= c.capacity(), "size fits the reported capacity");
	VF_CHECK(c.bucket_count() == 0 || float(c.size()) < c.max_load_factor() * float(c.bucket_count()) + (FAM == 3 ? 0.001f : 1.f), "size fits the load limit"); // swiss limits are rounded up to whole elements
	if (c.bucket_count() > top) top = c.bucket_count();
	VF_CHECK(c.bucket_count() <= 4 * (LIVE + NS) + 31, "bucket count stays bounded for a bounded number of elements");
}
extern "C" void vf_main()
{
	sym_hashes(); Cont c; Model m; u32 ring[LIVE]; int n = 0;
#ifdef FORM_ITER
	const bool by_iter = true;
#else
	const bool by_iter = false;
#endif
	for (int i = 0; i < ROUNDS; ++i) {
		const u32 k = NS + u32(i % (LIVE + 1)); 
		H[k] = PATTERN == 0 ? mkh(u64(i) * 5, u64(i)) : PATTERN == 1 ? mkh(3, 1) : mkh(u64(i) * 3 % 7, u64(i) & 3);
		if (n >= LIVE) { const u32 x = ring[i % LIVE]; if (by_iter) c.erase(c.find(Key(x))); else c.erase(Key(x)); m.erase(x); }
		else ++n;
		// the key that leaves before k enters is another one, so the hash of a stored key never changes
		ring[i % LIVE] = k; { const Elem e = mk(k, u32(i)); auto r = c.insert(e); VF_CHECK(r.second, "a new element is inserted"); m.insert(k, u32(i)); }
		ok(c);
		if (i % SYM_EVERY == SYM_EVERY - 1)
			for (u32 s = 0; s < NS; ++s) { if (m.has(s)) op_erase(c, m, s, 0); else op_insert(c, m, s, 0); ok(c); }
	}
	for (u32 s = 0; s < NS; ++s) VF_CHECK(c.contains(Key(s)) == m.has(s), "lookups stay right under churn");
	VF_CHECK(!c.contains(Key(u32(NK - 1))), "lookup of an absent key ends");
	check_size(c, m); check_iter(c, m); check_keys(c, m, NS + LIVE + 1);
	vf_cover("end"); vf_note("top", top);
}
