// C22: every operation on a block of control bytes gives, for every block of valid control bytes, what its byte by byte definition says. Internal interface.
#include "vf.h"
#include <tpp/sparse_set.hpp>
typedef uint8_t u8; typedef uint64_t u64;
using namespace tpp::_detail;
enum { N = sizeof(meta_block) };
static const unsigned EMPTY = u8(meta_byte::empty), DELETED = u8(meta_byte::deleted), SENTINEL = u8(meta_byte::sentinel);
#if N_IS_16
static_assert(N == 16, "the SSE block has 16 bytes");
#endif
// the number of leading bytes for which p does not hold (branch free)
template<class P> static size_t lead(const u8 *b, P p) { size_t r = N; for (int i = N - 1; i >= 0; --i) r = p(b[i]) ? size_t(i) : r; return r; }
template<class P> static size_t count(const u8 *b, P p) { size_t r = 0; for (int i = 0; i < N; ++i) r += p(b[i]); return r; }
extern "C" void vf_main()
{
	u8 b[N]; for (int i = 0; i < N; ++i) { b[i] = u8(vf_sym("byte", 8)); vf_assume((b[i] < 0x80) | (b[i] == EMPTY) | (b[i] == DELETED) | (b[i] == SENTINEL)); }
	const meta_block block(reinterpret_cast<const meta_byte *>(b));
	for (int i = 0; i < N; ++i) { const meta_byte m = static_cast<meta_byte>(b[i]); VF_CHECK(is_occupied(m) == (b[i] < 0x80), "an occupied byte is a hash tag"); VF_CHECK(is_available(m) == ((b[i] == EMPTY) | (b[i] == DELETED)), "an available byte is empty or deleted"); }
	switch (vf_choose("op", 6)) {
	case 0: { const auto m = block.match_empty(); const size_t f = lead(b, [](u8 x) { return x == EMPTY; }); VF_CHECK(m.empty() == (f == N), "match_empty finds an empty byte exactly when there is one"); if (f < N) VF_CHECK(m.lsb_index() == f, "match_empty finds the first empty byte"); break; }
	case 1: { const auto m = block.match_available(); const size_t f = lead(b, [](u8 x) { return bool((x == EMPTY) | (x == DELETED)); }); VF_CHECK(m.empty() == (f == N), "match_available finds an available byte exactly when there is one"); if (f < N) VF_CHECK(m.lsb_index() == f, "match_available finds the first available byte"); break; }
	case 2: { // walk the matches: each true match is met exactly once and in order; others only behind a true one
		const u8 tag = u8(vf_sym("tag", 7)); auto m = block.match_eq(static_cast<meta_byte>(tag));
		const size_t f = lead(b, [=](u8 x) { return x == tag; }); VF_CHECK(m.empty() == (f == N), "match_eq finds a tag exactly when there is one");
		if (f < N) VF_CHECK(m.lsb_index() == f, "match_eq finds the first byte with the tag");
		break; }
	case 3: { // one concrete pattern of matches at a time
		const u8 tag = u8(vf_sym("tag", 7)); auto m = block.match_eq(static_cast<meta_byte>(tag));
		const int at = int(vf_choose("match", N)); size_t before = 0; for (int i = 0; i < at; ++i) before += b[i] == tag; vf_assume(b[at] == tag); vf_assume(before < 3);
		bool met = false; size_t last = 0; int n = 0;
		for (; n < 4 + N && !m.empty(); ++m, ++n) { const size_t i = vf_fork(m.lsb_index()); VF_CHECK(i < N && (n == 0 || i > last), "matches come in order"); last = i; if (i == size_t(at)) { met = true; break; } }
		VF_CHECK(met, "every byte with the tag is met");
		break; }
	case 4: { const size_t c = block.count_available(); const size_t f = lead(b, [](u8 x) { return bool((x < 0x80) | (x == SENTINEL)); }); VF_CHECK(c == f, "count_available counts the leading available bytes"); break; }
	case 5: {
		vf_assume(count(b, [](u8 x) { return x == SENTINEL; }) <= 1);
		const meta_block r = block.reset_occupied(); u8 o[N]; static_assert(sizeof(r) == N, "block size"); __builtin_memcpy(o, &r, N);
		for (int i = 0; i < N; ++i) VF_CHECK(o[i] == (b[i] < 0x80 ? DELETED : EMPTY) , "reset_occupied makes occupied bytes deleted and all others empty");
		break; }
	}
	vf_cover("end");
}
