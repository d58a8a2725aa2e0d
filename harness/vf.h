// Harness API: intrinsics understood by the symbolic executor (vfse) and by the native replay runtime.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vf_sym(const char *name, unsigned bits);   // fresh symbolic value of `bits` bits
void vf_assume(bool c);
void vf_assert_(bool c, const char *tag);           // property assertion
void vf_cover(const char *tag);                     // reachability witness
uint64_t vf_fork(uint64_t v);                       // split on every feasible value of v
void vf_table(void *p);                             // object: symbolic indices become if-then-else, not forks
uint64_t vf_live(void);                             // live heap blocks
int vf_symbolic(void);
void vf_note(const char *tag, uint64_t v);          // recorded in counterexamples
void vf_main(void);
}
#define VF_CHECK(c, tag) vf_assert_(static_cast<bool>(c), tag)
// a value in [0, n), one path per value
static inline unsigned vf_choose(const char *name, unsigned n)
{
	uint64_t v = vf_sym(name, 8);
	if (n < 256) vf_assume(v < n);
	return static_cast<unsigned>(vf_fork(v));
}
