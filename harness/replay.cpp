// Native runtime: replays one concrete assignment of the symbolic inputs against the real code.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <new>
#include <unistd.h>
static std::map<std::string, uint64_t> *vals; static std::map<std::string, int> *cnt;
static uint64_t live; static bool count_on; static int fill = 0xCD;
static void load()
{
	vals = new std::map<std::string, uint64_t>; cnt = new std::map<std::string, int>;
	const char *p = getenv("VF_INPUTS"); if (!p) return;
	FILE *f = fopen(p, "r"); if (!f) return; char buf[512];
	while (fscanf(f, "%500s", buf) == 1) { char *e = strrchr(buf, '='); if (e) { *e = 0; (*vals)[buf] = strtoull(e + 1, 0, 10); } }
	fclose(f);
}
extern "C" {
uint64_t vf_sym(const char *name, unsigned bits)
{
	bool c = count_on; count_on = false;
	std::string k = std::string(name) + "#" + std::to_string((*cnt)[name]++);
	auto it = vals->find(k); uint64_t v = it == vals->end() ? 0 : it->second;
	count_on = c;
	return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void vf_assume(bool c) { if (!c) { printf("REPLAY-ASSUME\n"); fflush(stdout); _exit(0); } }
void vf_assert_(bool c, const char *tag) { if (!c) { printf("REPLAY-FAIL %s\n", tag); fflush(stdout); _exit(42); } }
void vf_cover(const char *) {}
uint64_t vf_fork(uint64_t v) { return v; }
void vf_table(void *) {}
uint64_t vf_live(void) { return live; }
int vf_symbolic(void) { return 0; }
void vf_note(const char *t, uint64_t v) { if (getenv("VF_TRACE")) { printf("note %s=%llu\n", t, (unsigned long long) v); fflush(stdout); } }
}
// operator new/delete with live-block counting and a size header (sized-delete and double-free checks)
struct Hdr { uint64_t size, magic; };
static void *vnew(size_t n, uint64_t m) { auto *h = static_cast<Hdr *>(malloc(n + sizeof(Hdr))); if (!h) abort(); h->size = n; h->magic = m; memset(h + 1, fill, n); if (count_on) ++live; return h + 1; }
static void vdel(void *p, uint64_t m, long long n) { if (!p) return; auto *h = static_cast<Hdr *>(p) - 1; if (h->magic != m || (n >= 0 && uint64_t(n) != h->size)) { printf("REPLAY-FAIL bad-free\n"); fflush(stdout); _exit(42); } h->magic = 0; if (count_on) --live; free(h); }
void *operator new(size_t n) { return vnew(n, 0x11111111); }
void *operator new[](size_t n) { return vnew(n, 0x22222222); }
void operator delete(void *p) noexcept { vdel(p, 0x11111111, -1); }
void operator delete(void *p, size_t n) noexcept { vdel(p, 0x11111111, (long long) n); }
void operator delete[](void *p) noexcept { vdel(p, 0x22222222, -1); }
void operator delete[](void *p, size_t n) noexcept { vdel(p, 0x22222222, (long long) n); }
int main() { load(); if (const char *e = getenv("VF_FILL")) fill = atoi(e); alarm(20); count_on = true; vf_main(); printf("REPLAY-OK\n"); fflush(stdout); _exit(0); }
