// Shared harness library: container selection, symbolic hashes, reference model, observation.
// Compile-time parameters: FAM (1 sparse, 2 stable, 3 dense), ORD (0/1), MAP (0/1), TRACK (0/1), NK (key universe), NS (keys 0..NS-1 have fully symbolic hashes).
#pragma once
#include "vf.h"
#include <algorithm>
#include <new>
#include <stdexcept>
#include <tuple>
#include <utility>
#if FAM == 1
#include <tpp/sparse_map.hpp>
#include <tpp/sparse_set.hpp>
#elif FAM == 2
#include <tpp/stable_map.hpp>
#include <tpp/stable_set.hpp>
#elif FAM == 3
#include <tpp/dense_map.hpp>
#include <tpp/dense_set.hpp>
#endif
#ifndef ORD
#define ORD 0
#endif
#ifndef MAP
#define MAP 0
#endif
#ifndef KEYEQ
#define KEYEQ 0
#endif
#ifndef TRACK
#define TRACK 0
#endif
#ifndef NOTHROW_MOVE
#define NOTHROW_MOVE 1
#endif
#ifndef NK
#define NK 64
#endif
#ifndef NS
#define NS 2
#endif
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;

#ifndef HBITS
#define HBITS 64
#endif
static u64 H[NK];                 // the hash function: any deterministic function is a choice of this table
static void sym_hashes(int n = NS) { for (int i = 0; i < n; ++i) H[i] = vf_sym("hash", HBITS); }
// a concrete hash whose probe starts at slot `pos` and whose tag is `tag` (the split is an observed behaviour of the swiss tables; dense tables just see numbers)
static constexpr u64 mkh(u64 pos, u64 tag) { return pos << 7 | (tag & 0x7f); }

// ---------------------------------------------------------------- element types
static int g_live;                // live tracked objects
static int g_born;                // tracked objects ever created
static int g_copies, g_moves;     // copy / move constructions and assignments of tracked objects
static int g_countdown = -1;      // fault injection: the g_countdown-th fallible step throws
struct Fault {};
static bool g_faulted;
static inline void step() { if (g_countdown >= 0 && g_countdown-- == 0) { g_faulted = true; throw Fault{}; } }
#if TRACK
// An object that knows where it lives: reading, destroying or overwriting a dead or relocated-by-memcpy object is a violation.
struct Obj {
	enum : u32 { ALIVE = 0xA11FE, DEAD = 0xDEAD };
	u32 state, where; u32 v; bool moved;
	u32 tag_() const { return static_cast<u32>(reinterpret_cast<uintptr_t>(this)) ^ 0x5a5a5a5a; }
	void born() { state = ALIVE; where = tag_(); ++g_live; ++g_born; }
	void chk(const char *t = "access to an object that is not alive") const { VF_CHECK(state == ALIVE && where == tag_(), t); }
	Obj() : v(0), moved(false) { step(); born(); }
	explicit Obj(u32 x) : v(x), moved(false) { step(); born(); }
	Obj(const Obj &o) : v(o.v), moved(o.moved) { o.chk(); VF_CHECK(!o.moved, "copy of a moved-from object"); step(); ++g_copies; born(); }
	Obj(Obj &&o) noexcept(NOTHROW_MOVE) : v(o.v), moved(o.moved) { o.chk(); if constexpr (!NOTHROW_MOVE) step(); ++g_moves; o.moved = true; born(); }
	Obj &operator=(const Obj &o) { chk(); o.chk(); VF_CHECK(!o.moved, "copy of a moved-from object"); step(); ++g_copies; v = o.v; moved = o.moved; return *this; }
	Obj &operator=(Obj &&o) noexcept(NOTHROW_MOVE) { chk(); o.chk(); if constexpr (!NOTHROW_MOVE) step(); ++g_moves; u32 t = o.v; bool mv = o.moved; if (this != &o) o.moved = true; v = t; moved = mv; return *this; }
	~Obj() { chk("destruction of an object that is not alive"); state = DEAD; --g_live; }
	u32 get() const { chk(); VF_CHECK(!moved, "use of a moved-from object"); return v; }
};
struct Key : Obj { Key() = default; explicit Key(u32 i) : Obj(i) {} u32 id() const { return get(); } };
struct Val : Obj { Val() = default; Val(u32 i) : Obj(i) {} };
static inline bool operator==(const Val &a, const Val &b) { return a.get() == b.get(); }
static inline bool operator!=(const Val &a, const Val &b) { return a.get() != b.get(); }
static inline u32 raw(const Val &v) { return v.get(); }
static inline u32 raw(const Key &v) { return v.get(); }
#else
struct Key { u8 k; Key() : k(0) {} explicit Key(u32 i) : k(static_cast<u8>(i)) {} u32 id() const { return k; } };
typedef u32 Val;
static inline u32 raw(u32 v) { return v; }
static inline u32 raw(const Key &v) { return v.id(); }
#endif
#if KEYEQ
static inline bool operator==(const Key &a, const Key &b) { return a.id() == b.id(); }
static inline bool operator!=(const Key &a, const Key &b) { return a.id() != b.id(); }
#endif
#ifndef CUSTOM_FUNCTORS
struct Hash { size_t operator()(const Key &k) const { step(); return H[k.id()]; } };
struct Cmp { bool operator()(const Key &a, const Key &b) const { step(); return a.id() == b.id(); } };
#endif
// ---------------------------------------------------------------- stateful allocator: every block knows its provider and size
#ifndef POCCA
#define POCCA 0
#endif
#ifndef POCMA
#define POCMA 0
#endif
#ifndef POCS
#define POCS 0
#endif
#ifndef SOCCC
#define SOCCC 0
#endif
static int g_blocks;
template<class T> struct SAlloc {
	struct alignas(16) Hdr { u32 magic; int id; u64 n; };
	using value_type = T;
	using propagate_on_container_copy_assignment = std::bool_constant<POCCA>;
	using propagate_on_container_move_assignment = std::bool_constant<POCMA>;
	using propagate_on_container_swap = std::bool_constant<POCS>;
	using is_always_equal = std::false_type;
	int id;
	SAlloc(int i = 0) noexcept : id(i) {}
	template<class U> SAlloc(const SAlloc<U> &o) noexcept : id(o.id) {}
	T *allocate(size_t n) { step(); auto *h = static_cast<Hdr *>(::operator new(sizeof(Hdr) + n * sizeof(T))); h->magic = 0xB10C; h->id = id; h->n = n * sizeof(T); ++g_blocks; return reinterpret_cast<T *>(h + 1); }
	void deallocate(T *p, size_t n) noexcept
	{
		auto *h = reinterpret_cast<Hdr *>(p) - 1;
		VF_CHECK(h->magic == 0xB10C, "deallocated memory is a block of an allocator");
		VF_CHECK(h->id == id, "memory returns to an allocator equal to the one that provided it");
		VF_CHECK(h->n == n * sizeof(T), "memory returns with the size it was obtained with");
		h->magic = 0; --g_blocks; ::operator delete(h);
	}
	SAlloc select_on_container_copy_construction() const { return SAlloc(SOCCC ? id + 100 : id); }
	friend bool operator==(const SAlloc &a, const SAlloc &b) { return a.id == b.id; }
	friend bool operator!=(const SAlloc &a, const SAlloc &b) { return a.id != b.id; }
};
#ifdef USE_SALLOC
#define ALLOC(T) SAlloc<T>
#endif
#ifndef ALLOC
#define ALLOC(T) std::allocator<T>
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if FAM == 1
#define F_ sparse_
#elif FAM == 2
#define F_ stable_
#elif FAM == 3
#define F_ dense_
#endif
#if MAP
#define T_ map
#else
#define T_ set
#endif
#if ORD
#define NAME CAT(ordered_, CAT(F_, T_))
#else
#define NAME CAT(F_, T_)
#endif
#ifdef FAM
#if MAP
#if FAM == 2
typedef std::pair<const Key, Val> Elem;
#else
typedef std::pair<Key, Val> Elem;
#endif
template<class A> using ContA = tpp::NAME<Key, Val, Hash, Cmp, A>;
#else
typedef Key Elem;
template<class A> using ContA = tpp::NAME<Key, Hash, Cmp, A>;
#endif
typedef ContA<ALLOC(Elem)> Cont;

#if MAP
template<class R> static inline u32 kid(const R &r) { return r.first.id(); }
template<class R> static inline u32 vof(const R &r) { return raw(r.second); }
static inline Elem mk(u32 k, u32 v) { return Elem(Key(k), Val(v)); }
#else
template<class R> static inline u32 kid(const R &r) { return r.id(); }
template<class R> static inline u32 vof(const R &) { return 0; }
static inline Elem mk(u32 k, u32) { return Key(k); }
#endif
#endif

// ---------------------------------------------------------------- reference model: insertion ordered association list
struct Model {
	u8 id[NK]; u32 val[NK]; int n = 0;
	int find(u32 k) const { for (int i = 0; i < n; ++i) if (id[i] == k) return i; return -1; }
	bool has(u32 k) const { return find(k) >= 0; }
	bool insert(u32 k, u32 v) { if (has(k)) return false; id[n] = static_cast<u8>(k); val[n] = v; ++n; return true; }
	void insert_after(int at, u32 k, u32 v) { for (int i = n; i > at + 1; --i) { id[i] = id[i - 1]; val[i] = val[i - 1]; } id[at + 1] = static_cast<u8>(k); val[at + 1] = v; ++n; }
	bool erase(u32 k) { int i = find(k); if (i < 0) return false; for (--n; i < n; ++i) { id[i] = id[i + 1]; val[i] = val[i + 1]; } return true; }
	void set(u32 k, u32 v) { val[find(k)] = v; }
	u64 mask() const { u64 r = 0; for (int i = 0; i < n; ++i) r |= u64(1) << id[i]; return r; }
};
#ifdef FAM
// ---------------------------------------------------------------- observation: everything a user can see agrees with the model
template<class It> static inline u32 it_kid(It it) { return kid(*it); }
template<class C> static void check_iter(C &c, const Model &m)
{
	u64 seen = 0; int n = 0;
	for (auto it = c.begin(); it != c.end(); ++it, ++n) {
		VF_CHECK(n < m.n, "iteration yields too many elements");
		auto &&e = *it; u32 k = kid(e);
#if ORD
		VF_CHECK(k == m.id[n], "iteration order");
		VF_CHECK(!MAP || vof(e) == m.val[n], "mapped value seen by iteration");
#else
		VF_CHECK(k < NK && !(seen >> k & 1), "iteration yields an element twice"); seen |= u64(1) << k;
		int i = m.find(k); VF_CHECK(i >= 0, "iteration yields an absent element");
		VF_CHECK(!MAP || vof(e) == m.val[i], "mapped value seen by iteration");
#endif
	}
	VF_CHECK(n == m.n, "iteration misses elements");
	VF_CHECK((c.begin() == c.end()) == (m.n == 0), "begin()==end() iff empty");
}
#if ORD || FAM == 3
#define HAS_REV 1
template<class C> static void check_riter(C &c, const Model &m)
{
	int n = m.n; u64 seen = 0;
	auto at = [&](auto it) {
		VF_CHECK(--n >= 0, "reverse iteration yields too many elements");
		auto &&e = *it; u32 k = kid(e); VF_CHECK(k < NK && m.has(k) && !(seen >> k & 1), "reverse iteration yields a wrong element"); seen |= u64(1) << k;
		VF_CHECK(!ORD || k == m.id[n], "reverse iteration order");
	};
	auto it = c.end(); while (it != c.begin()) at(--it);
	VF_CHECK(n == 0, "reverse iteration misses elements");
#if FAM == 3
	n = m.n; seen = 0;
	for (auto r = c.rbegin(); r != c.rend(); ++r) at(r);
	VF_CHECK(n == 0, "reverse iteration misses elements");
#endif
}
#endif
template<class C> static void check_keys(C &c, const Model &m, int nk)
{
	for (int k = 0; k < nk; ++k) {
		int i = m.find(k); Key key(k); auto it = c.find(key);
		VF_CHECK((it != c.end()) == (i >= 0), "find agrees with the model");
		if (i >= 0) { auto &&e = *it; VF_CHECK(kid(e) == u32(k), "find yields the key"); VF_CHECK(!MAP || vof(e) == m.val[i], "mapped value seen by find"); }
		VF_CHECK(c.contains(key) == (i >= 0), "contains agrees with the model");
	}
}
template<class C> static void check_size(const C &c, const Model &m)
{
	VF_CHECK(c.size() == size_t(m.n), "size"); VF_CHECK(c.empty() == (m.n == 0), "empty");
}
template<class C> static void check(C &c, const Model &m, int nk)
{
	check_size(c, m); check_keys(static_cast<const C &>(c), m, nk); check_iter(static_cast<const C &>(c), m);
#if ORD
	if (m.n) { VF_CHECK(kid(c.front()) == m.id[0], "front"); VF_CHECK(kid(c.back()) == m.id[m.n - 1], "back"); }
#endif
}
template<class C> static void check_all(C &c, const Model &m, int nk)
{
	check(c, m, nk); check_iter(c, m);
#ifdef HAS_REV
	check_riter(c, m);
#endif
}
// ids visited from `it` to the end; ordered: must equal the tail of the model starting at index `from`
template<class C, class It> static u64 tail_mask(C &c, It it) { u64 r = 0; int n = 0; for (; it != c.end(); ++it) { u32 k = kid(*it); VF_CHECK(k < NK && n++ < NK && !(r >> k & 1), "iteration from a returned position"); r |= u64(1) << k; } return r; }

// ---------------------------------------------------------------- single operations with their own result checks
static u32 g_val = 100;
template<class C> static void op_insert(C &c, Model &m, u32 k, int form = 0)
{
	u32 v = ++g_val; bool nu = m.insert(k, v); int i = m.find(k);
	auto chk = [&](auto r) { VF_CHECK(r.second == nu, "insertion reports whether it inserted"); VF_CHECK(r.first != c.end() && kid(*r.first) == k, "insertion returns the element"); VF_CHECK(!MAP || vof(*r.first) == m.val[i], "insertion does not overwrite"); };
	switch (form) {
	case 0: { const Elem e = mk(k, v); chk(c.insert(e)); break; }
	case 1: chk(c.insert(mk(k, v))); break;
	case 2:
#if MAP
		chk(c.emplace(Key(k), Val(v))); break;
#else
		chk(c.emplace(Key(k))); break;
#endif
#if MAP
	case 3: { const Key key(k); chk(c.try_emplace(key, Val(v))); break; }
	case 4: chk(c.try_emplace(Key(k), Val(v))); break;
	case 5: { const Key key(k); m.set(k, v); chk(c.insert_or_assign(key, Val(v))); break; }
	case 6: m.set(k, v); chk(c.insert_or_assign(Key(k), Val(v))); break;
	case 7: { const Key key(k); m.set(k, v); chk(c.emplace_or_replace(key, Val(v))); break; }
	case 8: { const Key key(k); m.set(k, v); c[key] = Val(v); break; }
#endif
	}
}
template<class C> static void op_erase(C &c, Model &m, u32 k, int form = 0)
{
	const Key key(k); int i = m.find(k);
	if (form == 0 || i < 0) {
		u64 rest = 0; bool present = i >= 0;
#if !ORD
		if (present) { auto it = c.find(key); ++it; rest = tail_mask(c, it); }
#endif
		auto r = c.erase(key); m.erase(k);
		if (!present) VF_CHECK(r == c.end(), "erasing an absent key returns end()");
#if ORD
		if (present) { if (i == m.n) VF_CHECK(r == c.end(), "erase returns the next element"); else VF_CHECK(r != c.end() && kid(*r) == m.id[i], "erase returns the next element"); }
#else
		if (present) VF_CHECK(tail_mask(c, r) == rest, "erase returns the next position");
#endif
	} else {
		auto it = c.find(key); u64 rest = 0;
#if !ORD
		{ auto j = it; ++j; rest = tail_mask(c, j); }
#endif
		auto r = c.erase(it); m.erase(k);
#if ORD
		if (i == m.n) VF_CHECK(r == c.end(), "erase returns the next element"); else VF_CHECK(r != c.end() && kid(*r) == m.id[i], "erase returns the next element");
#else
		VF_CHECK(tail_mask(c, r) == rest, "erase returns the next position");
#endif
	}
}
template<class C> static void op_clear(C &c, Model &m) { c.clear(); m.n = 0; }

// ---------------------------------------------------------------- starting layouts
#ifndef RECL_MIX
#define RECL_MIX 4
#endif
// Each builds a concrete prefix history on c; symbolic-hash keys (ids < NS) are left to the caller unless stated.
// Concrete keys use ids NS.. and hashes chosen to make clusters, shared tags, wrap-around and deleted slots.
static int g_used = NS; // ids below g_used have a hash
template<class C> static u32 put(C &c, Model &m, u64 h) { u32 k = u32(g_used++); H[k] = h; const Elem e = mk(k, ++g_val); auto r = c.insert(e); VF_CHECK(r.second, "concrete insertion"); m.insert(k, g_val); return k; }
template<class C> static void drop(C &c, Model &m, u32 k) { const Key key(k); c.erase(key); m.erase(k); }
enum Shape { S_EMPTY, S_ONE, S_THREE_FULL, S_SEVEN_FULL, S_FULL15, S_WRAP31, S_TOMB31, S_BIG63, S_CLEARED, S_TOMB_SMALL, S_SAT31, S_SAME_CHAIN, S_RECL31, S_RECYC, N_SHAPES };
template<class C> static void build(C &c, Model &m, unsigned sh)
{
	switch (sh) {
	case S_EMPTY: break;
	case S_ONE: put(c, m, mkh(0, 1)); break;
	case S_THREE_FULL: for (int i = 0; i < 3; ++i) put(c, m, mkh(i * 3, 5)); break;
	case S_SEVEN_FULL: for (int i = 0; i < 7; ++i) put(c, m, mkh(6, i & 1 ? 9 : 5)); break;
	case S_FULL15: for (int i = 0; i < 14; ++i) put(c, m, mkh(i < 7 ? 12 : 1, i % 3)); break;
	case S_WRAP31: for (int i = 0; i < 28; ++i) put(c, m, mkh(i < 20 ? 20 : 3 + i, i % 4)); break;
	case S_TOMB31: { u32 f = u32(g_used); for (int i = 0; i < 26; ++i) put(c, m, mkh(25, i % 5)); for (u32 i = 0; i < 26; i += 2) drop(c, m, f + i); break; }
	case S_BIG63: { u32 f = u32(g_used); for (int i = 0; i < 36; ++i) put(c, m, mkh(i < 18 ? 40 : 60, i % 3)); for (u32 i = 0; i < 30; i += 3) drop(c, m, f + i); break; }
	case S_CLEARED: for (int i = 0; i < 7; ++i) put(c, m, mkh(i, 1)); c.clear(); m.n = 0; break;
	case S_TOMB_SMALL: { u32 f = u32(g_used); for (int i = 0; i < 7; ++i) put(c, m, mkh(2, 3)); drop(c, m, f); drop(c, m, f + 3); drop(c, m, f + 6); break; }
	case S_SAT31: { // capacity 31, every slot that may be used was used: the next insertion into a fresh slot reclaims deleted ones
		u32 f = u32(g_used); for (int i = 0; i < 28; ++i) put(c, m, mkh((i * 5) % 32, i % 3)); for (u32 i = 0; i < 28; ++i) if (i % 3) drop(c, m, f + i); break; }
	case S_RECL31: { // capacity 31, no slot left, elements displaced from their first probe group: reclaiming has to relocate and exchange elements
		static const u8 base[] = {0, 7, 16, 27}; const unsigned lay = vf_choose("layout", 12 + RECL_MIX), gone = lay < 12 ? lay / 4 : 3; const u8 a = base[lay % 4];
		static const unsigned short mix[] = {688, 2630, 144, 2496, 3404, 324, 874, 1098, 1583, 3022, 203, 169}; // seeds whose layouts make many elements change places
		u32 f = u32(g_used), r = (lay - 12 < 12 ? mix[lay - 12] : lay) * 2654435761u; const int fresh = m.n;
		auto rnd = [&r]() { r = r * 1664525u + 1013904223u; return r >> 16; }; const u32 h0 = rnd(), h1 = rnd(), h2 = rnd();
		for (int i = 0; i < 28 - fresh; ++i)
			if (lay < 12) put(c, m, mkh((a + (i % 4 == 3 ? 20 : 0)) % 32, i % 3));
			else { const u32 x = rnd(); put(c, m, mkh((x % 8 < 4 ? h0 : x % 8 < 6 ? h1 : x % 8 == 6 ? h2 : x >> 3) % 32, x % 3)); } // three crowded groups and some noise
		for (u32 i = 0; i < u32(28 - fresh); ++i) if (gone == 0 ? i % 2 == 0 : gone == 1 ? i < 12 : gone == 2 ? i % 3 != 0 : rnd() % 8 < 3) drop(c, m, f + i);
		break; }
	case S_RECYC: { // capacity 31 after filling, erasing, reclaiming in place and refilling
		static const u8 home[] = {0, 9, 15, 22}; const unsigned lay = vf_choose("recycled", 8), s0 = lay & 4 ? 5 : 0, h = home[lay & 3]; u32 f = u32(g_used), l = 0;
		for (int i = m.n; i < 28; ++i) put(c, m, mkh((i + s0) % 31, i % 3));
		while (m.n > 12) { drop(c, m, f + (l * 5 % 28)); ++l; }
		put(c, m, mkh((28 + s0) % 31, 7)); // aims at a slot that was never used
		for (int i = 0; m.n < 27; ++i) put(c, m, mkh(h, i % 3));
		break; }
	case S_SAME_CHAIN: for (int i = 0; i < 6; ++i) put(c, m, mkh(0, 0)); break;
	}
}
#endif
