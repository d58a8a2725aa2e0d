// Multi-key (dense_multiset / dense_multimap) counterpart of lib.h. Parameters: MAP, KS (number of keys: 2 or 3), NS (ids < NS have symbolic hashes in every position).
#pragma once
#define FAM 0
#include "vf.h"
#include <algorithm>
#include <stdexcept>
#include <tuple>
#include <utility>
#include <vector>
#include <tpp/dense_multimap.hpp>
#include <tpp/dense_multiset.hpp>
#ifndef KS
#define KS 2
#endif
#ifndef MAP
#define MAP 0
#endif
#ifndef NS
#define NS 2
#endif
#ifndef HBITS
#define HBITS 64
#endif
#define NK 24
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
static u64 H[3][NK];
template<int I> struct KeyN { u8 k; KeyN(u32 i = 0) : k(static_cast<u8>(i)) {} u32 id() const { return k; } };
template<int I> static inline bool operator==(const KeyN<I> &a, const KeyN<I> &b) { return a.k == b.k; }
template<int I> static inline bool operator!=(const KeyN<I> &a, const KeyN<I> &b) { return a.k != b.k; }
static int g_countdown = -1; struct Fault {};
static inline void step() { if (g_countdown >= 0 && g_countdown-- == 0) throw Fault{}; }
#ifdef HETERO
template<int I> struct AltN { u32 k; operator u32() const { return k; } };
#define TRANSPARENT_ typedef void is_transparent;
#else
#define TRANSPARENT_
#endif
struct Hash { TRANSPARENT_ template<int I> size_t operator()(const KeyN<I> &k) const { step(); return H[I][k.k]; }
#ifdef HETERO
	template<int I> size_t operator()(const AltN<I> &k) const { return H[I][k.k]; }
#endif
};
struct Cmp { TRANSPARENT_ template<int I> bool operator()(const KeyN<I> &a, const KeyN<I> &b) const { step(); return a.k == b.k; }
#ifdef HETERO
	template<int I> bool operator()(const AltN<I> &a, const KeyN<I> &b) const { return a.k == b.k; }
	template<int I> bool operator()(const KeyN<I> &a, const AltN<I> &b) const { return a.k == b.k; }
	template<int I> bool operator()(const AltN<I> &a, const AltN<I> &b) const { return a.k == b.k; }
#endif
};
#if KS == 2
typedef tpp::multikey<KeyN<0>, KeyN<1>> Mk; typedef std::tuple<KeyN<0>, KeyN<1>> Tup;
#else
typedef tpp::multikey<KeyN<0>, KeyN<1>, KeyN<2>> Mk; typedef std::tuple<KeyN<0>, KeyN<1>, KeyN<2>> Tup;
#endif
#if MAP
typedef std::pair<Tup, u32> Elem;
typedef tpp::dense_multimap<Mk, u32, Hash, Cmp> Cont;
template<class R> static inline auto &tup(const R &r) { return r.first; }
template<class R> static inline u32 vof(const R &r) { return r.second; }
#else
typedef Tup Elem;
typedef tpp::dense_multiset<Mk, Hash, Cmp> Cont;
template<class R> static inline auto &tup(const R &r) { return r; }
template<class R> static inline u32 vof(const R &) { return 0; }
#endif
struct Ent { u8 k[3]; u32 v; };
static inline Ent ent(u32 a, u32 b, u32 c, u32 v) { return Ent{{static_cast<u8>(a), static_cast<u8>(b), static_cast<u8>(c)}, v}; }
static inline Tup mkt(const Ent &e) {
#if KS == 2
	return Tup(KeyN<0>(e.k[0]), KeyN<1>(e.k[1]));
#else
	return Tup(KeyN<0>(e.k[0]), KeyN<1>(e.k[1]), KeyN<2>(e.k[2]));
#endif
}
static inline Elem mk(const Ent &e) {
#if MAP
	return Elem(mkt(e), e.v);
#else
	return mkt(e);
#endif
}
template<class R> static inline u32 kid(const R &r, int i) {
	auto &t = tup(r);
#if KS == 3
	if (i == 2) return std::get<2>(t).id();
#endif
	return i ? std::get<1>(t).id() : std::get<0>(t).id();
}
struct Model {
	Ent e[NK]; int n = 0;
	int find(int i, u32 k) const { for (int j = 0; j < n; ++j) if (e[j].k[i] == k) return j; return -1; }
	int clash(const Ent &x) const { for (int j = 0; j < n; ++j) for (int i = 0; i < KS; ++i) if (e[j].k[i] == x.k[i]) return j; return -1; }
	bool insert(const Ent &x) { if (clash(x) >= 0) return false; e[n++] = x; return true; }
	void drop(int j) { for (--n; j < n; ++j) e[j] = e[j + 1]; }
};
template<class R> static bool same(const R &r, const Ent &e) { for (int i = 0; i < KS; ++i) if (kid(r, i) != e.k[i]) return false; return !MAP || vof(r) == e.v; }
template<int I, class C> static void check_key(C &c, const Model &m, u32 k)
{
	int j = m.find(I, k); const KeyN<I> key(k); auto it = c.template find<I>(key);
	VF_CHECK((it != c.end()) == (j >= 0), "find by one key agrees with the model");
	if (j >= 0) { auto &&r = *it; VF_CHECK(same(r, m.e[j]), "find by one key yields its entry"); }
	VF_CHECK(c.template contains<I>(key) == (j >= 0), "contains by one key agrees with the model");
#if MAP
	bool thrown = false; try { VF_CHECK(c.template at<I>(key) == m.e[j < 0 ? 0 : j].v, "at by one key yields its value"); } catch (const std::out_of_range &) { thrown = true; }
	VF_CHECK(thrown == (j < 0), "at throws exactly for an absent key");
#endif
}
template<class C> static void check_iter(C &c, const Model &m)
{
	u64 seen = 0; int n = 0;
	for (auto it = c.begin(); it != c.end(); ++it, ++n) {
		auto &&r = *it; int j = m.find(0, kid(r, 0));
		VF_CHECK(j >= 0 && same(r, m.e[j]), "iteration yields stored entries"); VF_CHECK(!(seen >> j & 1), "iteration yields an entry twice"); seen |= u64(1) << j;
	}
	VF_CHECK(n == m.n, "iteration yields every entry");
	n = 0; for (auto it = c.rbegin(); it != c.rend(); ++it) { auto &&r = *it; int j = m.find(0, kid(r, 0)); VF_CHECK(j >= 0 && same(r, m.e[j]), "reverse iteration yields stored entries"); ++n; }
	VF_CHECK(n == m.n, "reverse iteration yields every entry");
}
static u32 g_ids = NS; // ids below have hashes
template<class C> static void check(C &c0, const Model &m)
{
	const C &c = c0; VF_CHECK(c.size() == size_t(m.n) && c.empty() == !m.n, "size");
	for (u32 k = 0; k < g_ids; ++k) {
		check_key<0>(c, m, k); check_key<1>(c, m, k);
#if KS == 3
		check_key<2>(c, m, k);
#endif
	}
	check_iter(c, m); check_iter(c0, m);
}
template<class C> static void check_buckets(C &c0, const Model &m)
{
	const C &c = c0; if (!c.bucket_count()) return;
	int total = 0; int cnt[NK] = {};
	for (size_t b = 0; b < c.bucket_count(); ++b) {
		size_t n = 0;
		for (auto it = c.begin(b); it != c.end(b); ++it, ++n) {
			auto &&r = *it; int j = m.find(0, kid(r, 0)); VF_CHECK(j >= 0 && same(r, m.e[j]), "bucket yields stored entries"); ++cnt[j];
			bool here = c.template bucket<0>(KeyN<0>(m.e[j].k[0])) == b || c.template bucket<1>(KeyN<1>(m.e[j].k[1])) == b;
#if KS == 3
			here = here || c.template bucket<2>(KeyN<2>(m.e[j].k[2])) == b;
#endif
			VF_CHECK(here, "bucket yields entries with a key of that bucket");
			VF_CHECK(n < size_t(KS * m.n), "bucket iteration ends");
		}
		VF_CHECK(c.bucket_size(b) == n, "bucket_size"); total += int(n);
	}
	for (int j = 0; j < m.n; ++j) { VF_CHECK(cnt[j] == KS, "every entry appears once per key");
		VF_CHECK(c.template bucket<0>(KeyN<0>(m.e[j].k[0])) < c.bucket_count() && c.template bucket<1>(KeyN<1>(m.e[j].k[1])) < c.bucket_count(), "bucket index is in range"); }
}
static u32 g_val = 100;
template<class C> static void op_insert(C &c, Model &m, Ent e, int form)
{
	e.v = ++g_val; int x = m.clash(e); bool nu = x < 0;
	auto chk = [&](auto r) {
		VF_CHECK(r.second == nu, "insertion succeeds exactly when no key is taken");
		VF_CHECK(r.first != c.end(), "insertion returns an entry"); auto &&q = *r.first;
		if (nu) VF_CHECK(same(q, e), "insertion returns the new entry");
		else { bool conflict = false; for (int i = 0; i < KS; ++i) conflict |= kid(q, i) == e.k[i]; VF_CHECK(conflict, "a failed insertion returns a conflicting entry"); }
	};
	if (nu) m.e[m.n++] = e;
	switch (form) {
	case 0: { const Elem v = mk(e); chk(c.insert(v)); break; }
	case 1: chk(c.insert(mk(e))); break;
	case 2: chk(c.emplace(mk(e))); break;
#if MAP
	case 3: { const Tup t = mkt(e); chk(c.try_emplace(t, e.v)); break; }
	case 4: chk(c.try_emplace(mkt(e), e.v)); break;
#else
	case 3: chk(c.emplace(KeyN<0>(e.k[0]), KeyN<1>(e.k[1])
#if KS == 3
		, KeyN<2>(e.k[2])
#endif
		)); break;
#endif
	case 5: { auto it = c.insert(c.begin(), mk(e)); auto &&q = *it; if (nu) VF_CHECK(same(q, e), "hinted insertion returns the entry"); break; }
	default: chk(c.insert(mk(e))); break;
	}
}
template<int I, class C> static void op_erase(C &c, Model &m, u32 k)
{
	int j = m.find(I, k); auto before = c.size(); const KeyN<I> key(k); auto r = c.template erase<I>(key);
	if (j < 0) { VF_CHECK(r == c.end() && c.size() == before, "erasing an absent key does nothing"); return; }
	m.drop(j); VF_CHECK(c.size() == before - 1, "erasing removes one entry");
}
template<class C> static void op_erase_at(C &c, Model &m, u32 k)
{
	auto it = c.template find<1>(KeyN<1>(k)); if (it == c.end()) return;
	auto pos = it - c.begin(); m.drop(m.find(1, k)); auto r = c.erase(it);
	VF_CHECK(r - c.begin() == pos, "erase returns the following position");
}
template<class C> static void build(C &c, Model &m, int n, int spread)
{
	for (int i = 0; i < n; ++i) {
		u32 k = g_ids++; H[0][k] = u64(i % spread) * 5; H[1][k] = u64(i % 3) * 7 + 1; H[2][k] = u64(i) * 13;
		Ent e = ent(k, k, k, ++g_val); auto r = c.insert(mk(e)); VF_CHECK(r.second, "concrete insertion"); m.insert(e);
	}
}
#ifndef SYMMASK
#define SYMMASK 0x9
#endif
// bit i * NS + k of SYMMASK: the hash of id k in position i is symbolic; otherwise it is a fixed one that collides with others
static void sym_hashes() { for (int i = 0; i < KS; ++i) for (int k = 0; k < NS; ++k) H[i][k] = (SYMMASK >> (i * NS + k) & 1) ? vf_sym("hash", HBITS) : u64(k) * 5 + u64(i); }
static Ent sym_ent(const char *) { Ent e = ent(vf_choose("k0", NS), vf_choose("k1", NS), KS == 3 ? vf_choose("k2", NS) : 0, 0); return e; }
