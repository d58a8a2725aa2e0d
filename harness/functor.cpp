// C31: the hash, comparison and allocator objects given to a container are the ones it uses and reports; they travel with the contents. Which keys are the same is decided by the comparison object alone.
// FAM 1 sparse, 2 stable, 3 dense, 4 multi-key; SAMEFN: one class serves as hash and comparison.
#include "vf.h"
#include <memory>
#include <tuple>
#include <utility>
#include <initializer_list>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
#if FAM == 1
#include <tpp/sparse_map.hpp>
#include <tpp/sparse_set.hpp>
#define F_ sparse_
#elif FAM == 2
#include <tpp/stable_map.hpp>
#include <tpp/stable_set.hpp>
#define F_ stable_
#elif FAM == 3
#include <tpp/dense_map.hpp>
#include <tpp/dense_set.hpp>
#define F_ dense_
#else
#include <tpp/dense_multimap.hpp>
#include <tpp/dense_multiset.hpp>
#endif
#ifndef ORD
#define ORD 0
#endif
#ifndef MAP
#define MAP 0
#endif
#ifndef HBITS
#define HBITS 64
#endif
#ifndef SYMF
#define SYMF 1   // the functor object whose hashes are symbolic
#endif
#ifndef RN
#define RN 20
#endif
enum { NKEY = 4, NF = 3 };
static u8 cls[NF][NKEY]; static u64 HS[NF][NKEY];          // functor object f: classes of equal keys, and the hash of each class
struct Key { u8 k; Key(u32 i = 0) : k(u8(i)) {} };
struct Key2 { u8 k; Key2(u32 i = 0) : k(u8(i)) {} };
struct Base { enum : u32 { OK = 0xF00D }; u32 ok = OK; int id; explicit Base(int i) : id(i) {} void chk() const { VF_CHECK(ok == OK && unsigned(id) < NF, "a functor object given to the container is used"); } };
struct HashOp { size_t hash(const Base &b, const Key &k) const { b.chk(); return HS[b.id][cls[b.id][k.k]]; } };
#ifdef SAMEFN
struct Hash final : Base { explicit Hash(int i) : Base(i) {} Hash() : Base(0) {}
	size_t operator()(const Key &k) const { chk(); return HS[id][cls[id][k.k]]; } size_t operator()(const Key2 &k) const { return k.k * 3; }
	bool operator()(const Key &a, const Key &b) const { chk(); return cls[id][a.k] == cls[id][b.k]; } bool operator()(const Key2 &a, const Key2 &b) const { return a.k == b.k; } };
typedef Hash Cmp;
#else
struct Hash : Base { explicit Hash(int i) : Base(i) {} Hash() : Base(0) {} size_t operator()(const Key &k) const { chk(); return HS[id][cls[id][k.k]]; } size_t operator()(const Key2 &k) const { return k.k * 3; } };
struct Cmp : Base { explicit Cmp(int i) : Base(i) {} Cmp() : Base(0) {} bool operator()(const Key &a, const Key &b) const { chk(); return cls[id][a.k] == cls[id][b.k]; } bool operator()(const Key2 &a, const Key2 &b) const { return a.k == b.k; } };
#endif
template<class T> struct Al {
	using value_type = T; using propagate_on_container_copy_assignment = std::false_type; using propagate_on_container_move_assignment = std::true_type; using propagate_on_container_swap = std::true_type; using is_always_equal = std::false_type;
	int id; Al(int i = 0) noexcept : id(i) {} template<class U> Al(const Al<U> &o) noexcept : id(o.id) {}
	T *allocate(size_t n) { return static_cast<T *>(::operator new(n * sizeof(T))); } void deallocate(T *p, size_t) noexcept { ::operator delete(p); }
	friend bool operator==(const Al &a, const Al &b) { return a.id == b.id; } friend bool operator!=(const Al &a, const Al &b) { return a.id != b.id; }
};
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if FAM == 4
typedef tpp::multikey<Key, Key2> Mk; typedef std::tuple<Key, Key2> Tup;
#if MAP
typedef std::pair<Tup, u32> Elem; typedef Al<Elem> A; typedef tpp::dense_multimap<Mk, u32, Hash, Cmp, A> Cont;
template<class R> static u32 kid(const R &r) { return std::get<0>(r.first).k; }
static Elem mk(u32 k, u32 v) { return Elem(Tup(Key(k), Key2(v)), v); }
#else
typedef Tup Elem; typedef Al<Elem> A; typedef tpp::dense_multiset<Mk, Hash, Cmp, A> Cont;
template<class R> static u32 kid(const R &r) { return std::get<0>(r).k; }
static Elem mk(u32 k, u32 v) { return Tup(Key(k), Key2(v)); }
#endif
#define FIND find<0>
#define CONTAINS contains<0>
#define ERASE erase<0>
#else
#define FIND find
#define CONTAINS contains
#define ERASE erase
#if ORD
#define NAME(x) CAT(ordered_, CAT(F_, x))
#else
#define NAME(x) CAT(F_, x)
#endif
#if MAP
#if FAM == 2
typedef std::pair<const Key, u32> Elem;
#else
typedef std::pair<Key, u32> Elem;
#endif
typedef Al<Elem> A; typedef tpp::NAME(map)<Key, u32, Hash, Cmp, A> Cont;
template<class R> static u32 kid(const R &r) { return r.first.k; }
static Elem mk(u32 k, u32 v) { return Elem(Key(k), v); }
#else
typedef Key Elem; typedef Al<Elem> A; typedef tpp::NAME(set)<Key, Hash, Cmp, A> Cont;
template<class R> static u32 kid(const R &r) { return r.k; }
static Elem mk(u32 k, u32) { return Key(k); }
#endif
#endif
struct Model { int h, c, a; u8 id[NKEY]; int n = 0; Model(int h_, int c_, int a_) : h(h_), c(c_), a(a_) {}
	int find(u32 k) const { for (int i = 0; i < n; ++i) if (cls[c][id[i]] == cls[c][k]) return i; return -1; } };
static void check(Cont &c0, const Model &m)
{
	const Cont &c = c0;
	VF_CHECK(c.hash_function().id == m.h, "hash_function() is the hash object in use"); VF_CHECK(c.key_eq().id == m.c, "key_eq() is the comparison object in use"); VF_CHECK(c.get_allocator().id == m.a, "get_allocator() is the allocator in use");
	VF_CHECK(c.size() == size_t(m.n), "size under the comparison object");
	for (u32 k = 0; k < NKEY; ++k) {
		int i = m.find(k); const Key key(k); auto it = c.FIND(key);
		VF_CHECK((it != c.end()) == (i >= 0) && c.CONTAINS(key) == (i >= 0), "lookup follows the comparison object");
		if (i >= 0) { auto &&r = *it; VF_CHECK(kid(r) == m.id[i], "lookup finds the element the comparison object calls the same"); }
	}
}
static u32 g_v;
static void ins(Cont &c, Model &m, u32 k)
{
	int i = m.find(k); auto r = c.insert(mk(k, ++g_v)); auto &&e = *r.first;
	VF_CHECK(r.second == (i < 0), "insertion follows the comparison object"); VF_CHECK(kid(e) == (i < 0 ? k : m.id[i]), "insertion returns the element the comparison object calls the same");
	if (i < 0) m.id[m.n++] = u8(k);
}
static void era(Cont &c, Model &m, u32 k)
{
	int i = m.find(k); const Key key(k); auto it = c.ERASE(key); (void)it;
	if (i >= 0) for (--m.n; i < m.n; ++i) m.id[i] = m.id[i + 1];
	VF_CHECK(c.size() == size_t(m.n), "erasure follows the comparison object");
}
static void use(Cont &c, Model &m) { check(c, m); ins(c, m, 1); ins(c, m, 0); check(c, m); era(c, m, 0); ins(c, m, 3); ins(c, m, 2); check(c, m); c.rehash(RN); check(c, m); }
static void fill(Cont &c, Model &m) { const unsigned n = vf_choose("fill", 3); if (n > 0) ins(c, m, 0); if (n > 1) { ins(c, m, 1); ins(c, m, 3); } }
extern "C" void vf_main()
{
	for (int f = 0; f < NF; ++f) for (int k = 0; k < NKEY; ++k) HS[f][k] = (k + 1) * 0x1357u + f * 0x91u;
	const Elem el[3] = {mk(0, 101), mk(1, 102), mk(3, 103)}; const std::initializer_list<Cont::value_type> il = {el[0], el[1], el[2]};
	auto seed = [&](Model &m) { for (u32 k : {0u, 1u, 3u}) if (m.find(k) < 0) m.id[m.n++] = u8(k); };
#ifdef ONLY_FORM
	const unsigned how = ONLY_FORM;
#else
	const unsigned how = vf_choose("form", 18);   // 0..9 constructors, 10..17 transfers
#endif
	for (int f = 0; f < (how < 14 ? 2 : NF); ++f) {
		const unsigned p = f == 0 ? 0 : vf_choose("partition", 3);   // which keys functor f calls the same: none; 0 and 1; 0, 1 and 2
		for (int k = 0; k < NKEY; ++k) cls[f][k] = p == 1 && k == 1 ? 0 : p == 2 && k < 3 ? 0 : u8(k);
		if (f == SYMF) HS[f][0] = vf_sym("hash", HBITS);
	}
	switch (how) {
	case 0: { Cont c(9, Hash(1), Cmp(1), A(3)); Model m(1, 1, 3); use(c, m); break; }
	case 1: { Cont c(0, Hash(1), Cmp(1)); Model m(1, 1, 0); use(c, m); break; }
	case 2: { Cont c(9, A(3)); Model m(0, 0, 3); use(c, m); break; }
	case 3: { Cont c(A(3)); Model m(0, 0, 3); use(c, m); break; }
	case 4: { Cont c(il, 0, Hash(1), Cmp(1), A(3)); Model m(1, 1, 3); seed(m); use(c, m); break; }
	case 5: { Cont c(el, el + 3, 9, Hash(1), Cmp(1), A(3)); Model m(1, 1, 3); seed(m); use(c, m); break; }
	case 6: { Cont c(il, 9, A(3)); Model m(0, 0, 3); seed(m); use(c, m); break; }
	case 7: { Cont c(el, el + 3, 9, A(3)); Model m(0, 0, 3); seed(m); use(c, m); break; }
	// a hash object with the default comparison: functor 0's partition with functor 1's hash object, where both make the same classes
	case 8: { vf_assume(cls[1][1] == 1); const bool r = vf_choose("range", 2); if (r) { Cont c(el, el + 3, 9, Hash(1), A(3)); Model m(1, 0, 3); seed(m); use(c, m); } else { Cont c(il, 9, Hash(1), A(3)); Model m(1, 0, 3); seed(m); use(c, m); } break; }
	case 9: { vf_assume(cls[1][1] == 1); Cont c(9, Hash(1), A(3)); Model m(1, 0, 3); use(c, m); break; }
	default: {
		const unsigned form = how - 10;
		Cont a(size_t(0), Hash(1), Cmp(1), A(1)); Model ma(1, 1, 1); fill(a, ma);
		switch (form) {
		case 0: { Cont d(a); Model md = ma; check(a, ma); use(d, md); use(a, ma); break; }
		case 1: { Cont d(static_cast<const Cont &>(a), A(5)); Model md = ma; md.a = 5; check(a, ma); use(d, md); use(a, ma); break; }
		case 2: { Cont d(std::move(a)); Model md = ma; use(d, md); a.clear(); ma.n = 0; use(a, ma); break; }
		case 3: { Cont d(std::move(a), A(5)); Model md = ma; md.a = 5; use(d, md); a.clear(); ma.n = 0; use(a, ma); break; }
		default: {
			Cont d(size_t(vf_choose("bc", 2) * 9), Hash(2), Cmp(2), A(2)); Model md(2, 2, 2); fill(d, md);
			switch (form) {
			case 4: d = static_cast<const Cont &>(a); md = ma; md.a = 2; use(d, md); use(a, ma); break;                    // allocator stays (does not propagate on copy)
			case 5: d = std::move(a); md = ma; md.a = 1; use(d, md); a.clear(); break;                                       // allocator propagates on move
			case 6: { if (vf_choose("free", 2)) { using std::swap; swap(a, d); } else a.swap(d); check(a, md); check(d, ma); use(a, md); use(d, ma); break; }
			case 7: d = il; md.n = 0; seed(md); use(d, md); use(a, ma); break;
			}
		} }
	} }
	vf_cover("end");
}
