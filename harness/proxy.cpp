// C29: the element references of sparse and dense maps compare like the pairs they denote, expose exactly the stored key and value, and write through. Keys and values are fully symbolic.
// FAM 1 sparse, 3 dense, 4 dense_multimap; ORD; ONLY_LESS: key and mapped types with nothing but == and <.
#include "vf.h"
#include <tuple>
#include <utility>
#include <type_traits>
typedef uint32_t u32; typedef uint64_t u64;
#if FAM == 1
#include <tpp/sparse_map.hpp>
#elif FAM == 3
#include <tpp/dense_map.hpp>
#else
#include <tpp/dense_multimap.hpp>
#endif
#ifdef ONLY_LESS
struct K { u32 v; friend bool operator==(const K &a, const K &b) { return a.v == b.v; } friend bool operator<(const K &a, const K &b) { return a.v < b.v; } };
static u32 un(const K &k) { return k.v; }
static K mkk(u32 v) { return K{v}; }
#if __cplusplus < 202002L
static bool operator!=(const K &a, const K &b) { return !(a == b); }
#endif
#else
typedef u32 K; static u32 un(u32 v) { return v; } static K mkk(u32 v) { return v; }
#endif
typedef K V;
struct H0 { template<class T> size_t operator()(const T &) const { return 0; } };
struct Eq { template<class T> bool operator()(const T &a, const T &b) const { return a == b; } };
#ifndef ORD
#define ORD 0
#endif
#if FAM == 4
typedef tpp::dense_multimap<tpp::multikey<K, K>, V, H0, Eq> M; typedef std::tuple<K, K> PK;
static PK mk(u32 a, u32 b) { return PK(mkk(a), mkk(b)); }
#elif FAM == 3
#if ORD
typedef tpp::ordered_dense_map<K, V, H0, Eq> M;
#else
typedef tpp::dense_map<K, V, H0, Eq> M;
#endif
typedef K PK; static PK mk(u32 a, u32) { return mkk(a); }
#else
#if ORD
typedef tpp::ordered_sparse_map<K, V, H0, Eq> M;
#else
typedef tpp::sparse_map<K, V, H0, Eq> M;
#endif
typedef K PK; static PK mk(u32 a, u32) { return mkk(a); }
#endif
template<class A, class B> static void cmp(const A &a, const B &b, const std::pair<PK, V> &p, const std::pair<PK, V> &q)
{
	const bool eq = p.first == q.first && p.second == q.second, lt = p.first < q.first || (p.first == q.first && p.second < q.second), gt = q.first < p.first || (p.first == q.first && q.second < p.second);
	VF_CHECK((a == b) == eq, "== of element references"); VF_CHECK((a != b) == !eq, "!= of element references");
	VF_CHECK((a < b) == lt, "< of element references"); VF_CHECK((a > b) == gt, "> of element references");
	VF_CHECK((a <= b) == !gt, "<= of element references"); VF_CHECK((a >= b) == !lt, ">= of element references");
#if __cplusplus >= 202002L
	{ auto c = a <=> b; VF_CHECK((c < 0) == lt && (c > 0) == gt && (c == 0) == eq, "<=> of element references"); }
#endif
}
extern "C" void vf_main()
{
	const u32 k1 = u32(vf_sym("k", 32)), k2 = u32(vf_sym("k", 32)), v1 = u32(vf_sym("v", 32)), v2 = u32(vf_sym("v", 32));
	const u32 j1 = FAM == 4 ? u32(vf_sym("j", 32)) : 0, j2 = FAM == 4 ? u32(vf_sym("j", 32)) : 0;
	M a, b; a.try_emplace(mk(k1, j1), mkk(v1)); b.try_emplace(mk(k2, j2), mkk(v2));
	const M &ca = a, &cb = b; const std::pair<PK, V> p(mk(k1, j1), mkk(v1)), q(mk(k2, j2), mkk(v2));
	switch (vf_choose("form", 6)) {
	case 0: cmp(*a.begin(), *b.begin(), p, q); break;
	case 1: cmp(*ca.begin(), *cb.begin(), p, q); break;
	case 2: cmp(*a.begin(), *cb.begin(), p, q); break;
	case 3: cmp(*ca.cbegin(), *b.begin(), p, q); break;
	case 4: cmp(*a.begin(), *a.begin(), p, p); break;
	case 5: { auto it = a.begin(); auto &&r = *it; const auto c = *ca.begin(); // access and write-through
		VF_CHECK(r.first == p.first && r.second == p.second && it->first == p.first && it->second == p.second && c.first == p.first, "members give the stored key and value");
		VF_CHECK(&r.second == &it->second && &r.second == &c.second && &r.first == &it->first && &r.first == &c.first, "members refer to the stored element");
		{ auto [k, v] = *it; VF_CHECK(&k == &it->first && &v == &it->second, "structured bindings refer to the stored element"); v = mkk(v2); }
		VF_CHECK(un(it->second) == v2 && un(c.second) == v2, "writing through a binding changes the stored value");
		using tpp::_detail::get; auto x = *it; VF_CHECK(&get<0>(x) == &it->first && &get<1>(x) == &it->second, "get gives the stored key and value"); get<1>(x) = mkk(v1);
		VF_CHECK(un((*ca.cbegin()).second) == v1, "writing through get changes the stored value");
		it->second = mkk(v2); VF_CHECK(un(ca.begin()->second) == v2, "writing through -> changes the stored value"); (*it).second = mkk(v1); VF_CHECK(un(ca.begin()->second) == v1, "writing through * changes the stored value");
		{ auto [k, v] = *ca.begin(); VF_CHECK(&k == &it->first && &v == &it->second, "constant structured bindings refer to the stored element"); static_assert(std::is_const_v<std::remove_reference_t<decltype(v)>> , "constant iterators give constant values"); }
		{ std::pair<const PK &, V &> pr = *it; VF_CHECK(&pr.first == &it->first && &pr.second == &it->second, "conversion to a pair of references"); }
		{ std::pair<PK, V> pr = *it; VF_CHECK(pr == p, "conversion to a pair"); }
		static_assert(std::is_const_v<std::remove_reference_t<decltype(r.first)>>, "keys cannot be written");
		VF_CHECK(ca.size() == 1 && ca.begin()->first == p.first, "one element");
		break; }
	}
	vf_cover("end");
}
