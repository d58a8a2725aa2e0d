// C21: key-taking operations given another key type (transparent functors) do what they do with the stored key type; lookups create no key objects.
#define TRACK 1
#define CUSTOM_FUNCTORS
#define ALLOC(T) std::allocator<T>
#include <cstdint>
#include <cstddef>
struct Key; struct Alt { uint32_t k; operator uint32_t() const { return k; } };
struct Hash { typedef void is_transparent; size_t operator()(const Key &k) const; size_t operator()(const Alt &k) const; };
struct Cmp { typedef void is_transparent; bool operator()(const Key &a, const Key &b) const; bool operator()(const Key &a, const Alt &b) const; bool operator()(const Alt &a, const Key &b) const; bool operator()(const Alt &a, const Alt &b) const; };
#include "lib.h"
inline size_t Hash::operator()(const Key &k) const { return H[k.id()]; }
inline size_t Hash::operator()(const Alt &k) const { return H[k.k]; }
inline bool Cmp::operator()(const Key &a, const Key &b) const { return a.id() == b.id(); }
inline bool Cmp::operator()(const Key &a, const Alt &b) const { return a.id() == b.k; }
inline bool Cmp::operator()(const Alt &a, const Key &b) const { return a.k == b.id(); }
inline bool Cmp::operator()(const Alt &a, const Alt &b) const { return a.k == b.k; }
#ifndef SHAPES
#define SHAPES S_EMPTY, S_ONE, S_SEVEN_FULL, S_TOMB_SMALL
#endif
static const unsigned char shapes[] = {SHAPES};
extern "C" void vf_main()
{
	sym_hashes(); Cont c; Model m;
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, shapes[vf_choose("shape", sizeof(shapes))]);
	const unsigned w = vf_choose("key", NS + 1); const u32 k = w < NS ? w : m.n ? m.id[m.n / 2] : 0;
	const Alt a{k}; const int i = m.find(k); const bool had = i >= 0; const u32 nv = 4242;
	const Cont &cc = c; auto hint = c.cbegin(); const int hi = m.n ? m.find(kid(*hint)) : -1;
	const int b0 = g_born; auto none = [&] { VF_CHECK(g_born == b0, "a lookup with another key type creates no key object"); };
	auto hinted = [&] { if (!had) { if (ORD && hi >= 0) m.insert_after(hi, k, nv); else m.insert(k, nv); } };
	auto mhint = c.begin(); Alt la{k}; const u32 o1 = (k + 1) % NS; // o1: a second key for the list forms (k itself when there is one symbolic key only)
	auto one = [&](auto r) { VF_CHECK(r.second == !had && kid(*r.first) == k && vof(*r.first) == (!MAP ? 0 : had ? m.val[i] : nv), "insertion of a convertible element"); m.insert(k, nv); };
	auto hone = [&](auto r) { VF_CHECK(r != c.end() && kid(*r) == k && vof(*r) == (!MAP ? 0 : had ? m.val[i] : nv), "hinted insertion of a convertible element"); hinted(); };
#if MAP
	typedef std::pair<Alt, u32> Src; const Src cs(a, nv); Src ms(a, nv); const Src list[2] = {Src(a, nv), Src(Alt{o1}, 4300)};
#else
	typedef Alt Src; const Src cs(a); Src ms(a); const Src list[2] = {a, Alt{o1}};
#endif
	auto both = [&](Model &t) { t.insert(k, nv); t.insert(o1, 4300); };
	switch (vf_choose("form", 42)) {
	case 30: one(c.insert(cs)); break;
	case 31: one(c.insert(std::move(ms))); break;
	case 32: one(c.insert(ms)); break;
	case 33: hone(c.insert(hint, cs)); break;
	case 34: hone(c.insert(hint, std::move(ms))); break;
	case 35: hone(c.emplace_hint(hint, cs)); break;
	case 36: one(c.emplace(cs)); break;
	case 37: c.insert(list, list + 2); both(m); break;
	case 38: { std::initializer_list<Src> il = {list[0], list[1]}; c.insert(il); both(m); break; }
#if !(MAP && ORD) // ordered maps have no list constructors for convertible elements
	case 39: { std::initializer_list<Src> il = {list[0], list[1]}; Cont d(il); Model t; both(t); check_all(d, t, g_used); op_insert(d, t, NS - 1); check_all(d, t, g_used); break; }
	case 40: { std::initializer_list<Src> il = {list[0], list[1]}; Cont d(il, 9, Hash{}, Cont::allocator_type{}); Model t; both(t); VF_CHECK(d.bucket_count() >= 9, "requested bucket count"); check_all(d, t, g_used); break; }
	case 41: { std::initializer_list<Src> il = {list[0], list[1]}; Cont d(il, 9, Cont::allocator_type{}); Model t; both(t); VF_CHECK(d.bucket_count() >= 9, "requested bucket count"); check_all(d, t, g_used); break; }
#endif

	case 0: { auto it = c.find(a); none(); VF_CHECK((it != c.end()) == had, "find"); if (had) VF_CHECK(kid(*it) == k && it == c.find(Key(k)), "find yields the element"); break; }
	case 1: { auto it = cc.find(a); none(); VF_CHECK((it != cc.end()) == had, "find"); if (had) VF_CHECK(kid(*it) == k && it == cc.find(Key(k)), "find yields the element"); break; }
	case 2: { bool r = cc.contains(a); none(); VF_CHECK(r == had, "contains"); break; }
	case 3: { u64 rest = 0; if (had) { auto it = c.find(a); ++it; rest = tail_mask(c, it); } auto sz = c.size(); auto r = c.erase(a); VF_CHECK(g_born - b0 <= 2, "erase with another key type creates no key object"); m.erase(k);
		VF_CHECK(c.size() == sz - had, "erase"); if (!had) VF_CHECK(r == c.end(), "erase of an absent key"); else if (FAM != 3) VF_CHECK(tail_mask(c, r) == rest, "erase returns the next position"); break; }
#if FAM == 3
	case 4: if (c.bucket_count()) { auto b = cc.bucket(a); none(); VF_CHECK(b == cc.bucket(Key(k)), "bucket"); } break;
#endif
#if FAM == 2
	case 5: { auto n = c.extract(a); none(); m.erase(k); VF_CHECK(!n.empty() == had, "extract"); if (had) {
#if MAP
		VF_CHECK(n.key().id() == k, "extract takes the element");
#else
		VF_CHECK(n.value().id() == k, "extract takes the element");
#endif
		VF_CHECK(!c.contains(a), "extract removes the element"); } break; }
#endif
#if MAP
	case 6: { bool t = false; try { auto &v = c.at(a); VF_CHECK(had && v.get() == m.val[i], "at"); } catch (const std::out_of_range &) { t = true; } none(); VF_CHECK(t == !had, "at throws exactly for an absent key"); break; }
	case 7: { bool t = false; try { auto &v = cc.at(a); VF_CHECK(had && v.get() == m.val[i], "at"); } catch (const std::out_of_range &) { t = true; } none(); VF_CHECK(t == !had, "at throws exactly for an absent key"); break; }
	case 8: { auto &v = c[a]; if (had) none(); VF_CHECK(v.get() == (had ? m.val[i] : 0), "operator[]"); if (!had) m.insert(k, 0); break; }
	case 9: { auto r = c.try_emplace(a, nv); if (had) none(); VF_CHECK(r.second == !had && kid(*r.first) == k && vof(*r.first) == (had ? m.val[i] : nv), "try_emplace"); m.insert(k, nv); break; }
	case 10: { auto r = c.try_emplace(Alt{k}, nv); if (had) none(); VF_CHECK(r.second == !had && kid(*r.first) == k && vof(*r.first) == (had ? m.val[i] : nv), "try_emplace"); m.insert(k, nv); break; }
	case 11: { auto r = c.try_emplace(hint, a, nv); if (had) none(); VF_CHECK(kid(*r) == k && vof(*r) == (had ? m.val[i] : nv), "try_emplace"); hinted(); break; }
	case 12: { const Val v(nv); auto r = c.insert_or_assign(a, v); VF_CHECK(r.second == !had && kid(*r.first) == k && vof(*r.first) == nv, "insert_or_assign"); if (!m.insert(k, nv)) m.set(k, nv); break; }
	case 13: { auto r = c.insert_or_assign(Alt{k}, Val(nv)); VF_CHECK(r.second == !had && kid(*r.first) == k && vof(*r.first) == nv, "insert_or_assign"); if (!m.insert(k, nv)) m.set(k, nv); break; }
	case 14: { auto r = c.insert_or_assign(hint, a, Val(nv)); VF_CHECK(kid(*r) == k && vof(*r) == nv, "insert_or_assign"); hinted(); m.set(k, nv); break; }
	case 15: { auto r = c.emplace_or_replace(a, nv); VF_CHECK(r.second == !had && kid(*r.first) == k && vof(*r.first) == nv, "emplace_or_replace"); if (!m.insert(k, nv)) m.set(k, nv); break; }
	case 16: { auto r = c.emplace_or_replace(hint, a, nv); VF_CHECK(kid(*r) == k && vof(*r) == nv, "emplace_or_replace"); hinted(); m.set(k, nv); break; }
	case 17: { auto &v = c[Alt{k}]; VF_CHECK(v.get() == (had ? m.val[i] : 0), "operator[]"); if (!had) m.insert(k, 0); break; }
#endif
#if MAP
	case 18: { auto r = c.try_emplace(mhint, a, nv); if (had) none(); VF_CHECK(kid(*r) == k && vof(*r) == (had ? m.val[i] : nv), "try_emplace"); hinted(); break; }
	case 19: { auto r = c.try_emplace(hint, Alt{k}, nv); if (had) none(); VF_CHECK(kid(*r) == k && vof(*r) == (had ? m.val[i] : nv), "try_emplace"); hinted(); break; }
	case 20: { auto r = c.try_emplace(mhint, Alt{k}, nv); if (had) none(); VF_CHECK(kid(*r) == k && vof(*r) == (had ? m.val[i] : nv), "try_emplace"); hinted(); break; }
	case 21: { auto r = c.insert_or_assign(hint, Alt{k}, Val(nv)); VF_CHECK(kid(*r) == k && vof(*r) == nv, "insert_or_assign"); hinted(); m.set(k, nv); break; }
	case 22: { auto r = c.emplace_or_replace(Alt{k}, nv); VF_CHECK(r.second == !had && kid(*r.first) == k && vof(*r.first) == nv, "emplace_or_replace"); if (!m.insert(k, nv)) m.set(k, nv); break; }
	case 23: { auto r = c.emplace_or_replace(mhint, a, nv); VF_CHECK(kid(*r) == k && vof(*r) == nv, "emplace_or_replace"); hinted(); m.set(k, nv); break; }
	case 24: { auto r = c.emplace_or_replace(hint, Alt{k}, nv); VF_CHECK(kid(*r) == k && vof(*r) == nv, "emplace_or_replace"); hinted(); m.set(k, nv); break; }
	case 25: { auto r = c.emplace_or_replace(mhint, Alt{k}, nv); VF_CHECK(kid(*r) == k && vof(*r) == nv, "emplace_or_replace"); hinted(); m.set(k, nv); break; }
	case 26: { auto r = c.try_emplace(la, nv); if (had) none(); VF_CHECK(r.second == !had && kid(*r.first) == k && vof(*r.first) == (had ? m.val[i] : nv), "try_emplace"); m.insert(k, nv); break; }
	case 27: { auto &v = c[la]; VF_CHECK(v.get() == (had ? m.val[i] : 0), "operator[]"); if (!had) m.insert(k, 0); break; }
	case 28: { auto r = c.insert_or_assign(la, Val(nv)); VF_CHECK(r.second == !had && kid(*r.first) == k && vof(*r.first) == nv, "insert_or_assign"); if (!m.insert(k, nv)) m.set(k, nv); break; }
	case 29: { auto r = c.emplace_or_replace(la, nv); VF_CHECK(r.second == !had && kid(*r.first) == k && vof(*r.first) == nv, "emplace_or_replace"); if (!m.insert(k, nv)) m.set(k, nv); break; }
#endif
	default: break;
	}
	check_all(c, m, g_used);
	vf_cover("end");
}
