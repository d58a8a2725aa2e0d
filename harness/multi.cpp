// Multi-key containers. MODE 11 (with -DHETERO): other key types; 0 history, 1 copy, 2 move, 3 swap, 4 clear, 5 rehash, 6 erase_if, 7 equality, 8 buckets, 9 bulk, 10 range erase.
#include "mlib.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef DEPTH
#define DEPTH 3
#endif
#ifndef NB
#define NB 3
#endif
static void one_op(Cont &c, Model &m)
{
	switch (vf_choose("op", 4)) {
	case 0: op_insert(c, m, sym_ent("e"), int(vf_choose("form", 3)) * 2 + (MODE ? 0 : 1)); break; // forms 1, 3, 5 in histories
	case 1: op_erase<0>(c, m, vf_choose("ek", NS + 1)); break;
	case 2: op_erase<1>(c, m, vf_choose("ek", NS + 1)); break;
	case 3: op_erase_at(c, m, vf_choose("ek", NS + 1)); break;
	}
}
static void mutate(Cont &c, Model &m) { op_erase<0>(c, m, NS); op_insert(c, m, ent(0, NS - 1, 0, 0), 0); op_erase<1>(c, m, 0); op_insert(c, m, ent(1 % NS, 0, NS - 1, 0), 1); check(c, m); }
static void start(Cont &c, Model &m)
{
	unsigned n = vf_choose("n", NB + 1); build(c, m, int(n), 2);
	if (vf_choose("s0", 2)) op_insert(c, m, ent(0, 0, 0, 0), 0);
	if (vf_choose("s1", 2)) op_insert(c, m, ent(NS - 1, NS - 1, NS - 1, 0), 1);
}
extern "C" void vf_main()
{
	sym_hashes(); Cont c; Model m;
#ifdef SYM_MLF
	{ static const float f[] = {.5f, 1.f, 3.f}; c.max_load_factor(f[vf_choose("mlf", 3)]); }
#endif
#if MODE == 0
	build(c, m, NB, 2);
	g_ids = g_ids > NS ? g_ids : NS + 1; 
	unsigned d = 1 + vf_choose("depth", DEPTH);
	for (unsigned i = 0; i < d; ++i) one_op(c, m);
	check(c, m);
#elif MODE == 1
	start(c, m); const Model full = m;
	switch (vf_choose("form", 4)) {
	case 0: { Cont d(c); check(d, m); Model n = m; mutate(d, n); check(c, full); break; }
	case 1: { Cont d(c, c.get_allocator()); check(d, m); mutate(c, m); check(d, full); break; }
	case 2: { Cont d; Model o; build(d, o, 2, 1); op_insert(d, o, ent(NS - 1, 0, 0, 0), 0); d = c; check(d, m); Model n = m; mutate(d, n); check(c, full); d = c; check(d, full); break; }
	case 3: { Cont &s = c; c = s; check(c, m); mutate(c, m); break; }
	}
#elif MODE == 2
	start(c, m);
	auto reuse = [&](Cont &x) { Model e; VF_CHECK(x.empty() && x.begin() == x.end(), "moved-from container is empty"); if (vf_choose("clear", 2)) x.clear(); check(x, e); op_insert(x, e, ent(0, 0, 0, 0), 0); build(x, e, 2, 1); check(x, e); };
	switch (vf_choose("form", 3)) {
	case 0: { Cont d(std::move(c)); check(d, m); reuse(c); mutate(d, m); break; }
	case 1: { Cont d(std::move(c), c.get_allocator()); check(d, m); reuse(c); mutate(d, m); break; }
	case 2: { Cont d; Model o; build(d, o, int(vf_choose("o", 3)), 1); d = std::move(c); check(d, m); reuse(c); mutate(d, m); break; }
	}
#elif MODE == 3
	start(c, m); Cont d; Model n; build(d, n, int(vf_choose("o", 3)), 1); if (vf_choose("os", 2)) op_insert(d, n, ent(0, NS - 1, 0, 0), 1);
	if (vf_choose("free", 2)) { using std::swap; swap(c, d); } else c.swap(d);
	check(c, n); check(d, m); mutate(c, n); mutate(d, m); check(c, n); check(d, m);
#elif MODE == 4
	start(c, m);
	if (vf_choose("form", 2)) { c.clear(); m.n = 0; }
	else { Ent a = sym_ent("a"), b = sym_ent("b"); a.v = 1; b.v = 2; m.n = 0; m.insert(a); m.insert(b); std::initializer_list<Cont::value_type> il = {mk(a), mk(b)}; c = il; }
	check(c, m); op_insert(c, m, ent(0, 0, 0, 0), 0); build(c, m, 3, 1); check(c, m); mutate(c, m);
#elif MODE == 5
	start(c, m); 
#ifndef RN
#define RN 0, 8, 16
#endif
	static const unsigned ns[] = {RN}; unsigned n = ns[vf_choose("rn", sizeof(ns) / sizeof(*ns))];
	if (vf_choose("form", 2)) { c.rehash(n); VF_CHECK(c.bucket_count() >= n, "rehash(n) gives at least n buckets"); } else { c.reserve(n); VF_CHECK(c.capacity() >= n, "reserve(n) gives a capacity of at least n"); }
	check(c, m); mutate(c, m);
#elif MODE == 6
	start(c, m); u64 sel = vf_choose("sel", 1u << (NB + 2)); int cnt = 0; u64 calls = 0; int ncalls = 0; Model left; 
	for (int i = 0; i < m.n; ++i) if (!(sel >> i & 1)) left.e[left.n++] = m.e[i]; else ++cnt;
	auto r = erase_if(c, [&](auto &&e) { int j = m.find(0, kid(e, 0)); VF_CHECK(j >= 0 && !(calls >> j & 1), "the predicate is called once per entry"); calls |= u64(1) << j; ++ncalls; return bool(sel >> j & 1); });
	VF_CHECK(int(r) == cnt && ncalls == m.n, "erase_if returns the number of removed entries"); check(c, left); mutate(c, left);
#elif MODE == 7
	start(c, m); Cont d; Model n;
	unsigned rev = vf_choose("rev", 2); if (vf_choose("cap", 2)) d.rehash(40);
	for (int i = 0; i < m.n; ++i) { Ent e = m.e[rev ? m.n - 1 - i : i]; d.insert(mk(e)); }
	VF_CHECK(c == d && d == c && !(c != d), "equal contents compare equal"); n = m;
	if (m.n) {
		unsigned w = vf_choose("w", m.n); Ent e = m.e[w];
		switch (vf_choose("diff", 3)) {
		case 0: d.erase<0>(KeyN<0>(e.k[0])); break;
		case 1: { if (!MAP) { d.erase<0>(KeyN<0>(e.k[0])); break; } d.erase<0>(KeyN<0>(e.k[0])); e.v ^= 1u << 7; d.insert(mk(e)); break; }
		case 2: { d.erase<0>(KeyN<0>(e.k[0])); e.k[1] = NK - 1; H[1][NK - 1] = 3; d.insert(mk(e)); break; }
		}
		VF_CHECK(!(c == d) && !(d == c) && c != d, "different contents compare unequal");
	} else { op_insert(d, n, ent(0, 0, 0, 0), 0); VF_CHECK(!(c == d) && c != d, "different contents compare unequal"); }
	check(c, m);
#elif MODE == 8
	start(c, m); unsigned d = vf_choose("depth", 2); for (unsigned i = 0; i < d; ++i) one_op(c, m);
	check_buckets(c, m);
	for (size_t b = 0; b < c.bucket_count(); ++b) { size_t n = 0; for (auto it = c.begin(b); it != c.end(b); ++it) ++n; VF_CHECK(n == c.bucket_size(b), "mutable local iteration"); }
#elif MODE == 9
	Ent s[3]; for (int i = 0; i < 3; ++i) { s[i] = sym_ent("e"); s[i].v = u32(i); }
	static const unsigned bcs[] = {0, 1, 3, 17}; unsigned bc = bcs[vf_choose("bc", 4)];
	if (vf_choose("pre", 2)) build(c, m, 2, 1);
	const Elem a[3] = {mk(s[0]), mk(s[1]), mk(s[2])};
	switch (vf_choose("form", 4)) {
	case 0: { for (auto &e : s) m.insert(e); c.insert(a, a + 3); check(c, m); break; }
	case 3: { Cont o(a, a + 3); Model n; for (auto &e : s) n.insert(e); if (vf_choose("const", 2)) c.insert(o.cbegin(), o.cend()); else c.insert(o.begin(), o.end()); for (int j = 0; j < n.n; ++j) m.insert(n.e[j]); check(c, m); check(o, n); break; }
	case 1: { Model n; for (auto &e : s) n.insert(e); const Cont d(a, a + 3, bc); Cont d2(d); VF_CHECK(d.bucket_count() >= bc, "requested bucket count"); check(d2, n); break; }
	case 2: { Model n; for (auto &e : s) n.insert(e); Cont d({Cont::value_type(mk(s[0])), Cont::value_type(mk(s[1])), Cont::value_type(mk(s[2]))}, bc); check(d, n); break; }
	}
#elif MODE == 10
	start(c, m); unsigned f = vf_choose("first", m.n + 1), l = f + vf_choose("len", m.n - f + 1);
	{ u64 gone = 0; auto it = c.cbegin(); for (unsigned i = 0; i < l; ++i, ++it) if (i >= f) gone |= u64(1) << m.find(0, kid(*it, 0));
	  Model left; for (int j = 0; j < m.n; ++j) if (!(gone >> j & 1)) left.e[left.n++] = m.e[j];
	  auto r = c.erase(c.cbegin() + f, c.cbegin() + l); VF_CHECK(r - c.begin() == int(f), "range erase returns the following position"); check(c, left); mutate(c, left); }
#elif MODE == 11
	start(c, m); const Cont &cc = c;
	for (u32 k = 0; k < g_ids; ++k) {
		{ const int j = m.find(0, k); const AltN<0> a{k}; auto it = c.find<0>(a); VF_CHECK((it != c.end()) == (j >= 0) && (j < 0 || it == c.find<0>(KeyN<0>(k))), "find by another key type"); VF_CHECK((cc.find<0>(a) != cc.end()) == (j >= 0), "const find by another key type"); VF_CHECK(cc.contains<0>(a) == (j >= 0), "contains by another key type");
		  if (c.bucket_count()) VF_CHECK(cc.bucket<0>(a) == cc.bucket<0>(KeyN<0>(k)), "bucket by another key type"); }
		{ const int j = m.find(1, k); const AltN<1> a{k}; auto it = c.find<1>(a); VF_CHECK((it != c.end()) == (j >= 0) && (j < 0 || it == c.find<1>(KeyN<1>(k))), "find by another key type"); VF_CHECK(cc.contains<1>(a) == (j >= 0), "contains by another key type");
#if MAP
		  bool t = false; try { auto &v = c.at<1>(a); auto &cv = cc.at<1>(a); VF_CHECK(j >= 0 && v == m.e[j].v && cv == v, "at by another key type"); } catch (const std::out_of_range &) { t = true; } VF_CHECK(t == (j < 0), "at throws exactly for an absent key");
#endif
		}
	}
	switch (vf_choose("form", 4)) {
	case 0: { u32 k = vf_choose("ek", NS + 1); const int j = m.find(0, k); auto n = c.size(); c.erase<0>(AltN<0>{k}); VF_CHECK(c.size() == n - (j >= 0), "erase by another key type"); if (j >= 0) m.drop(j); break; }
	case 1: { u32 k = vf_choose("ek", NS + 1); const int j = m.find(1, k); auto n = c.size(); c.erase<1>(AltN<1>{k}); VF_CHECK(c.size() == n - (j >= 0), "erase by another key type"); if (j >= 0) m.drop(j); break; }
#if MAP && KS == 2
	case 2: case 3: { Ent e = sym_ent("e"); e.v = ++g_val; const int x = m.clash(e); const bool h = vf_choose("hint", 2);
		auto it = c.end(); if (h) it = c.try_emplace(c.cbegin(), std::tuple<AltN<0>, AltN<1>>(AltN<0>{e.k[0]}, AltN<1>{e.k[1]}), e.v); else { auto r = c.try_emplace(std::tuple<AltN<0>, AltN<1>>(AltN<0>{e.k[0]}, AltN<1>{e.k[1]}), e.v); VF_CHECK(r.second == (x < 0), "try_emplace with other key types"); it = r.first; }
		if (x < 0) { m.insert(e); auto &&q = *it; VF_CHECK(same(q, e), "try_emplace with other key types"); } break; }
#endif
	}
	check(c, m); mutate(c, m);
#endif
	vf_cover("end");
}
