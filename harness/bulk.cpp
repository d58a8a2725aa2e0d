// C26: bulk construction and insertion equal one-by-one insertion in order.
#include "lib.h"
#include <initializer_list>
#include <iterator>
#ifndef LEN
#define LEN 3
#endif
#ifndef SHAPES
#define SHAPES S_EMPTY, S_THREE_FULL, S_TOMB_SMALL
#endif
static const unsigned char shapes[] = {SHAPES};
#if MAP
typedef std::pair<Key, u32> Src; static Src ms(u32 k, u32 v) { return Src(Key(k), v); }
#else
typedef Key Src; static Src ms(u32 k, u32) { return Key(k); }
#endif
struct Node { Src s; Node *next; };
struct Fwd { // a forward iterator over a linked list
	typedef std::forward_iterator_tag iterator_category; typedef Src value_type; typedef std::ptrdiff_t difference_type; typedef const Src *pointer; typedef const Src &reference;
	const Node *n = nullptr;
	const Src &operator*() const { return n->s; } const Src *operator->() const { return &n->s; }
	Fwd &operator++() { n = n->next; return *this; } Fwd operator++(int) { Fwd r = *this; ++*this; return r; }
	bool operator==(const Fwd &o) const { return n == o.n; } bool operator!=(const Fwd &o) const { return n != o.n; }
};
static const unsigned bcs[] = {0, 1, 8, 33};
static void finish(Cont &c, Model &m) { check_all(c, m, g_used); op_insert(c, m, NS - 1); op_erase(c, m, 0, 1); put(c, m, mkh(2, 2)); check_all(c, m, g_used); }
extern "C" void vf_main()
{
	sym_hashes(); Cont c; Model m; g_used = NS + 1; H[NS] = mkh(3, 3);
	const unsigned form = vf_choose("form", 15); const bool ins = form < 4;
	if (ins) { if (vf_choose("first", 2)) op_insert(c, m, 0); build(c, m, shapes[vf_choose("shape", sizeof(shapes))]); }
	const int n = int(vf_choose("len", LEN + 1)); Src s[LEN + 1]; Node l[LEN + 1]; u32 ids[LEN + 1];
	for (int i = 0; i < n; ++i) { u32 k = vf_choose("id", NS + 1); ids[i] = k; s[i] = ms(k, 50 + u32(i)); l[i].s = s[i]; l[i].next = i + 1 < n ? &l[i + 1] : nullptr; }
	const Fwd f{n ? l : nullptr}, e{nullptr};
	auto all = [&](Model &x) { for (int i = 0; i < n; ++i) x.insert(ids[i], 50 + u32(i)); };
	const unsigned bc = ins ? 0 : bcs[vf_choose("bc", 4)];
	Model d;
	switch (form) {
	case 0: c.insert(s, s + n); all(m); finish(c, m); break;
	case 1: c.insert(f, e); all(m); finish(c, m); break;
	case 2: if (n == 2) { c.insert({Cont::value_type(s[0]), Cont::value_type(s[1])}); all(m); finish(c, m); } break;
	case 3: { Cont o; o.insert(s, s + n); Model t; all(t); c.insert(o.begin(), o.end()); // elements of another container, in its iteration order
		int q = 0; for (auto it = o.cbegin(); it != o.cend(); ++it, ++q) { int j = t.find(kid(*it)); VF_CHECK(j >= 0, "source element"); m.insert(kid(*it), t.val[j]); } VF_CHECK(q == t.n, "source size"); finish(c, m); check_all(o, t, NS + 1); break; }
	case 4: { Cont x(s, s + n, bc); all(d); VF_CHECK(x.bucket_count() >= bc, "requested bucket count"); finish(x, d); break; }
	case 5: { Cont x(f, e, bc); all(d); VF_CHECK(x.bucket_count() >= bc, "requested bucket count"); finish(x, d); break; }
	case 6: if (n == 3) { Cont x({Cont::value_type(s[0]), Cont::value_type(s[1]), Cont::value_type(s[2])}, bc); all(d); VF_CHECK(x.bucket_count() >= bc, "requested bucket count"); finish(x, d); } break;
	case 7: { Cont x(s, s + n, bc, Hash{}, Cmp{}, Cont::allocator_type{}); all(d); finish(x, d); break; }
	case 8: if (n == 1) { std::initializer_list<Cont::value_type> il = {Cont::value_type(s[0])}; Cont x; Model y; build(x, y, S_THREE_FULL); x = il; all(d); check_all(x, d, g_used); x.insert(il); finish(x, d); } break;
	// the shorter constructor forms
	case 9: case 10: case 11: case 12: {
		if (n != 2) break;
		std::initializer_list<Cont::value_type> il = {Cont::value_type(s[0]), Cont::value_type(s[1])}; const Cont::allocator_type al; all(d);
		auto done = [&](Cont &x) { VF_CHECK(x.bucket_count() >= bc, "requested bucket count"); finish(x, d); };
		if (form == 9) { Cont x(il, bc, al); done(x); } else if (form == 10) { Cont x(il, bc, Hash{}, al); done(x); } else if (form == 11) { Cont x(s, s + n, bc, al); done(x); } else { Cont x(f, e, bc, Hash{}, al); done(x); }
		break; }
	case 13: { if (n) break; const Cont::allocator_type al; Cont x(bc, al); VF_CHECK(x.bucket_count() >= bc, "requested bucket count"); finish(x, d); Model q; Cont y(bc, Hash{}, al); VF_CHECK(y.bucket_count() >= bc, "requested bucket count"); finish(y, q); break; }
	case 14: { // several insertions of lists, the last one into a container that was cleared
		if (n != 2) break;
		std::initializer_list<Cont::value_type> il = {Cont::value_type(s[0]), Cont::value_type(s[1])}; Cont x; x.insert(il); x.clear(); x.insert(il); x.insert(il); all(d); finish(x, d); break; }
	}
	vf_cover("end");
}
