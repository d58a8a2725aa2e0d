// C33: iterators obey the laws of their category. Reference: the sequence of positions obtained by stepping one by one from begin() to end().
#include "lib.h"
#include <iterator>
#include <type_traits>
#ifndef SHAPES
#define SHAPES S_EMPTY, S_ONE, S_THREE_FULL, S_SEVEN_FULL, S_TOMB_SMALL
#endif
static const unsigned char shapes[] = {SHAPES};
#define RANDOM (FAM == 3 && !ORD)
#define BIDIR (FAM == 3 || ORD)
template<class It> static void laws(It b, It e, const Model &m)
{
	typedef std::iterator_traits<It> T; typedef typename T::iterator_category Cat;
	static_assert(std::is_base_of<std::forward_iterator_tag, Cat>::value, "forward"); static_assert(!BIDIR || std::is_base_of<std::bidirectional_iterator_tag, Cat>::value, "bidirectional"); static_assert(!RANDOM || std::is_base_of<std::random_access_iterator_tag, Cat>::value, "random access");
	It at[NK + 1]; u32 ids[NK]; int n = 0;
	for (It i = b; i != e; ++i) { at[n] = i; auto &&r = *i; ids[n] = kid(r); VF_CHECK(kid(*i.operator->()) == ids[n], "operator-> and operator* denote the same element"); ++n; VF_CHECK(n <= m.n, "too many positions"); }
	at[n] = e; VF_CHECK(n == m.n, "as many positions as elements"); VF_CHECK(std::distance(b, e) == n, "std::distance counts the positions");
	const int i = int(vf_choose("i", unsigned(n) + 1)), j = int(vf_choose("j", unsigned(n) + 1));
	const It x = at[i], y = at[j];
	VF_CHECK((x == y) == (i == j) && (x != y) == (i != j), "iterators are equal exactly at the same position");
	{ It c(x); VF_CHECK(c == x, "a copy denotes the same position"); It d = y; d = x; VF_CHECK(d == x, "an assigned iterator denotes the same position"); It s = x, t = y; std::swap(s, t); VF_CHECK(s == y && t == x, "swapped iterators"); }
	if (i < n) { It c = x; It o = c++; VF_CHECK(o == x && c == at[i + 1], "post-increment"); It d = x; It &r = ++d; VF_CHECK(&r == &d && d == c, "pre-increment"); auto &&v = *o; VF_CHECK(kid(v) == ids[i], "the element at the old position"); }
#if BIDIR
	if (i > 0) { It c = x; It o = c--; VF_CHECK(o == x && c == at[i - 1], "post-decrement"); It d = x; It &r = --d; VF_CHECK(&r == &d && d == c, "pre-decrement"); auto &&v = *d; VF_CHECK(kid(v) == ids[i - 1], "the element one back"); ++d; VF_CHECK(d == x, "forth after back"); }
	VF_CHECK(std::next(b, i) == x && std::prev(e, n - i) == x, "std::next and std::prev");
	{ std::reverse_iterator<It> rb(e), re(b); int k = n; for (; rb != re; ++rb) { auto &&v = *rb; VF_CHECK(k > 0 && kid(v) == ids[--k], "reverse_iterator over the positions"); } VF_CHECK(k == 0, "reverse_iterator visits every position"); }
#endif
#if RANDOM
	typedef typename T::difference_type D;
	const D d = D(j) - i;
	VF_CHECK(y - x == d && x - y == -d, "difference is the number of steps");
	VF_CHECK(x + d == y && d + x == y && y - d == x, "adding and subtracting steps");
	It c = x; It &r1 = (c += d); VF_CHECK(c == y && &r1 == &c, "+="); It &r2 = (c -= d); VF_CHECK(c == x && &r2 == &c, "-=");
	VF_CHECK((x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "ordering is the ordering of positions");
	if (j < n) { auto &&v = x[d]; VF_CHECK(kid(v) == ids[j], "indexing"); auto &&w = *(x + d); VF_CHECK(kid(w) == ids[j], "dereferenced sum"); }
	VF_CHECK(b + n == e && e - b == n && e - n == b, "begin to end");
	std::reverse_iterator<It> rx(x), ry(y); VF_CHECK(rx - ry == d && rx + (-d) == ry && (rx < ry) == (i > j), "reverse iterator arithmetic");
#endif
}
extern "C" void vf_main()
{
	sym_hashes(); Cont c; Model m;
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, shapes[vf_choose("shape", sizeof(shapes))]);
	if (vf_choose("last", 2)) op_insert(c, m, NS - 1);
	if (m.n && vf_choose("erase", 2)) op_erase(c, m, m.id[m.n / 2], 0);
	const Cont &cc = c;
	typedef Cont::iterator It; typedef Cont::const_iterator Ct;
	static_assert(std::is_convertible<It, Ct>::value, "iterators convert to constant iterators");
	static_assert(std::is_default_constructible<It>::value && std::is_default_constructible<Ct>::value, "iterators are default constructible");
	{ auto ci = cc.begin(); auto k2 = c.cbegin(); for (It i = c.begin(); ; ++i, ++ci, ++k2) {
		Ct k = i; VF_CHECK(k == ci && ci == k && k == k2 && !(k != ci), "the constant iterator of the same position"); Ct l; l = i; VF_CHECK(l == ci, "assignment from an iterator");
		VF_CHECK((i == c.end()) == (ci == cc.end()) && (ci == cc.end()) == (k2 == c.cend()), "both reach the end together"); if (i == c.end()) break;
		auto &&r = *k; auto &&s = *i; VF_CHECK(kid(r) == kid(s), "the constant iterator denotes the same element"); VF_CHECK(vof(r) == vof(s), "the constant iterator denotes the same value"); } }
	// positions given by lookup are the positions met by stepping
	for (int q = 0; q < m.n; ++q) { const Key key(m.id[q]); It f = c.find(key); Ct g = cc.find(key); VF_CHECK(Ct(f) == g && f != c.end(), "find gives a position"); bool met = false; for (It i = c.begin(); i != c.end(); ++i) { auto &&r = *i; if (i == f) met = true; VF_CHECK((i == f) == (kid(r) == m.id[q]), "the position found is the position of the element"); } VF_CHECK(met, "a found position is met by stepping"); }
	const unsigned w = vf_choose("constant", 2);
	if (w) laws<Ct>(cc.begin(), cc.end(), m); else laws<It>(c.begin(), c.end(), m);
#if FAM == 3
	{ int k = m.n; auto r = cc.crbegin(); for (auto i = c.rbegin(); i != c.rend(); ++i, ++r) { auto &&v = *i; auto &&u = *r; VF_CHECK(k > 0 && kid(v) == kid(u), "reverse and constant reverse iteration agree"); --k; } VF_CHECK(k == 0 && r == cc.crend(), "reverse iteration visits every element"); }
#endif
	vf_cover("end");
}
