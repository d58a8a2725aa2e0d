// C14: node handles.
#define TRACK 1
#include "lib.h"
#ifndef SRC
#define SRC S_EMPTY, S_THREE_FULL, S_SEVEN_FULL, S_TOMB_SMALL
#endif
static const unsigned char src[] = {SRC};
typedef Cont::node_type Node;
static void check_node(const Node &n, bool has, u32 k, u32 v)
{
	VF_CHECK(n.empty() == !has && bool(n) == has, "handle is empty exactly when it owns nothing");
	if (has) VF_CHECK(kid(n.value()) == k && (!MAP || vof(n.value()) == v), "handle owns the element");
}
static void body()
{
#ifdef USE_SALLOC
	Cont c{SAlloc<Elem>(1)}; Model m;
#else
	Cont c; Model m;
#endif
	if (vf_choose("first", 2)) op_insert(c, m, 0);
	build(c, m, src[vf_choose("shape", sizeof(src))]);
	if (vf_choose("last", 2)) op_insert(c, m, NS - 1);
	const int base_live = g_live; const Model full = m; (void)base_live;
	const unsigned w = vf_choose("w", m.n + NS); const u32 k = w < unsigned(m.n) ? m.id[w] : w - m.n; const Key key(k);
	int i = m.find(k); const bool had = i >= 0; const u32 v = had ? m.val[i] : 0;
	const int copies = g_copies;
	Node n; check_node(n, false, 0, 0);
	if (had && vf_choose("byiter", 2)) n = c.extract(c.find(key)); else n = c.extract(key);
	m.erase(k); check_node(n, had, k, v);
	check_all(c, m, g_used);
	Node o(std::move(n)); check_node(n, false, 0, 0); check_node(o, had, k, v);
#ifdef USE_SALLOC
	{ // into a container with an equal or a different allocator
		Cont d{SAlloc<Elem>(1 + vf_choose("alloc", 2))}; Model md; build(d, md, vf_choose("other", 2) ? S_SEVEN_FULL : S_EMPTY); if (vf_choose("taken", 2)) op_insert(d, md, k);
		const bool taken = md.has(k), ins = had && !taken; const int copies2 = g_copies;
		switch (vf_choose("how", MAP ? 4 : 2)) {
		case 0: { auto r = d.insert(std::move(o)); VF_CHECK(r.inserted == ins, "inserting a handle reports insertion"); check_node(r.node, had && taken, k, v); check_node(o, false, 0, 0); if (had) VF_CHECK(kid(*r.position) == k, "position of the element"); break; }
		case 1: { auto h = d.cbegin(); const bool hinted = h != d.cend(); auto r = d.insert(h, std::move(o)); if (had) VF_CHECK(kid(*r) == k, "hinted node insertion returns the element"); if (ins && hinted && ORD) { md.insert_after(0, k, v); } check_node(o, had && taken, k, v); break; }
#if MAP
		case 2: { auto r = d.insert_or_assign(std::move(o)); VF_CHECK(r.second == ins, "insert_or_assign reports insertion"); check_node(o, false, 0, 0); if (had && taken) md.set(k, v); break; }
		case 3: { auto h = d.cbegin(); const bool hinted = h != d.cend(); auto r = d.insert_or_assign(h, std::move(o)); if (ins && hinted && ORD) md.insert_after(0, k, v); if (had) VF_CHECK(kid(*r) == k && vof(*r) == v, "insert_or_assign stores the element"); check_node(o, false, 0, 0); if (had && taken) md.set(k, v); break; }
#endif
		}
		if (ins && !md.has(k)) md.insert(k, v);
		if (!MAP || d.get_allocator() == c.get_allocator()) VF_CHECK(g_copies == copies2, "nothing was copied"); // the const key of a map element can only be copied into other memory
		check_all(d, md, g_used); op_insert(d, md, 0); check_all(d, md, g_used); check_all(c, m, g_used);
		return;
	}
#endif
	switch (vf_choose("then", 7)) {
	case 0: break; // discarded
	case 1: { // back in
		auto r = c.insert(std::move(o)); VF_CHECK(r.inserted == had, "inserting a handle reports insertion"); if (had) { m.insert(k, v); VF_CHECK(kid(*r.position) == k, "position of the inserted element"); } else VF_CHECK(r.position == c.end(), "an empty handle gives end()");
		check_node(r.node, false, 0, 0); check_node(o, false, 0, 0); break; }
	case 2: { // the key is taken meanwhile
		VF_CHECK(g_copies == copies, "nothing was copied"); op_insert(c, m, k); const int cp = g_copies;
		auto r = c.insert(std::move(o)); VF_CHECK(!r.inserted, "the key is taken"); check_node(r.node, had, k, v);
		if (had) VF_CHECK(kid(*r.position) == k && (!MAP || vof(*r.position) == m.val[m.find(k)]), "position is the existing element");
		check_all(c, m, g_used); VF_CHECK(g_copies == cp, "nothing was copied");
		swap(n, r.node); check_node(n, had, k, v); check_node(r.node, false, 0, 0); break; }
	case 3: { // insert_or_assign over an existing element, or as a new one
#if MAP
		unsigned taken = vf_choose("taken", 2); if (taken) op_insert(c, m, k); const int cp = g_copies;
		auto r = c.insert_or_assign(std::move(o)); VF_CHECK(r.second == (had && !taken), "insert_or_assign reports insertion");
		if (had) { if (taken) m.set(k, v); else m.insert(k, v); VF_CHECK(kid(*r.first) == k && vof(*r.first) == v, "insert_or_assign stores the handle's element"); }
		VF_CHECK(o.empty(), "the handle was consumed"); VF_CHECK(g_copies == cp, "nothing was copied");
#endif
		break; }
	case 4: { // into another container
		Cont d; Model md; unsigned s = vf_choose("other", 2); build(d, md, s ? S_SEVEN_FULL : S_EMPTY);
		auto r = d.insert(std::move(o)); VF_CHECK(r.inserted == had, "inserted elsewhere"); if (had) md.insert(k, v); check_all(d, md, g_used); op_insert(d, md, 0); check_all(d, md, g_used); break; }
	case 5: { // overwrite a handle that owns something with another one
		if (!m.n) break; const u32 k2 = m.id[0]; const u32 v2 = m.val[0]; const Key key2(k2);
		Node p = c.extract(key2); m.erase(k2); o = std::move(p); check_node(p, false, 0, 0); check_node(o, true, k2, v2);
		Node &self = o; o = std::move(self); check_node(o, true, k2, v2);
		c.clear(); m.n = 0; auto r = c.insert(std::move(o)); VF_CHECK(r.inserted, "inserted after clear"); m.insert(k2, v2); break; }
	case 6: { // hinted insertion
		auto h = c.cbegin(); const bool hinted = h != c.cend(); const int at = 0; auto r = c.insert(h, std::move(o));
		if (had) { VF_CHECK(r != c.end() && kid(*r) == k, "hinted node insertion returns the element"); if (hinted && ORD) m.insert_after(at, k, v); else m.insert(k, v); }
		else VF_CHECK(r == c.end(), "an empty handle gives end()");
		VF_CHECK(o.empty(), "the handle was consumed"); break; }
	}
	check_all(c, m, g_used);
	for (int j = 0; j < full.n && j < 4; ++j) op_insert(c, m, full.id[j]);
	op_insert(c, m, NS - 1); check_all(c, m, g_used);
	VF_CHECK(MAP ? g_live >= 2 * m.n : g_live >= m.n, "elements are alive");
}
extern "C" void vf_main()
{
	sym_hashes(); const auto live = vf_live();
	body();
	VF_CHECK(g_live == 0, "every element is destroyed exactly once"); VF_CHECK(vf_live() == live, "no memory is leaked");
	vf_cover("end");
}
