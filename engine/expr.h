// Hash-consed bit-vector expression DAG with constant folding.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <vector>
#include <string>
#include <unordered_map>
#include <array>
#include <algorithm>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum Op : uint8_t {
	CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	EQ, ULT, ULE, SLT, SLE, CONCAT, EXTRACT, ZEXT, SEXT, ITE
};

static const int VWORDS = 6; // up to 384 symbolic variables per run
struct VarSet {
	u64 w[VWORDS];
	bool intersects(const VarSet &o) const { for (int i = 0; i < VWORDS; i++) if (w[i] & o.w[i]) return true; return false; }
	void operator|=(const VarSet &o) { for (int i = 0; i < VWORDS; i++) w[i] |= o.w[i]; }
	bool operator==(const VarSet &o) const { return !memcmp(w, o.w, sizeof w); }
	bool test(unsigned i) const { return w[i >> 6] >> (i & 63) & 1; }
	void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
	static VarSet none() { VarSet v; memset(&v, 0, sizeof v); return v; }
};

struct Node {
	uint8_t op;
	uint16_t w;
	uint32_t id;
	uint32_t lo;       // EXTRACT low bit / VAR index
	uint32_t evalEpoch;
	uint32_t simpEpoch;
	Node *simp;
	u64 hash;
	Node *next;
	Node *k[3];
	u128 imm;          // CONST value
	u128 evalVal;
	Z3_ast z3;
	VarSet vars;
};
typedef Node *Ref;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); return (i128)((v ^ m) - m); }
static inline i64 sx64(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); return (i64)((v ^ m) - m); }

struct VarInfo { std::string name; unsigned w; bool undef; };

struct ExprPool {
	std::vector<Node *> table;
	u64 count = 0;
	std::vector<VarInfo> vars;
	std::unordered_map<std::string, Ref> varByName;
	std::vector<Node *> chunks;
	size_t chunkPos = 0;
	static const size_t CH = 4096;

	ExprPool() : table(1 << 16, nullptr) {}

	Node *fresh() {
		if (chunks.empty() || chunkPos == CH) { chunks.push_back((Node *)malloc(sizeof(Node) * CH)); chunkPos = 0; }
		return &chunks.back()[chunkPos++];
	}
	void grow() {
		std::vector<Node *> nt(table.size() * 4, nullptr);
		for (Node *n : table) while (n) { Node *nx = n->next; size_t b = n->hash & (nt.size() - 1); n->next = nt[b]; nt[b] = n; n = nx; }
		table.swap(nt);
	}
	Ref intern(uint8_t op, unsigned w, uint32_t lo, u128 imm, Ref a, Ref b, Ref c) {
		u64 h = op * 0x9E3779B97F4A7C15ull + w * 0xC2B2AE3D27D4EB4Full + lo * 0x165667B19E3779F9ull;
		h ^= (u64)imm * 0xff51afd7ed558ccdull; h = (h << 23 | h >> 41) * 5 + (u64)(imm >> 64);
		h ^= (a ? a->id : 0) * 0x9FB21C651E98DF25ull; h = (h << 17 | h >> 47);
		h ^= (b ? b->id : 0) * 0xD6E8FEB86659FD93ull; h = (h << 29 | h >> 35);
		h ^= (c ? c->id : 0) * 0xA0761D6478BD642Full; h ^= h >> 32; h *= 0xE7037ED1A0B428DBull; h ^= h >> 29;
		for (Node *n = table[h & (table.size() - 1)]; n; n = n->next)
			if (n->hash == h && n->op == op && n->w == w && n->lo == lo && n->imm == imm && n->k[0] == a && n->k[1] == b && n->k[2] == c) return n;
		if (count > table.size()) grow();
		Node *n = fresh();
		n->op = op; n->w = w; n->lo = lo; n->imm = imm; n->k[0] = a; n->k[1] = b; n->k[2] = c;
		n->hash = h; n->id = (uint32_t)++count; n->evalEpoch = 0; n->simpEpoch = 0; n->z3 = nullptr;
		n->vars = VarSet::none();
		if (op == VAR) n->vars.set(lo);
		if (a) n->vars |= a->vars;
		if (b) n->vars |= b->vars;
		if (c) n->vars |= c->vars;
		size_t bk = h & (table.size() - 1);
		n->next = table[bk]; table[bk] = n;
		return n;
	}
	Ref cst(u128 v, unsigned w) { return intern(CONST, w, 0, v & maskw(w), 0, 0, 0); }
	Ref var(const std::string &name, unsigned w, bool undef) {
		auto it = varByName.find(name);
		if (it != varByName.end()) { if (it->second->w != w) { fprintf(stderr, "ENGINE-ERROR: variable %s width mismatch\n", name.c_str()); exit(3); } return it->second; }
		if (vars.size() >= VWORDS * 64) { fprintf(stderr, "ENGINE-ERROR: too many symbolic variables\n"); exit(3); }
		Ref r = intern(VAR, w, (uint32_t)vars.size(), 0, 0, 0, 0);
		vars.push_back({name, w, undef});
		varByName[name] = r;
		return r;
	}
	static bool isC(Ref a) { return a->op == CONST; }
	static bool isC(Ref a, u128 v) { return a->op == CONST && a->imm == v; }

	static u128 fold(uint8_t op, unsigned w, u128 a, u128 b) {
		u128 m = maskw(w);
		switch (op) {
		case ADD: return (a + b) & m;
		case SUB: return (a - b) & m;
		case MUL: return (a * b) & m;
		case UDIV: return b ? a / b : m;
		case UREM: return b ? a % b : a;
		case SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (-a) & m; return (u128)(x / y) & m; }
		case SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
		case AND: return a & b;
		case OR: return a | b;
		case XOR: return a ^ b;
		case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
		case LSHR: return b >= w ? 0 : a >> (unsigned)b;
		case ASHR: { i128 x = sx(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
		}
		abort();
	}
	Ref notb(Ref a) { return xor_(a, cst(1, 1)); }
	Ref xor_(Ref a, Ref b) { return bin(XOR, a, b); }

	Ref bin(uint8_t op, Ref a, Ref b) {
		unsigned w = a->w;
		if (a->w != b->w) { fprintf(stderr, "ENGINE-ERROR: width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
		if (isC(a) && isC(b)) return cst(fold(op, w, a->imm, b->imm), w);
		bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
		if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b); // const on the right
		u128 m = maskw(w);
		switch (op) {
		case ADD:
			if (isC(b, 0)) return a;
			if (isC(b) && a->op == ADD && isC(a->k[1])) return bin(ADD, a->k[0], cst(a->k[1]->imm + b->imm, w));
			if (isC(b) && a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
			break;
		case SUB:
			if (a == b) return cst(0, w);
			if (isC(b)) return bin(ADD, a, cst(-b->imm, w));
			if (a->op == ADD && isC(a->k[1]) && a->k[0] == b) return a->k[1];
			if (a->op == ADD && a->k[1] == b) return a->k[0];
			if (a->op == ADD && a->k[0] == b) return a->k[1];
			break;
		case MUL:
			if (isC(b, 0)) return b;
			if (isC(b, 1)) return a;
			break;
		case UDIV: if (isC(b, 1)) return a;
			if (isC(b) && b->imm && a->op == ZEXT) { unsigned kw = a->k[0]->w; if (b->imm >> kw) return cst(0, w); return zext(bin(UDIV, a->k[0], cst(b->imm, kw)), w); }
			if (isC(b) && b->imm && (b->imm & (b->imm - 1)) == 0) { unsigned s = 0; while (!((b->imm >> s) & 1)) s++; return bin(LSHR, a, cst(s, w)); }
			break;
		case UREM:
			if (isC(b) && b->imm && a->op == ZEXT) { unsigned kw = a->k[0]->w; if (b->imm >> kw) return a; return zext(bin(UREM, a->k[0], cst(b->imm, kw)), w); }
			if (isC(b) && b->imm && (b->imm & (b->imm - 1)) == 0) return bin(AND, a, cst(b->imm - 1, w));
			break;
		case AND: {
			if (a == b) return a;
			if (isC(b, 0)) return b;
			if (isC(b, m)) return a;
			if (isC(b) && a->op == AND && isC(a->k[1])) return bin(AND, a->k[0], cst(a->k[1]->imm & b->imm, w));
			if (isC(b) && (b->imm & (b->imm + 1)) == 0) { // low mask -> zext(extract)
				unsigned n = 0; while (n < w && ((b->imm >> n) & 1)) n++;
				return zext(extract(a, 0, n), w);
			}
			if (isC(b) && a->op == ITE && (isC(a->k[1]) || isC(a->k[2]))) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
			if (isC(b) && (a->op == ZEXT) ) { unsigned kw = a->k[0]->w; return zext(bin(AND, a->k[0], cst(b->imm, kw)), w); }
			break; }
		case OR:
			if (a == b) return a;
			if (isC(b, 0)) return a;
			if (isC(b, m)) return b;
			for (int sw = 0; sw < 2; sw++) { Ref x = sw ? b : a, y = sw ? a : b;
				if (x->op == CONCAT && isC(x->k[1], 0) && y->op == ZEXT && y->k[0]->w <= x->k[1]->w) return concat(x->k[0], zext(y->k[0], x->k[1]->w));
				if (x->op == CONCAT && isC(x->k[1], 0) && isC(y) && (y->imm >> x->k[1]->w) == 0) return concat(x->k[0], cst(y->imm, x->k[1]->w));
			}
			if (a->op == ZEXT && b->op == ZEXT) { unsigned kw = std::max(a->k[0]->w, b->k[0]->w); if (kw < w) return zext(bin(OR, zext(a->k[0], kw), zext(b->k[0], kw)), w); }
			break;
		case XOR:
			if (a == b) return cst(0, w);
			if (isC(b, 0)) return a;
			if (isC(b) && a->op == XOR && isC(a->k[1])) return bin(XOR, a->k[0], cst(a->k[1]->imm ^ b->imm, w));
			if (w == 1 && isC(b, 1)) { // not
				if (a->op == ULT) return cmp(ULE, a->k[1], a->k[0]);
				if (a->op == ULE) return cmp(ULT, a->k[1], a->k[0]);
				if (a->op == SLT) return cmp(SLE, a->k[1], a->k[0]);
				if (a->op == SLE) return cmp(SLT, a->k[1], a->k[0]);
			}
			break;
		case SHL:
			if (isC(b, 0)) return a;
			if (isC(b)) { if (b->imm >= w) return cst(0, w); unsigned s = (unsigned)b->imm; return concat(extract(a, 0, w - s), cst(0, s)); }
			break;
		case LSHR:
			if (isC(b, 0)) return a;
			if (isC(b)) { if (b->imm >= w) return cst(0, w); unsigned s = (unsigned)b->imm; return zext(extract(a, s, w - s), w); }
			break;
		case ASHR:
			if (isC(b, 0)) return a;
			if (isC(b)) { unsigned s = b->imm >= w ? w - 1 : (unsigned)b->imm; return sext(extract(a, s, w - s), w); }
			break;
		}
		return intern(op, w, 0, 0, a, b, 0);
	}
	Ref cmp(uint8_t op, Ref a, Ref b) {
		unsigned w = a->w;
		if (a->w != b->w) { fprintf(stderr, "ENGINE-ERROR: cmp width mismatch\n"); abort(); }
		if (isC(a) && isC(b)) {
			bool r = false; u128 x = a->imm, y = b->imm;
			switch (op) { case EQ: r = x == y; break; case ULT: r = x < y; break; case ULE: r = x <= y; break;
			case SLT: r = sx(x, w) < sx(y, w); break; case SLE: r = sx(x, w) <= sx(y, w); break; }
			return cst(r, 1);
		}
		if (a == b) return cst(op == EQ || op == ULE || op == SLE, 1);
		if (op == EQ) {
			if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
			if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return notb(a); return notb(xor_(a, b)); }
			if (isC(b)) {
				if (a->op == ZEXT) { unsigned kw = a->k[0]->w; if (b->imm >> kw) return cst(0, 1); return cmp(EQ, a->k[0], cst(b->imm, kw)); }
				if (a->op == SEXT) { unsigned kw = a->k[0]->w; u128 t = (u128)sx(b->imm & maskw(kw), kw) & maskw(w); if (t != b->imm) return cst(0, 1); return cmp(EQ, a->k[0], cst(b->imm, kw)); }
				if (a->op == CONCAT) { unsigned lw = a->k[1]->w; return bin(AND, cmp(EQ, a->k[0], cst(b->imm >> lw, a->k[0]->w)), cmp(EQ, a->k[1], cst(b->imm, lw))); }
				if (a->op == ADD && isC(a->k[1])) return cmp(EQ, a->k[0], cst(b->imm - a->k[1]->imm, w));
				if (a->op == XOR && isC(a->k[1])) return cmp(EQ, a->k[0], cst(b->imm ^ a->k[1]->imm, w));
				if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2]))) {
					Ref t = cmp(EQ, a->k[1], b), e = cmp(EQ, a->k[2], b);
					return ite(a->k[0], t, e);
				}
				if (a->op == SUB && isC(b, 0)) return cmp(EQ, a->k[0], a->k[1]);
			} else {
				if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return cmp(EQ, a->k[0], b->k[0]);
				if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return cmp(EQ, a->k[0], b->k[0]);
				if (a->op == ADD && b->op == ADD && a->k[1] == b->k[1]) return cmp(EQ, a->k[0], b->k[0]);
				if (a->op == CONCAT && b->op == CONCAT && a->k[1]->w == b->k[1]->w) return bin(AND, cmp(EQ, a->k[0], b->k[0]), cmp(EQ, a->k[1], b->k[1]));
			}
		} else {
			if (op == ULT && isC(b, 0)) return cst(0, 1);
			if (op == ULE && isC(a, 0)) return cst(1, 1);
			if (op == ULT && isC(b, 1)) return cmp(EQ, a, cst(0, w));
			if (op == ULE && isC(b, 0)) return cmp(EQ, a, b);
			if (op == ULE && isC(b, maskw(w))) return cst(1, 1);
			if (a->op == ZEXT && isC(b)) {
				unsigned kw = a->k[0]->w;
				if (op == SLT || op == SLE) { if (sx(b->imm, w) < 0) return cst(0, 1); op = op == SLT ? ULT : ULE; }
				if (b->imm > maskw(kw)) return cst(1, 1);
				return cmp(op, a->k[0], cst(b->imm, kw));
			}
			if (b->op == ZEXT && isC(a)) {
				unsigned kw = b->k[0]->w;
				if (op == SLT || op == SLE) { if (sx(a->imm, w) < 0) return cst(1, 1); op = op == SLT ? ULT : ULE; }
				if (a->imm > maskw(kw)) return cst(0, 1);
				return cmp(op, cst(a->imm, kw), b->k[0]);
			}
			if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return cmp(op == SLT ? ULT : op == SLE ? ULE : op, a->k[0], b->k[0]);
			if (isC(b) && a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], cmp(op, a->k[1], b), cmp(op, a->k[2], b));
			if (isC(a) && b->op == ITE && isC(b->k[1]) && isC(b->k[2])) return ite(b->k[0], cmp(op, a, b->k[1]), cmp(op, a, b->k[2]));
		}
		return intern(op, 1, 0, 0, a, b, 0);
	}
	Ref extract(Ref a, unsigned lo, unsigned w) {
		if (lo == 0 && w == a->w) return a;
		if (isC(a)) return cst(a->imm >> lo, w);
		switch (a->op) {
		case EXTRACT: return extract(a->k[0], a->lo + lo, w);
		case CONCAT: {
			unsigned lw = a->k[1]->w;
			if (lo >= lw) return extract(a->k[0], lo - lw, w);
			if (lo + w <= lw) return extract(a->k[1], lo, w);
			return concat(extract(a->k[0], 0, lo + w - lw), extract(a->k[1], lo, lw - lo));
		}
		case ZEXT: {
			unsigned kw = a->k[0]->w;
			if (lo >= kw) return cst(0, w);
			if (lo + w <= kw) return extract(a->k[0], lo, w);
			return zext(extract(a->k[0], lo, kw - lo), w);
		}
		case SEXT: {
			unsigned kw = a->k[0]->w;
			if (lo + w <= kw) return extract(a->k[0], lo, w);
			if (lo < kw) return sext(extract(a->k[0], lo, kw - lo), w);
			return sext(extract(a->k[0], kw - 1, 1), w);
		}
		case AND: case OR: case XOR: return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
		case ADD: case SUB: case MUL: if (lo == 0) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w)); break;
		case ITE: if (isC(a->k[1]) || isC(a->k[2]) || a->k[1]->op == CONCAT || a->k[2]->op == CONCAT || a->k[1]->op == ZEXT || a->k[2]->op == ZEXT) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w)); break;
		}
		return intern(EXTRACT, w, lo, 0, a, 0, 0);
	}
	Ref concat(Ref hi, Ref lo) {
		if (hi->w == 0) return lo;
		if (lo->w == 0) return hi;
		unsigned w = hi->w + lo->w;
		if (isC(hi) && isC(lo)) return cst(hi->imm << lo->w | lo->imm, w);
		if (isC(hi, 0)) return zext(lo, w);
		if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->lo == lo->lo + lo->w) return extract(lo->k[0], lo->lo, w);
		// concat(extract(x, lo=n..), x) where lo covers x[0..n)
		if (hi->op == EXTRACT && lo->op == CONCAT && lo->k[0]->op == EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->lo == lo->k[0]->lo + lo->k[0]->w)
			return concat(extract(hi->k[0], lo->k[0]->lo, hi->w + lo->k[0]->w), lo->k[1]);
		if (isC(hi) && lo->op == CONCAT && isC(lo->k[0])) return concat(cst(hi->imm << lo->k[0]->w | lo->k[0]->imm, hi->w + lo->k[0]->w), lo->k[1]);
		if (isC(lo) && hi->op == CONCAT && isC(hi->k[1])) return concat(hi->k[0], cst(hi->k[1]->imm << lo->w | lo->imm, hi->k[1]->w + lo->w));
		if (hi->op == ZEXT) { return zext(concat(hi->k[0], lo), w); }
		if (hi->op == ITE && lo->op == ITE && hi->k[0] == lo->k[0]) return ite(hi->k[0], concat(hi->k[1], lo->k[1]), concat(hi->k[2], lo->k[2]));
		return intern(CONCAT, w, 0, 0, hi, lo, 0);
	}
	Ref zext(Ref a, unsigned w) {
		if (a->w == w) return a;
		if (isC(a)) return cst(a->imm, w);
		if (a->op == ZEXT) return zext(a->k[0], w);
		if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], zext(a->k[1], w), zext(a->k[2], w));
		return intern(ZEXT, w, 0, 0, a, 0, 0);
	}
	Ref sext(Ref a, unsigned w) {
		if (a->w == w) return a;
		if (isC(a)) return cst((u128)sx(a->imm, a->w), w);
		if (a->op == SEXT) return sext(a->k[0], w);
		if (a->op == ZEXT) return zext(a->k[0], w);
		if (a->w == 1) return ite(a, cst(maskw(w), w), cst(0, w));
		return intern(SEXT, w, 0, 0, a, 0, 0);
	}
	Ref ite(Ref c, Ref t, Ref e) {
		if (isC(c)) return c->imm ? t : e;
		if (t == e) return t;
		if (c->op == XOR && isC(c->k[1], 1)) return ite(c->k[0], e, t);
		unsigned w = t->w;
		if (w == 1) {
			if (isC(t, 1) && isC(e, 0)) return c;
			if (isC(t, 0) && isC(e, 1)) return notb(c);
			if (isC(e, 0)) return bin(AND, c, t);
			if (isC(t, 1)) return bin(OR, c, e);
			if (isC(t, 0)) return bin(AND, notb(c), e);
			if (isC(e, 1)) return bin(OR, notb(c), t);
		}
		if (t->op == ITE && t->k[0] == c) t = t->k[1];
		if (e->op == ITE && e->k[0] == c) e = e->k[2];
		if (e->op == ITE && e->k[1] == t) return ite(bin(OR, c, e->k[0]), t, e->k[2]);
		if (t->op == CONCAT && e->op == CONCAT && t->k[1]->w == e->k[1]->w && (t->k[0] == e->k[0] || t->k[1] == e->k[1]))
			return concat(ite(c, t->k[0], e->k[0]), ite(c, t->k[1], e->k[1]));
		if (t->op == ZEXT && e->op == ZEXT && t->k[0]->w == e->k[0]->w) return zext(ite(c, t->k[0], e->k[0]), w);
		return intern(ITE, w, 0, 0, c, t, e);
	}
};
extern ExprPool P;
