// Path-constraint solver: independence slicing + query cache + z3 (QF_BV).
#pragma once
#include "expr.h"
#include <memory>
#include <chrono>
#include <unordered_map>

struct Model { // values for symbolic variables (missing = 0)
	uint32_t epoch;
	std::vector<u64> v;
	u64 get(unsigned i) const { return i < v.size() ? v[i] : 0; }
};
typedef std::shared_ptr<Model> ModelP;

struct SolverStats { u64 queries = 0, cacheHits = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, modelHits = 0; double z3time = 0; double maxQuery = 0; };

struct Solver {
	Z3_context ctx;
	Z3_solver slv;
	SolverStats st;
	uint32_t nextEpoch = 1;
	unsigned timeoutMs = 20000;
	struct CacheEnt { std::vector<uint32_t> key; int res; std::vector<std::pair<unsigned, u64>> asg; };
	std::unordered_multimap<u64, CacheEnt> cache;

	// unsigned division by a constant c is encoded as x = q*c + r, r < c, q <= max/c with fresh q, r (much cheaper than a bit-blasted divider)
	struct Div { Z3_ast q, r, def; };
	std::unordered_map<Ref, std::unordered_map<u64, Div>> divs;
	std::unordered_map<Ref, std::vector<Z3_ast>> divsOf;
	static bool isDiv(Ref r) { return (r->op == UREM || r->op == UDIV) && r->w <= 64 && r->k[1]->op == CONST && r->k[1]->imm > 2; }
	Div &divOf(Ref x, u64 c);
	const std::vector<Z3_ast> &defsOf(Ref r);
	void init();
	Z3_ast toZ3(Ref r);
	u128 eval(Ref r, const Model &m);
	ModelP newModel() { auto m = std::make_shared<Model>(); m->epoch = nextEpoch++; return m; }
	// is (constraints ∧ cond) satisfiable?  1 sat (out model), 0 unsat, -1 unknown
	int check(const std::vector<Ref> &cons, Ref cond, const ModelP &cur, ModelP *out);
};
extern Solver S;
