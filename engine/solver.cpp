#include "solver.h"
#include <algorithm>
ExprPool P;
Solver S;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "ENGINE-ERROR: z3: %s\n", Z3_get_error_msg(c, e)); exit(3); }

void Solver::init() {
	Z3_config cfg = Z3_mk_config();
	ctx = Z3_mk_context(cfg);
	Z3_set_error_handler(ctx, errh);
	slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
	Z3_solver_inc_ref(ctx, slv);
	Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
	Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
	Z3_solver_set_params(ctx, slv, p);
}
Z3_ast Solver::toZ3(Ref r) {
	if (r->z3) return r->z3;
	Z3_ast a[3] = {0, 0, 0};
	for (int i = 0; i < 3; i++) if (r->k[i]) a[i] = toZ3(r->k[i]);
	// width-1 expressions are represented as 1-bit vectors
	Z3_ast out = 0;
	auto one = [&] { return Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)); };
	auto zero = [&] { return Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1)); };
	auto b2v = [&](Z3_ast b) { return Z3_mk_ite(ctx, b, one(), zero()); };
	switch (r->op) {
	case CONST:
		if (r->w <= 64) out = Z3_mk_unsigned_int64(ctx, (u64)r->imm, Z3_mk_bv_sort(ctx, r->w));
		else { Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(r->imm >> 64), Z3_mk_bv_sort(ctx, r->w - 64)); Z3_inc_ref(ctx, hi); Z3_ast lo = Z3_mk_unsigned_int64(ctx, (u64)r->imm, Z3_mk_bv_sort(ctx, 64)); out = Z3_mk_concat(ctx, hi, lo); }
		break;
	case VAR: out = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, r->lo), Z3_mk_bv_sort(ctx, r->w)); break;
	case ADD: out = Z3_mk_bvadd(ctx, a[0], a[1]); break;
	case SUB: out = Z3_mk_bvsub(ctx, a[0], a[1]); break;
	case MUL: out = Z3_mk_bvmul(ctx, a[0], a[1]); break;
	case UDIV: out = isDiv(r) ? divOf(r->k[0], (u64)r->k[1]->imm).q : Z3_mk_bvudiv(ctx, a[0], a[1]); break;
	case SDIV: out = Z3_mk_bvsdiv(ctx, a[0], a[1]); break;
	case UREM: out = isDiv(r) ? divOf(r->k[0], (u64)r->k[1]->imm).r : Z3_mk_bvurem(ctx, a[0], a[1]); break;
	case SREM: out = Z3_mk_bvsrem(ctx, a[0], a[1]); break;
	case AND: out = Z3_mk_bvand(ctx, a[0], a[1]); break;
	case OR: out = Z3_mk_bvor(ctx, a[0], a[1]); break;
	case XOR: out = Z3_mk_bvxor(ctx, a[0], a[1]); break;
	case SHL: out = Z3_mk_bvshl(ctx, a[0], a[1]); break;
	case LSHR: out = Z3_mk_bvlshr(ctx, a[0], a[1]); break;
	case ASHR: out = Z3_mk_bvashr(ctx, a[0], a[1]); break;
	case EQ: out = b2v(Z3_mk_eq(ctx, a[0], a[1])); break;
	case ULT: out = b2v(Z3_mk_bvult(ctx, a[0], a[1])); break;
	case ULE: out = b2v(Z3_mk_bvule(ctx, a[0], a[1])); break;
	case SLT: out = b2v(Z3_mk_bvslt(ctx, a[0], a[1])); break;
	case SLE: out = b2v(Z3_mk_bvsle(ctx, a[0], a[1])); break;
	case CONCAT: out = Z3_mk_concat(ctx, a[0], a[1]); break;
	case EXTRACT: out = Z3_mk_extract(ctx, r->lo + r->w - 1, r->lo, a[0]); break;
	case ZEXT: out = Z3_mk_zero_ext(ctx, r->w - r->k[0]->w, a[0]); break;
	case SEXT: out = Z3_mk_sign_ext(ctx, r->w - r->k[0]->w, a[0]); break;
	case ITE: out = Z3_mk_ite(ctx, Z3_mk_eq(ctx, a[0], one()), a[1], a[2]); break;
	}
	Z3_inc_ref(ctx, out);
	return r->z3 = out;
}
Solver::Div &Solver::divOf(Ref x, u64 c) {
	Div &d = divs[x][c];
	if (d.def) return d;
	Z3_ast ax = toZ3(x); Z3_sort so = Z3_mk_bv_sort(ctx, x->w);
	d.q = Z3_mk_fresh_const(ctx, "q", so); Z3_inc_ref(ctx, d.q);
	d.r = Z3_mk_fresh_const(ctx, "r", so); Z3_inc_ref(ctx, d.r);
	Z3_ast ac = Z3_mk_unsigned_int64(ctx, c, so), mx = Z3_mk_unsigned_int64(ctx, (u64)maskw(x->w) / c, so);
	Z3_ast p[3] = {Z3_mk_eq(ctx, ax, Z3_mk_bvadd(ctx, Z3_mk_bvmul(ctx, d.q, ac), d.r)), Z3_mk_bvult(ctx, d.r, ac), Z3_mk_bvule(ctx, d.q, mx)};
	// q*c + r must not wrap: q <= max/c excludes it except at q == max/c, where r <= max%c is needed
	Z3_ast mr = Z3_mk_unsigned_int64(ctx, (u64)maskw(x->w) % c, so);
	Z3_ast o[2] = {Z3_mk_not(ctx, Z3_mk_eq(ctx, d.q, mx)), Z3_mk_bvule(ctx, d.r, mr)};
	Z3_ast a4[4] = {p[0], p[1], p[2], Z3_mk_or(ctx, 2, o)};
	d.def = Z3_mk_and(ctx, 4, a4); Z3_inc_ref(ctx, d.def);
	return d;
}
const std::vector<Z3_ast> &Solver::defsOf(Ref r) {
	auto it = divsOf.find(r); if (it != divsOf.end()) return it->second;
	std::vector<Z3_ast> v;
	for (int i = 0; i < 3; i++) if (r->k[i]) for (Z3_ast a : defsOf(r->k[i])) v.push_back(a);
	if (isDiv(r)) v.push_back(divOf(r->k[0], (u64)r->k[1]->imm).def);
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	return divsOf[r] = std::move(v);
}
u128 Solver::eval(Ref r, const Model &m) {
	if (r->op == CONST) return r->imm;
	if (r->evalEpoch == m.epoch) return r->evalVal;
	u128 v = 0;
	switch (r->op) {
	case VAR: v = m.get(r->lo) & maskw(r->w); break;
	case ITE: v = eval(r->k[0], m) ? eval(r->k[1], m) : eval(r->k[2], m); break;
	case CONCAT: v = eval(r->k[0], m) << r->k[1]->w | eval(r->k[1], m); break;
	case EXTRACT: v = (eval(r->k[0], m) >> r->lo) & maskw(r->w); break;
	case ZEXT: v = eval(r->k[0], m); break;
	case SEXT: v = (u128)sx(eval(r->k[0], m), r->k[0]->w) & maskw(r->w); break;
	case EQ: case ULT: case ULE: case SLT: case SLE: {
		u128 x = eval(r->k[0], m), y = eval(r->k[1], m); unsigned w = r->k[0]->w;
		switch (r->op) { case EQ: v = x == y; break; case ULT: v = x < y; break; case ULE: v = x <= y; break; case SLT: v = sx(x, w) < sx(y, w); break; default: v = sx(x, w) <= sx(y, w); }
		break; }
	default: v = ExprPool::fold(r->op, r->w, eval(r->k[0], m), eval(r->k[1], m));
	}
	r->evalEpoch = m.epoch; r->evalVal = v;
	return v;
}
static void collectVars(const VarSet &vs, std::vector<unsigned> &out) {
	for (int i = 0; i < VWORDS; i++) for (u64 x = vs.w[i]; x; x &= x - 1) out.push_back(i * 64 + __builtin_ctzll(x));
}
int Solver::check(const std::vector<Ref> &cons, Ref cond, const ModelP &cur, ModelP *out) {
	st.queries++;
	if (cond->op == CONST) { if (cond->imm && out) *out = cur; return cond->imm ? 1 : 0; }
	if (cur && eval(cond, *cur)) { st.modelHits++; if (out) *out = cur; return 1; }
	// independence slice
	VarSet vs = cond->vars;
	std::vector<Ref> sl; std::vector<char> used(cons.size(), 0);
	bool changed = true;
	while (changed) {
		changed = false;
		for (size_t i = 0; i < cons.size(); i++) if (!used[i] && cons[i]->vars.intersects(vs)) { used[i] = 1; vs |= cons[i]->vars; sl.push_back(cons[i]); changed = true; }
	}
	std::vector<uint32_t> key;
	for (Ref r : sl) key.push_back(r->id);
	std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
	key.push_back(cond->id);
	u64 h = 1469598103934665603ull; for (uint32_t k : key) { h ^= k; h *= 1099511628211ull; h ^= h >> 31; }
	CacheEnt *ent = nullptr;
	for (auto rg = cache.equal_range(h); rg.first != rg.second; ++rg.first) if (rg.first->second.key == key) { ent = &rg.first->second; break; }
	if (ent) st.cacheHits++;
	else {
		auto t0 = std::chrono::steady_clock::now();
		st.z3calls++;
		Z3_solver_push(ctx, slv);
		Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1));
		for (Ref r : sl) Z3_solver_assert(ctx, slv, Z3_mk_eq(ctx, toZ3(r), one));
		Z3_solver_assert(ctx, slv, Z3_mk_eq(ctx, toZ3(cond), one));
		std::vector<Z3_ast> defs = defsOf(cond);
		for (Ref r : sl) for (Z3_ast a : defsOf(r)) defs.push_back(a);
		std::sort(defs.begin(), defs.end()); defs.erase(std::unique(defs.begin(), defs.end()), defs.end());
		for (Z3_ast a : defs) Z3_solver_assert(ctx, slv, a);
		Z3_lbool r = Z3_solver_check(ctx, slv);
		CacheEnt e; e.key = key; e.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
		if (r == Z3_L_TRUE) {
			Z3_model m = Z3_solver_get_model(ctx, slv); Z3_model_inc_ref(ctx, m);
			std::vector<unsigned> vars; collectVars(vs, vars);
			for (unsigned vi : vars) {
				Z3_ast val = 0; Ref v = P.varByName[P.vars[vi].name];
				Z3_model_eval(ctx, m, toZ3(v), true, &val);
				u64 x = 0; if (!Z3_get_numeral_uint64(ctx, val, &x)) { fprintf(stderr, "ENGINE-ERROR: model value\n"); exit(3); }
				e.asg.push_back({vi, x});
			}
			Z3_model_dec_ref(ctx, m);
		}
		Z3_solver_pop(ctx, slv, 1);
		double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		st.z3time += dt; if (dt > st.maxQuery) st.maxQuery = dt;
		ent = &cache.emplace(h, std::move(e))->second;
	}
	if (ent->res == 1) st.sat++; else if (ent->res == 0) st.unsat++; else st.unknown++;
	if (ent->res == 1 && out) {
		auto m = newModel();
		if (cur) m->v = cur->v;
		for (auto &p : ent->asg) { if (m->v.size() <= p.first) m->v.resize(p.first + 1, 0); m->v[p.first] = p.second; }
		*out = m;
	}
	return ent->res;
}
