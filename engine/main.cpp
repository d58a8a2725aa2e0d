// vfse: a bounded symbolic executor for LLVM IR (C++ programs), see /verif/DESIGN.md.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <unordered_set>
#include <atomic>
#include <cmath>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fstream>
#include <sstream>

using namespace llvm;

struct Val { u64 c; Ref e; };
struct Slot { u64 off; unsigned w; unsigned bytes; };

[[noreturn]] static void engErr(const std::string &m) { fprintf(stderr, "ENGINE-ERROR: %s\n", m.c_str()); fflush(stderr); _exit(3); }

static inline Val cv(u64 c) { return {c, nullptr}; }
static inline Val rv(Ref r) { if (r->op == CONST && r->w <= 64) return {(u64)r->imm, nullptr}; return {0, r}; }
static inline Ref toRef(const Val &v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }

// ---------------------------------------------------------------- memory
enum ObjKind : uint8_t { OK_GLOBAL, OK_STACK, OK_NEW, OK_NEWARR, OK_MALLOC, OK_EXC };
struct MObj {
	u64 base, size; ObjKind kind; bool ro = false, table = false;
	std::vector<uint8_t> b;       // concrete bytes
	std::vector<uint8_t> in;      // initialised?
	std::vector<Ref> s;           // symbolic bytes (empty if none)
	MObj(u64 ba, u64 sz, ObjKind k) : base(ba), size(sz), kind(k), b(sz, 0), in(sz, 0) {}
};
typedef std::shared_ptr<MObj> ObjP;

// ---------------------------------------------------------------- decoded program
struct FnInfo;
struct PhiMove { int dst, src; unsigned n; };
struct DInst {
	unsigned opc = 0; const Instruction *I = nullptr;
	int dst = -1; unsigned n = 0; unsigned w = 0;
	std::vector<int> ops; std::vector<unsigned> opn;
	i64 goff = 0; std::vector<std::pair<int, i64>> gidx; std::vector<unsigned> gw;
	const std::vector<Slot> *sl = nullptr;
	int t0 = -1, t1 = -1; std::vector<std::pair<u64, int>> cases;
	Function *callee = nullptr; FnInfo *cfi = nullptr; int intr = -1;
	unsigned sw = 0; // source width (casts)
	std::vector<int> shuf;
	bool covered = false;
};
struct BBInfo { std::vector<DInst> insts; std::map<int, std::vector<PhiMove>> phis; const BasicBlock *B; int lpad = -1; };
struct FnInfo {
	Function *F; std::vector<BBInfo> bbs; std::vector<Val> cpool; int nregs = 0; std::vector<std::pair<int, unsigned>> args;
	std::string name; bool decoded = false;
};

static Module *M; static const DataLayout *DL;
static std::map<Type *, std::vector<Slot>> slotCache;
static std::map<Function *, FnInfo *> fns;
static std::map<u64, Function *> fnByAddr; static std::map<const Function *, u64> fnAddr;
static std::map<const GlobalVariable *, u64> gvAddr;
static std::map<u64, ObjP> constGlobals; // shared, immutable
static std::map<u64, const GlobalVariable *> gvByAddr;

static void flattenT(Type *T, u64 off, std::vector<Slot> &o) {
	if (T->isVoidTy()) return;
	if (T->isIntegerTy()) { unsigned w = T->getIntegerBitWidth(); o.push_back({off, w, (unsigned)DL->getTypeStoreSize(T).getFixedValue()}); return; }
	if (T->isPointerTy()) { o.push_back({off, 64, 8}); return; }
	if (T->isFloatTy()) { o.push_back({off, 32, 4}); return; }
	if (T->isDoubleTy()) { o.push_back({off, 64, 8}); return; }
	if (T->isX86_FP80Ty()) { o.push_back({off, 80, 10}); return; }
	if (auto *V = dyn_cast<FixedVectorType>(T)) {
		Type *E = V->getElementType(); u64 es = DL->getTypeSizeInBits(E).getFixedValue();
		for (unsigned i = 0; i < V->getNumElements(); i++) {
			if (es % 8) o.push_back({off, (unsigned)es, 0}); else flattenT(E, off + i * es / 8, o);
		}
		return;
	}
	if (auto *S2 = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S2); for (unsigned i = 0; i < S2->getNumElements(); i++) flattenT(S2->getElementType(i), off + L->getElementOffset(i), o); return; }
	if (auto *A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) flattenT(A->getElementType(), off + i * es, o); return; }
	if (T->isMetadataTy() || T->isLabelTy() || T->isTokenTy()) return;
	std::string s; raw_string_ostream os(s); T->print(os); engErr("unsupported type " + s);
}
static const std::vector<Slot> &slots(Type *T) {
	auto it = slotCache.find(T); if (it != slotCache.end()) return it->second;
	std::vector<Slot> o; flattenT(T, 0, o); return slotCache[T] = o;
}

static u64 constInt64(const APInt &a) { return a.getBitWidth() <= 64 ? a.getZExtValue() : a.getLoBits(64).trunc(64).getZExtValue(); }
static void lowerConst(const Constant *C, std::vector<Val> &o);
static u64 constAddr(const Constant *C) { std::vector<Val> v; lowerConst(C, v); return v[0].c; }
static void lowerConst(const Constant *C, std::vector<Val> &o) {
	Type *T = C->getType();
	if (auto *ci = dyn_cast<ConstantInt>(C)) {
		unsigned w = T->getIntegerBitWidth();
		if (w <= 64) o.push_back(cv(ci->getZExtValue()));
		else { if (w > 128) engErr("int wider than 128"); u128 v = (u128)ci->getValue().extractBitsAsZExtValue(w - 64, 64) << 64 | ci->getValue().extractBitsAsZExtValue(64, 0); o.push_back(rv(P.cst(v, w))); }
		return;
	}
	if (auto *cf = dyn_cast<ConstantFP>(C)) {
		APInt a = cf->getValueAPF().bitcastToAPInt();
		if (a.getBitWidth() <= 64) o.push_back(cv(a.getZExtValue()));
		else { u128 v = (u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64 | a.extractBitsAsZExtValue(64, 0); o.push_back(rv(P.cst(v, a.getBitWidth()))); }
		return;
	}
	if (isa<ConstantPointerNull>(C)) { o.push_back(cv(0)); return; }
	if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { for (auto &s : slots(T)) { if (s.w <= 64) o.push_back(cv(0)); else o.push_back(rv(P.cst(0, s.w))); } return; }
	if (auto *gv = dyn_cast<GlobalVariable>(C)) { auto it = gvAddr.find(gv); if (it == gvAddr.end()) engErr("global without address"); o.push_back(cv(it->second)); return; }
	if (auto *f = dyn_cast<Function>(C)) { o.push_back(cv(fnAddr[f])); return; }
	if (auto *ga = dyn_cast<GlobalAlias>(C)) { lowerConst(ga->getAliasee(), o); return; }
	if (auto *cs = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < cs->getNumElements(); i++) lowerConst(cs->getElementAsConstant(i), o); return; }
	if (isa<ConstantAggregate>(C)) { for (unsigned i = 0; i < C->getNumOperands(); i++) lowerConst(cast<Constant>(C->getOperand(i)), o); return; }
	if (auto *ce = dyn_cast<ConstantExpr>(C)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			auto *g = cast<GEPOperator>(ce); APInt off(64, 0);
			if (!g->accumulateConstantOffset(*DL, off)) engErr("const gep");
			o.push_back(cv(constAddr(cast<Constant>(g->getPointerOperand())) + off.getSExtValue())); return; }
		case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
			std::vector<Val> v; lowerConst(ce->getOperand(0), v); unsigned w = slots(T)[0].w; v[0].c &= mask64(w); o.push_back(v[0]); return; }
		case Instruction::Trunc: { std::vector<Val> v; lowerConst(ce->getOperand(0), v); o.push_back(cv(v[0].c & mask64(slots(T)[0].w))); return; }
		case Instruction::Add: case Instruction::Sub: case Instruction::Xor: case Instruction::And: case Instruction::Or: case Instruction::Mul: case Instruction::Shl: case Instruction::LShr: {
			u64 a = constAddr(ce->getOperand(0)), b = constAddr(ce->getOperand(1)), r = 0; unsigned w = slots(T)[0].w;
			switch (ce->getOpcode()) {
			case Instruction::Add: r = a + b; break; case Instruction::Sub: r = a - b; break; case Instruction::Xor: r = a ^ b; break; case Instruction::And: r = a & b; break;
			case Instruction::Or: r = a | b; break; case Instruction::Mul: r = a * b; break; case Instruction::Shl: r = b < w ? a << b : 0; break; default: r = b < w ? (a & mask64(w)) >> b : 0; break;
			}
			o.push_back(cv(r & mask64(w))); return; }
		case Instruction::ICmp: {
			u64 a = constAddr(ce->getOperand(0)), b = constAddr(ce->getOperand(1)); unsigned w = slots(ce->getOperand(0)->getType())[0].w; bool r;
			a &= mask64(w); b &= mask64(w); const unsigned sh = 64 - w; const int64_t sa = int64_t(a << sh) >> sh, sb = int64_t(b << sh) >> sh;
			switch (ce->getPredicate()) {
			case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_ULE: r = a <= b; break;
			case CmpInst::ICMP_UGT: r = a > b; break; case CmpInst::ICMP_UGE: r = a >= b; break; case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break;
			case CmpInst::ICMP_SGT: r = sa > sb; break; default: r = sa >= sb; break;
			}
			o.push_back(cv(r)); return; }
		}
	}
	std::string s; raw_string_ostream os(s); C->print(os); engErr("unsupported constant " + s);
}

static FnInfo *getFn(Function *F);
struct Decoder {
	FnInfo *fi; std::map<const Value *, int> reg; std::map<const BasicBlock *, int> bbi; std::map<const Value *, int> cidx;
	int operand(const Value *V, unsigned *n = nullptr) {
		if (n) *n = slots(V->getType()).size();
		auto it = reg.find(V); if (it != reg.end()) return it->second;
		if (auto *C = dyn_cast<Constant>(V)) {
			auto c = cidx.find(C); if (c != cidx.end()) return c->second;
			int base = fi->cpool.size(); lowerConst(C, fi->cpool);
			return cidx[C] = -base - 2; // -2.. (‑1 reserved)
		}
		if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) return -1;
		std::string s; raw_string_ostream os(s); V->print(os); engErr("operand " + s);
	}
	void run() {
		Function *F = fi->F; int r = 0, b = 0;
		for (auto &A : F->args()) { unsigned n = slots(A.getType()).size(); reg[&A] = r; fi->args.push_back({r, n}); r += n; }
		for (auto &B : *F) { bbi[&B] = b++; for (auto &I : B) { unsigned n = slots(I.getType()).size(); if (n) { reg[&I] = r; r += n; } } }
		fi->nregs = r; fi->bbs.resize(b);
		for (auto &B : *F) {
			BBInfo &bi = fi->bbs[bbi[&B]]; bi.B = &B;
			for (auto &I : B) {
				if (auto *ph = dyn_cast<PHINode>(&I)) {
					for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { unsigned n; int s = operand(ph->getIncomingValue(i), &n); int from = bbi[ph->getIncomingBlock(i)];
						bool dup = false; for (auto &pm : bi.phis[from]) if (pm.dst == reg[ph]) dup = true; if (!dup) bi.phis[from].push_back({reg[ph], s, n}); }
					continue;
				}
				if (isa<DbgInfoIntrinsic>(&I)) continue;
				DInst d; d.opc = I.getOpcode(); d.I = &I; auto rt = reg.find(&I); d.dst = rt == reg.end() ? -1 : rt->second;
				auto &sl = slots(I.getType()); d.n = sl.size(); d.w = sl.empty() ? 0 : sl[0].w;
				switch (d.opc) {
				case Instruction::GetElementPtr: {
					auto *g = cast<GetElementPtrInst>(&I);
					if (g->getType()->isVectorTy()) engErr("vector gep");
					d.ops.push_back(operand(g->getPointerOperand()));
					for (auto gt = gep_type_begin(g), ge = gep_type_end(g); gt != ge; ++gt) {
						const Value *ix = gt.getOperand();
						if (StructType *st = gt.getStructTypeOrNull()) { d.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
						i64 sc = DL->getTypeAllocSize(gt.getIndexedType());
						if (auto *ci = dyn_cast<ConstantInt>(ix)) d.goff += sc * ci->getSExtValue();
						else { d.gidx.push_back({operand(ix), sc}); d.gw.push_back(ix->getType()->getIntegerBitWidth()); }
					}
					break; }
				case Instruction::Br: {
					auto *br = cast<BranchInst>(&I); if (br->isConditional()) { d.ops.push_back(operand(br->getCondition())); d.t0 = bbi[br->getSuccessor(0)]; d.t1 = bbi[br->getSuccessor(1)]; } else d.t0 = bbi[br->getSuccessor(0)]; break; }
				case Instruction::Switch: {
					auto *s = cast<SwitchInst>(&I); d.ops.push_back(operand(s->getCondition())); d.w = s->getCondition()->getType()->getIntegerBitWidth(); d.t0 = bbi[s->getDefaultDest()];
					for (auto &c : s->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]}); break; }
				case Instruction::Load: d.ops.push_back(operand(I.getOperand(0))); d.sl = &slots(I.getType()); break;
				case Instruction::Store: { unsigned n; d.ops.push_back(operand(I.getOperand(0), &n)); d.opn.push_back(n); d.ops.push_back(operand(I.getOperand(1))); d.sl = &slots(I.getOperand(0)->getType()); break; }
				case Instruction::Call: case Instruction::Invoke: {
					auto *cb = cast<CallBase>(&I);
					for (auto &a : cb->args()) { unsigned n; d.ops.push_back(operand(a, &n)); d.opn.push_back(n); }
					Value *cv2 = cb->getCalledOperand()->stripPointerCasts(); if (auto *ga = dyn_cast<GlobalAlias>(cv2)) cv2 = ga->getAliasee()->stripPointerCasts();
					d.callee = dyn_cast<Function>(cv2);
					if (!d.callee) { d.ops.push_back(operand(cb->getCalledOperand())); }
					else if (d.callee->isIntrinsic()) d.intr = d.callee->getIntrinsicID();
					if (auto *iv = dyn_cast<InvokeInst>(&I)) { d.t0 = bbi[iv->getNormalDest()]; d.t1 = bbi[iv->getUnwindDest()]; }
					break; }
				case Instruction::PHI: break;
				case Instruction::ShuffleVector: {
					auto *sv = cast<ShuffleVectorInst>(&I); for (unsigned i = 0; i < 2; i++) { unsigned n; d.ops.push_back(operand(I.getOperand(i), &n)); d.opn.push_back(n); }
					for (int m : sv->getShuffleMask()) d.shuf.push_back(m); break; }
				case Instruction::ExtractValue: case Instruction::InsertValue: {
					bool ins = d.opc == Instruction::InsertValue;
					Type *T = I.getOperand(0)->getType(); unsigned off = 0;
					ArrayRef<unsigned> idx = ins ? cast<InsertValueInst>(&I)->getIndices() : cast<ExtractValueInst>(&I)->getIndices();
					for (unsigned ix : idx) {
						if (auto *st = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < ix; k++) off += slots(st->getElementType(k)).size(); T = st->getElementType(ix); }
						else { auto *at = cast<ArrayType>(T); off += ix * slots(at->getElementType()).size(); T = at->getElementType(); }
					}
					d.goff = off;
					for (unsigned i = 0; i < (ins ? 2u : 1u); i++) { unsigned n; d.ops.push_back(operand(I.getOperand(i), &n)); d.opn.push_back(n); }
					break; }
				case Instruction::LandingPad: bi.lpad = bi.insts.size(); break;
				case Instruction::Alloca: d.ops.push_back(operand(I.getOperand(0))); break;
				default:
					for (auto &o : I.operands()) { if (isa<BasicBlock>(o)) continue; unsigned n; d.ops.push_back(operand(o, &n)); d.opn.push_back(n); }
					if (I.getNumOperands() && !isa<BasicBlock>(I.getOperand(0))) { auto &os2 = slots(I.getOperand(0)->getType()); d.sw = os2.empty() ? 0 : os2[0].w; }
				}
				bi.insts.push_back(std::move(d));
			}
		}
		fi->decoded = true;
	}
};
static FnInfo *getFn(Function *F) {
	FnInfo *&f = fns[F];
	if (!f) { f = new FnInfo; f->F = F; f->name = F->getName().str(); }
	if (!f->decoded) { Decoder d; d.fi = f; d.run(); }
	return f;
}

// ---------------------------------------------------------------- state
struct Frame { FnInfo *fn; int bb = 0, ip = 0; std::vector<Val> regs; std::vector<u64> allocas; };
struct ExcInfo { u64 tinfo, dtor; int handlers; };
// bits of symbolic variables that the path condition fixes
struct KnownBits { uint32_t epoch = 0; VarSet vars = VarSet::none(); std::vector<std::array<u64, 2>> b; /* mask, value by variable index */ };
typedef std::shared_ptr<const KnownBits> KnownBitsP;
struct State {
	KnownBitsP kb;
	std::vector<Frame> fr;
	std::map<u64, ObjP> mem;
	std::vector<Ref> cons;
	ModelP model;
	std::vector<std::pair<uint32_t, u64>> known; // node id -> value implied by the path condition (sorted)
	std::map<std::string, int> symCount;
	std::vector<std::pair<std::string, Ref>> inputs;
	std::vector<std::pair<std::string, Val>> notes;
	std::map<u64, ExcInfo> excs; std::vector<u64> caught;
	u64 curExc = 0; u64 curSel = 0;
	u64 heapNext = 0x100000000ull, stackNext = 0x7f0000000000ull;
	u64 steps = 0; int undefs = 0; u64 forks = 0; int uncaught = 0;
	ObjP last;
};
typedef std::unique_ptr<State> StateP;

struct Stats { u64 paths = 0, instrs = 0, forks = 0, terminatedAssume = 0, undefReads = 0, maxCons = 0, truncated = 0, sampled = 0; } stats;
static std::map<std::string, u64> covers, asserts;
struct Violation { std::string kind, tag, where; std::vector<std::pair<std::string, u64>> inputs; std::vector<std::pair<std::string, u64>> notes; };
static std::map<std::string, Violation> violations;
static std::vector<std::vector<std::pair<std::string, u64>>> samples;
static u64 maxSteps = 5000000; static unsigned maxViol = 3; static double timeLimit = 600; static u64 enumLimit = 4096;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static std::set<std::string> externsUsed; static std::set<std::string> fnsExecuted;

struct PathEnd {};                 // current path finished (violation / assume / end)
struct Redo {};                    // re-execute current instruction (after known[] updated / fork)
static std::vector<StateP> work;   // DFS stack
static State *cur;

static std::string where(State &s) {
	std::string o; int k = 0;
	for (int i = (int)s.fr.size() - 1; i >= 0 && k < 12; i--) {
		Frame &f = s.fr[i]; if (f.ip >= (int)f.fn->bbs[f.bb].insts.size()) continue;
		auto &d = f.fn->bbs[f.bb].insts[f.ip];
		const DILocation *L = d.I->getDebugLoc().get();
		for (; L && k < 12; L = L->getInlinedAt()) { if (k++) o += " < "; auto fn = L->getFilename(); auto p = fn.rfind('/'); o += (p == StringRef::npos ? fn : fn.substr(p + 1)).str() + ":" + std::to_string(L->getLine()); }
	}
	return o;
}
static void violation(const std::string &kind, const std::string &tag, ModelP m) {
	std::string key = kind + "|" + tag + "|" ;
	std::string w = where(*cur);
	if (tag.empty()) key += w.substr(0, w.find(" < "));
	if (!violations.count(key)) {
		Violation v; v.kind = kind; v.tag = tag; v.where = w;
		for (auto &in : cur->inputs) v.inputs.push_back({in.first, (u64)S.eval(in.second, *m)});
		for (auto &n : cur->notes) v.notes.push_back({n.first, n.second.e ? (u64)S.eval(n.second.e, *m) : n.second.c});
		violations[key] = v;
	}
	throw PathEnd();
}
static void addCons(State &s, Ref c) {
	if (c->op == CONST) return;
	if (c->op == AND) { addCons(s, c->k[0]); addCons(s, c->k[1]); return; }
	s.cons.push_back(c);
}
static uint32_t kbEpoch = 0;
// rewrite e with the bits that the path condition fixes
static Ref simpRec(Ref e, const KnownBits &k) {
	if (e->op == CONST || !e->vars.intersects(k.vars)) return e;
	if (e->simpEpoch == k.epoch) return e->simp;
	Ref r = e;
	Ref v = e->op == VAR ? e : e->op == EXTRACT && e->k[0]->op == VAR ? e->k[0] : nullptr;
	if (v) {
		unsigned lo = e->op == VAR ? 0 : e->lo, hi = lo + e->w; u64 m = k.b[v->lo][0], x = k.b[v->lo][1];
		if (m & (mask64(e->w) << lo)) {
			r = nullptr;
			for (unsigned i = lo; i < hi;) {
				unsigned j = i; bool kn = m >> i & 1; while (j < hi && (m >> j & 1) == kn) ++j;
				Ref pc = kn ? P.cst(x >> i & mask64(j - i), j - i) : P.extract(v, i, j - i);
				r = r ? P.concat(pc, r) : pc; i = j;
			}
		}
	} else {
		Ref a[3]; bool ch = false;
		if (e->op == ITE) { // only the side that can be taken matters
			a[0] = simpRec(e->k[0], k);
			if (a[0]->op == CONST) { r = simpRec(e->k[a[0]->imm ? 1 : 2], k); e->simpEpoch = k.epoch; return e->simp = r; }
		}
		for (int i = 0; i < 3; i++) { a[i] = e->k[i] ? simpRec(e->k[i], k) : nullptr; if (a[i] != e->k[i]) ch = true; }
		if (ch) switch (e->op) {
		case EQ: case ULT: case ULE: case SLT: case SLE: r = P.cmp(e->op, a[0], a[1]); break;
		case CONCAT: r = P.concat(a[0], a[1]); break;
		case EXTRACT: r = P.extract(a[0], e->lo, e->w); break;
		case ZEXT: r = P.zext(a[0], e->w); break;
		case SEXT: r = P.sext(a[0], e->w); break;
		case ITE: r = P.ite(a[0], a[1], a[2]); break;
		default: r = P.bin(e->op, a[0], a[1]);
		}
	}
	e->simpEpoch = k.epoch; return e->simp = r;
}
static inline Ref simp(Ref e) { return cur->kb ? simpRec(e, *cur->kb) : e; }
static inline Val simpV(const Val &v) { return v.e && cur->kb ? rv(simp(v.e)) : v; }
static void addBits(State &s, Ref e, u64 v) {
	switch (e->op) {
	case EXTRACT: if (e->k[0]->op != VAR) return; break;
	case VAR: break;
	case CONCAT: if (e->w > 64) return; addBits(s, e->k[1], v & mask64(e->k[1]->w)); addBits(s, e->k[0], v >> e->k[1]->w); return;
	case ZEXT: case SEXT: addBits(s, e->k[0], v & mask64(e->k[0]->w)); return;
	case XOR: if (e->k[1]->op == CONST) addBits(s, e->k[0], v ^ (u64)e->k[1]->imm); return;
	case ADD: if (e->k[1]->op == CONST) addBits(s, e->k[0], (v - (u64)e->k[1]->imm) & mask64(e->w)); return;
	case AND: if (e->w == 1 && v) { addBits(s, e->k[0], 1); addBits(s, e->k[1], 1); } return;
	case OR: if (e->w == 1 && !v) { addBits(s, e->k[0], 0); addBits(s, e->k[1], 0); } return;
	case EQ: if (v && e->k[1]->op == CONST && e->k[0]->w <= 64) addBits(s, e->k[0], (u64)e->k[1]->imm); return;
	default: return;
	}
	unsigned i = e->op == VAR ? e->lo : e->k[0]->lo, lo = e->op == VAR ? 0 : e->lo; u64 m = mask64(e->w) << lo;
	if (s.kb && i < s.kb->b.size() && (s.kb->b[i][0] & m) == m) return;
	auto n = s.kb ? std::make_shared<KnownBits>(*s.kb) : std::make_shared<KnownBits>();
	if (n->b.size() < VWORDS * 64) n->b.resize(std::max<size_t>(P.vars.size(), 1), {0, 0});
	if (n->b.size() <= i) n->b.resize(i + 1, {0, 0});
	n->b[i][0] |= m; n->b[i][1] = (n->b[i][1] & ~m) | (v << lo & m); n->vars.set(i); n->epoch = ++kbEpoch;
	s.kb = n;
}
static int sat(Ref c, ModelP *out) {
	int r;
	if (cur->kb) {
		Ref sc = simp(c); if (sc->op == CONST && !sc->imm) { S.st.queries++; return 0; }
		std::vector<Ref> sl; for (Ref k : cur->cons) { Ref x = simp(k); if (x->op != CONST) sl.push_back(x); else if (!x->imm) engErr("inconsistent path condition"); }
		r = S.check(sl, sc, cur->model, out);
		if (r == 1 && out && *out && *out != cur->model) { auto &mv = (*out)->v; if (mv.size() < cur->kb->b.size()) mv.resize(cur->kb->b.size(), 0); for (size_t i = 0; i < cur->kb->b.size(); i++) mv[i] = (mv[i] & ~cur->kb->b[i][0]) | cur->kb->b[i][1]; }
	} else r = S.check(cur->cons, c, cur->model, out);
	if (r < 0) { stats.truncated++; fprintf(stderr, "warning: solver timeout, path truncated\n"); throw PathEnd(); }
	return r;
}
static StateP clone(State &s) { stats.forks++; s.last.reset(); auto n = std::make_unique<State>(s); n->forks++; return n; }

// returns true/false after forking if needed (other side pushed onto work with `known` set so that it re-executes the same instruction)
static bool knownAt(State &s, Ref e, u64 &v) {
	auto it = std::lower_bound(s.known.begin(), s.known.end(), std::make_pair((uint32_t)e->id, (u64)0));
	if (it != s.known.end() && it->first == e->id) { v = it->second; return true; } return false;
}
static void addKnown(State &s, Ref e, u64 v) {
	if (e->op == CONST || e->w > 64) return;
	auto it = std::lower_bound(s.known.begin(), s.known.end(), std::make_pair((uint32_t)e->id, (u64)0));
	if (it != s.known.end() && it->first == e->id) return;
	s.known.insert(it, {e->id, v});
	addBits(s, e, v);
	if (e->w == 1 && e->op == XOR && e->k[1]->op == CONST) addKnown(s, e->k[0], v ^ 1);
	if (e->w == 1 && e->op == AND && v) { addKnown(s, e->k[0], 1); addKnown(s, e->k[1], 1); }
	if (e->w == 1 && e->op == OR && !v) { addKnown(s, e->k[0], 0); addKnown(s, e->k[1], 0); }
	if (e->op == EQ && v && e->k[1]->op == CONST) addKnown(s, e->k[0], (u64)e->k[1]->imm);
	if (e->op == ZEXT || (e->op == CONCAT && e->k[1]->op == CONST)) addKnown(s, e->k[0], e->op == ZEXT ? v : v >> e->k[1]->w);
	if (e->op == ADD && e->k[1]->op == CONST) addKnown(s, e->k[0], (v - (u64)e->k[1]->imm) & mask64(e->w));
}
// evaluate under the values implied by the path condition, when these determine e
static bool knownEval(Ref e, u128 &v, int &budget) {
	if (e->op == CONST) { v = e->imm; return true; }
	u64 k; if (e->w <= 64 && knownAt(*cur, e, k)) { v = k; return true; }
	if (e->op == VAR || --budget < 0) return false;
	u128 a, b;
	if (e->op == ITE) { if (!knownEval(e->k[0], a, budget)) return false; return knownEval(a ? e->k[1] : e->k[2], v, budget); }
	if (!knownEval(e->k[0], a, budget)) {
		if (e->op == AND && e->w == 1 && knownEval(e->k[1], b, budget) && !b) { v = 0; return true; }
		if (e->op == OR && e->w == 1 && knownEval(e->k[1], b, budget) && b) { v = 1; return true; }
		return false;
	}
	if (e->op == AND && !a) { v = 0; return true; }
	if (e->op == OR && e->w == 1 && a) { v = 1; return true; }
	if (e->k[1] && !knownEval(e->k[1], b, budget)) return false;
	switch (e->op) {
	case CONCAT: v = a << e->k[1]->w | b; return true;
	case EXTRACT: v = (a >> e->lo) & maskw(e->w); return true;
	case ZEXT: v = a; return true;
	case SEXT: v = (u128)sx(a, e->k[0]->w) & maskw(e->w); return true;
	case EQ: v = a == b; return true; case ULT: v = a < b; return true; case ULE: v = a <= b; return true;
	case SLT: v = sx(a, e->k[0]->w) < sx(b, e->k[0]->w); return true; case SLE: v = sx(a, e->k[0]->w) <= sx(b, e->k[0]->w); return true;
	default: v = ExprPool::fold(e->op, e->w, a, b); return true;
	}
}
static bool lookupKnown(Ref e, u64 &v) { if (e->op == CONST) { v = (u64)e->imm; return true; } u128 x; int budget = 200; if (knownEval(e, x, budget)) { v = (u64)x; return true; } return false; }
static bool decide(const Val &c0) {
	Val c = simpV(c0);
	if (!c.e) return c.c & 1;
	u64 kv; if (lookupKnown(c.e, kv)) return kv;
	bool mv = S.eval(c.e, *cur->model);
	Ref other = mv ? P.notb(c.e) : c.e;
	ModelP m2; int r = sat(other, &m2);
	if (r) {
		StateP n = clone(*cur); addCons(*n, other); n->model = m2; addKnown(*n, c.e, !mv); work.push_back(std::move(n));
		addCons(*cur, mv ? c.e : P.notb(c.e));
	}
	addKnown(*cur, c.e, mv);
	return mv;
}
// concretise by forking over every feasible value
static u64 concretise(const Val &v0, unsigned w) {
	Val v = simpV(v0);
	if (!v.e) return v.c;
	u64 kv; if (lookupKnown(v.e, kv)) return kv;
	Ref e = v.e; // peel injective wrappers: fork on the symbolic core of an address computation
	for (;;) {
		if (e->op == ADD && e->k[1]->op == CONST) e = e->k[0];
		else if (e->op == ZEXT || e->op == SEXT) e = e->k[0];
		else if (e->op == CONCAT && e->k[1]->op == CONST) e = e->k[0];
		else if (e->op == MUL && e->k[1]->op == CONST && e->k[1]->imm && e->k[0]->op == ZEXT && e->k[0]->k[0]->w + 16 <= e->w && (u64)e->k[1]->imm < 65536) e = e->k[0];
		else break;
	}
	unsigned ew = e->w; if (ew > 64) { e = v.e; ew = w; }
	u64 first = (u64)S.eval(e, *cur->model), fullFirst = (u64)S.eval(v.e, *cur->model);
	std::vector<std::pair<u64, ModelP>> vals; vals.push_back({first, cur->model});
	Ref excl = P.notb(P.cmp(EQ, e, P.cst(first, ew)));
	for (;;) {
		ModelP m; if (!sat(excl, &m)) break;
		u64 x = (u64)S.eval(e, *m); vals.push_back({x, m});
		excl = P.bin(AND, excl, P.notb(P.cmp(EQ, e, P.cst(x, ew))));
		if (vals.size() > enumLimit) { violation("engine", "too many feasible values to enumerate", cur->model); }
	}
	for (size_t i = 1; i < vals.size(); i++) {
		StateP n = clone(*cur); addCons(*n, P.cmp(EQ, e, P.cst(vals[i].first, ew))); n->model = vals[i].second; addKnown(*n, e, vals[i].first); work.push_back(std::move(n));
	}
	if (vals.size() > 1) addCons(*cur, P.cmp(EQ, e, P.cst(first, ew)));
	addKnown(*cur, e, first); addKnown(*cur, v.e, fullFirst);
	return fullFirst;
}

// ---------------------------------------------------------------- memory access
static const ObjP *findObj(u64 a, u64 n) {
	State &s = *cur;
	if (s.last && a >= s.last->base && a + n <= s.last->base + s.last->size) { auto it = s.mem.find(s.last->base); if (it != s.mem.end()) return &it->second; }
	auto it = s.mem.upper_bound(a);
	if (it != s.mem.begin()) { --it; MObj &o = *it->second; if (a >= o.base && a + n <= o.base + o.size) { s.last = it->second; return &it->second; } }
	auto ct = constGlobals.upper_bound(a);
	if (ct != constGlobals.begin()) { --ct; MObj &o = *ct->second; if (a >= o.base && a + n <= o.base + o.size) return &ct->second; }
	return nullptr;
}
static MObj *writable(u64 a, u64 n) {
	const ObjP *p = findObj(a, n); if (!p) return nullptr;
	if ((*p)->ro) violation("memory", "write to constant", cur->model);
	u64 base = (*p)->base; cur->last.reset();
	auto &ref = cur->mem[base];
	if (ref.use_count() > 1) ref = std::make_shared<MObj>(*ref);
	cur->last = ref; // note: bumps use_count; handled by reset above
	MObj *o = ref.get(); cur->last.reset();
	return o;
}
static void badAccess(u64 a, const char *what) {
	char buf[128]; const char *cls = a < 4096 ? "null dereference" : "access outside any live object";
	(void)buf; violation("memory", std::string(what) + ": " + cls, cur->model);
}
static Val loadBytes(const MObj &o, u64 off, unsigned w, unsigned bytes) {
	bool sym = false;
	for (unsigned i = 0; i < bytes; i++) if (!o.in[off + i] || (!o.s.empty() && o.s[off + i])) { sym = true; break; }
	if (!sym) {
		if (w <= 64) { u64 v = 0; for (unsigned i = 0; i < bytes; i++) v |= (u64)o.b[off + i] << (8 * i); return cv(v & mask64(w)); }
		u128 v = 0; for (unsigned i = 0; i < bytes; i++) v |= (u128)o.b[off + i] << (8 * i); return rv(P.cst(v, w));
	}
	Ref r = nullptr;
	for (unsigned i = 0; i < bytes; i++) {
		Ref b;
		if (!o.in[off + i]) { // uninitialised: an arbitrary value, fixed once read
			MObj *wo = o.ro ? nullptr : writable(o.base + off + i, 1);
			b = P.var("undef#" + std::to_string(cur->undefs++), 8, true); stats.undefReads++;
			if (wo) { if (wo->s.empty()) wo->s.resize(wo->size, nullptr); wo->s[off + i] = b; wo->in[off + i] = 1; }
			if (wo && wo != &o) { // continue on the private copy
				Ref r2 = r ? P.concat(b, r) : b;
				for (unsigned j = i + 1; j < bytes; j++) { Val t = loadBytes(*cur->mem[wo->base], off + j, 8, 1); r2 = P.concat(toRef(t, 8), r2); }
				if (r2->w > w) r2 = P.extract(r2, 0, w);
				return rv(r2);
			}
		} else b = (!o.s.empty() && o.s[off + i]) ? o.s[off + i] : P.cst(o.b[off + i], 8);
		r = r ? P.concat(b, r) : b;
	}
	if (r->w > w) r = P.extract(r, 0, w);
	return rv(r);
}
static void storeBytes(MObj &o, u64 off, unsigned w, unsigned bytes, const Val &v) {
	if (!v.e) { for (unsigned i = 0; i < bytes; i++) { o.b[off + i] = (uint8_t)(i < 8 ? v.c >> (8 * i) : 0); o.in[off + i] = 1; if (!o.s.empty()) o.s[off + i] = nullptr; } return; }
	Ref r = v.e; if (r->w < bytes * 8) r = P.zext(r, bytes * 8);
	for (unsigned i = 0; i < bytes; i++) {
		Ref b = P.extract(r, 8 * i, 8); o.in[off + i] = 1;
		if (b->op == CONST) { o.b[off + i] = (uint8_t)b->imm; if (!o.s.empty()) o.s[off + i] = nullptr; }
		else { if (o.s.empty()) o.s.resize(o.size, nullptr); o.s[off + i] = b; }
	}
	(void)w;
}
// resolve an address to a concrete one (forking), or to (table object, symbolic)
static bool tableAccess(const Val &a, u64 n, ObjP &obj) {
	if (!a.e) return false;
	u64 kv; if (lookupKnown(a.e, kv)) return false;
	u64 c = (u64)S.eval(a.e, *cur->model);
	const ObjP *p = findObj(c, n); if (!p || !(*p)->table) return false;
	Ref lo = P.cst((*p)->base, 64), hi = P.cst((*p)->base + (*p)->size - n, 64);
	Ref inb = P.bin(AND, P.cmp(ULE, lo, a.e), P.cmp(ULE, a.e, hi));
	ModelP m; ObjP keep = *p;
	if (sat(P.notb(inb), &m)) return false; // may leave the table: enumerate instead
	obj = keep; return true;
}
static u64 gcdStride(Ref a, u64 base, u64 n) { // largest power-of-two stride (<= n) the address is provably aligned to relative to base
	u64 st = 1; Ref d = P.bin(SUB, a, P.cst(base, 64));
	while (st < n) { Ref low = P.extract(d, 0, __builtin_ctzll(st) + 1); if (low->op == CONST && low->imm == 0) st *= 2; else break; }
	return st;
}
static Val memLoad(const Val &a, u64 off, unsigned w, unsigned bytes) {
	ObjP t;
	Val addr = a.e ? rv(P.bin(ADD, a.e, P.cst(off, 64))) : cv(a.c + off);
	if (addr.e && tableAccess(addr, bytes, t)) {
		u64 st = gcdStride(addr.e, t->base, bytes); Ref r = nullptr;
		for (u64 o = 0; o + bytes <= t->size; o += st) {
			Ref v = toRef(loadBytes(*t, o, w, bytes), w); Ref c = P.cmp(EQ, addr.e, P.cst(t->base + o, 64));
			r = r ? P.ite(c, v, r) : v;
		}
		return rv(r);
	}
	u64 c = addr.e ? concretise(addr, 64) : addr.c;
	const ObjP *p = findObj(c, bytes); if (!p) badAccess(c, "load");
	ObjP keep = *p; return loadBytes(*keep, c - keep->base, w, bytes);
}
static void memStore(const Val &a, u64 off, unsigned w, unsigned bytes, const Val &v0) {
	Val v = simpV(v0);
	ObjP t;
	Val addr = a.e ? rv(P.bin(ADD, a.e, P.cst(off, 64))) : cv(a.c + off);
	if (addr.e && tableAccess(addr, bytes, t)) {
		u64 st = gcdStride(addr.e, t->base, bytes); u64 base = t->base; t.reset();
		MObj *o = writable(base, 1); std::vector<std::pair<u64, Val>> nv;
		for (u64 k = 0; k + bytes <= o->size; k += st) {
			if (st < bytes) engErr("unaligned symbolic table store");
			Ref old = toRef(loadBytes(*o, k, w, bytes), w); Ref c = P.cmp(EQ, addr.e, P.cst(base + k, 64));
			nv.push_back({k, rv(P.ite(c, toRef(v, w), old))});
		}
		o = writable(base, 1);
		for (auto &p : nv) storeBytes(*o, p.first, w, bytes, p.second);
		return;
	}
	u64 c = addr.e ? concretise(addr, 64) : addr.c;
	MObj *o = writable(c, bytes); if (!o) badAccess(c, "store");
	storeBytes(*o, c - o->base, w, bytes, v);
}
static void memCopy(u64 d, u64 s, u64 n) {
	if (!n) return;
	const ObjP *sp = findObj(s, n); if (!sp) badAccess(s, "memcpy source");
	ObjP so = *sp; MObj *o = writable(d, n); if (!o) badAccess(d, "memcpy destination");
	if (so->base == o->base) so = cur->mem[o->base];
	u64 so_ = s - so->base, do_ = d - o->base;
	std::vector<uint8_t> b(so->b.begin() + so_, so->b.begin() + so_ + n), in(so->in.begin() + so_, so->in.begin() + so_ + n);
	std::vector<Ref> sy; if (!so->s.empty()) sy.assign(so->s.begin() + so_, so->s.begin() + so_ + n);
	memcpy(&o->b[do_], b.data(), n); memcpy(&o->in[do_], in.data(), n);
	if (!sy.empty()) { bool any = false; for (Ref r : sy) if (r) any = true; if (any || !o->s.empty()) { if (o->s.empty()) o->s.resize(o->size, nullptr); for (u64 i = 0; i < n; i++) o->s[do_ + i] = sy[i]; } }
	else if (!o->s.empty()) for (u64 i = 0; i < n; i++) o->s[do_ + i] = nullptr;
}
static u64 allocObj(u64 size, ObjKind k, u64 align = 16) {
	State &s = *cur; u64 &nx = k == OK_STACK ? s.stackNext : s.heapNext;
	if (align < 16) align = 16;
	if (size > (1ull << 28)) violation("memory", "allocation request larger than 256 MiB", s.model);
	u64 base = (nx + align - 1) / align * align;
	nx = base + size + 64; nx = (nx + 15) & ~15ull;
	s.mem[base] = std::make_shared<MObj>(base, size, k);
	return base;
}
static u64 liveHeap() { u64 n = 0; for (auto &p : cur->mem) if (p.second->kind == OK_NEW || p.second->kind == OK_NEWARR || p.second->kind == OK_MALLOC) n++; return n; }
static void freeObj(u64 a, ObjKind k, i64 size, u64) {
	if (!a) return;
	auto it = cur->mem.find(a);
	if (it == cur->mem.end() || it->second->kind == OK_STACK || it->second->kind == OK_GLOBAL) violation("memory", "free of a pointer that is not a live heap block (double or invalid free)", cur->model);
	if (it->second->kind != k) violation("memory", "mismatched allocation/deallocation functions", cur->model);
	if (size >= 0 && (u64)size != it->second->size) violation("memory", "sized delete with a size different from the allocated size", cur->model);
	cur->last.reset(); cur->mem.erase(it);
}
static std::string cstr(u64 a) {
	std::string o; for (;;) { const ObjP *p = findObj(a, 1); if (!p) return o; u64 off = a - (*p)->base; if (!(*p)->s.empty() && (*p)->s[off]) return o + "?"; char c = (*p)->b[off]; if (!c) return o; o += c; a++; if (o.size() > 400) return o; }
}

// ---------------------------------------------------------------- exceptions
static std::map<u64, int> typeIds;
static int typeId(u64 t) { auto it = typeIds.find(t); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; return typeIds[t] = n; }
static bool typeMatches(u64 thrown, u64 clause) {
	if (!clause || thrown == clause) return true;
	auto it = gvByAddr.find(thrown), ic = gvByAddr.find(clause);
	if (it == gvByAddr.end() || ic == gvByAddr.end()) return false;
	const GlobalVariable *g = it->second;
	if (g->hasInitializer()) if (auto *cs = dyn_cast<ConstantStruct>(g->getInitializer())) { for (unsigned i = 2; i < cs->getNumOperands(); i++) if (cs->getOperand(i)->getType()->isPointerTy() && !isa<ConstantPointerNull>(cs->getOperand(i))) { if (typeMatches(constAddr(cs->getOperand(i)), clause)) return true; } }
	std::string tn = g->getName().str(), cn = ic->second->getName().str();
	auto isExc = [](const std::string &n) { return n.rfind("_ZTISt", 0) == 0; };
	if (cn == "_ZTISt9exception" && isExc(tn)) return true;
	if (cn == "_ZTISt11logic_error" && (tn == "_ZTISt12out_of_range" || tn == "_ZTISt12length_error" || tn == "_ZTISt16invalid_argument")) return true;
	return false;
}
static void popFrame() { Frame &f = cur->fr.back(); cur->last.reset(); for (u64 a : f.allocas) cur->mem.erase(a); cur->fr.pop_back(); }
static void jump(Frame &f, int to) {
	int from = f.bb; f.bb = to; f.ip = 0;
	BBInfo &b = f.fn->bbs[to]; auto it = b.phis.find(from);
	if (it == b.phis.end()) return;
	Val tmp[64]; std::vector<Val> big; size_t tot = 0; for (auto &m : it->second) tot += m.n;
	Val *t = tmp; if (tot > 64) { big.resize(tot); t = big.data(); }
	size_t k = 0;
	for (auto &m : it->second) for (unsigned i = 0; i < m.n; i++) t[k++] = m.src >= 0 ? f.regs[m.src + i] : f.fn->cpool[-m.src - 2 + i];
	k = 0; for (auto &m : it->second) for (unsigned i = 0; i < m.n; i++) f.regs[m.dst + i] = t[k++];
}
static void doUnwind(u64 exc) {
	State &s = *cur;
	auto ei = s.excs.find(exc); u64 ti = ei == s.excs.end() ? 0 : ei->second.tinfo;
	while (!s.fr.empty()) {
		Frame &f = s.fr.back(); DInst &d = f.fn->bbs[f.bb].insts[f.ip];
		if (d.opc == Instruction::Invoke) {
			BBInfo &lb = f.fn->bbs[d.t1];
			int li = lb.lpad; if (li < 0) engErr("no landingpad");
			auto *lp = cast<LandingPadInst>(lb.insts[li].I);
			bool hit = false; u64 sel = 0;
			for (unsigned i = 0; i < lp->getNumClauses() && !hit; i++) {
				if (lp->isCatch(i)) { u64 c = constAddr(lp->getClause(i)); if (typeMatches(ti, c)) { hit = true; sel = typeId(c); } }
				else { // filter
					auto *arr = dyn_cast<ConstantArray>(lp->getClause(i)); bool allowed = false;
					if (arr) for (auto &o : arr->operands()) if (typeMatches(ti, constAddr(cast<Constant>(o)))) allowed = true;
					if (!allowed) { hit = true; sel = (u64)(u64)0xffffffffull; }
				}
			}
			if (!hit && lp->isCleanup()) { hit = true; sel = 0; }
			if (hit) { s.curExc = exc; s.curSel = sel; jump(f, d.t1); return; }
		}
		if (s.fr.size() == 1) { violation("exception", "exception escapes the harness (std::terminate)", s.model); }
		popFrame();
	}
}
static u64 typeinfoAddr(const char *name) { if (auto *g = M->getGlobalVariable(name, true)) { auto it = gvAddr.find(g); if (it != gvAddr.end()) return it->second; } return 1; }
static void throwStd(const char *ti) {
	u64 p = allocObj(16, OK_EXC); MObj *o = writable(p, 16); std::fill(o->in.begin(), o->in.end(), 1);
	cur->excs[p] = {typeinfoAddr(ti), 0, 0}; cur->uncaught++; doUnwind(p); throw Redo();
}

// ---------------------------------------------------------------- interpreter
static inline Val &opv(Frame &f, int o) { return o >= 0 ? f.regs[o] : f.fn->cpool[-o - 2]; }

static Val binop(unsigned opc, const Val &a, const Val &b, unsigned w) {
	if (!a.e && !b.e && w <= 64) {
		u64 m = mask64(w), x = a.c, y = b.c;
		switch (opc) {
		case Instruction::Add: return cv((x + y) & m);
		case Instruction::Sub: return cv((x - y) & m);
		case Instruction::Mul: return cv((x * y) & m);
		case Instruction::And: return cv(x & y);
		case Instruction::Or: return cv(x | y);
		case Instruction::Xor: return cv(x ^ y);
		case Instruction::Shl: return cv(y >= w ? 0 : (x << y) & m);
		case Instruction::LShr: return cv(y >= w ? 0 : x >> y);
		case Instruction::AShr: return cv((u64)(sx64(x, w) >> (y >= w ? w - 1 : y)) & m);
		}
	}
	static const std::map<unsigned, Op> mp = {{Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::UDiv, UDIV}, {Instruction::SDiv, SDIV}, {Instruction::URem, UREM}, {Instruction::SRem, SREM}, {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR}, {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}};
	Op o = mp.at(opc);
	if (o == UDIV || o == SDIV || o == UREM || o == SREM) {
		Val z = b.e ? rv(P.cmp(EQ, b.e, P.cst(0, w))) : cv(b.c == 0);
		if (decide(z)) violation("arith", "division by zero", cur->model);
	}
	return rv(P.bin(o, toRef(a, w), toRef(b, w)));
}
static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b, unsigned w) {
	if (!a.e && !b.e) {
		u64 x = a.c, y = b.c; i64 sx_ = sx64(x, w), sy = sx64(y, w);
		switch (p) {
		case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y);
		case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y); case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y);
		case CmpInst::ICMP_SLT: return cv(sx_ < sy); case CmpInst::ICMP_SLE: return cv(sx_ <= sy); case CmpInst::ICMP_SGT: return cv(sx_ > sy); case CmpInst::ICMP_SGE: return cv(sx_ >= sy);
		default: engErr("icmp pred");
		}
	}
	Ref x = toRef(a, w), y = toRef(b, w);
	switch (p) {
	case CmpInst::ICMP_EQ: return rv(P.cmp(EQ, x, y)); case CmpInst::ICMP_NE: return rv(P.notb(P.cmp(EQ, x, y)));
	case CmpInst::ICMP_ULT: return rv(P.cmp(ULT, x, y)); case CmpInst::ICMP_ULE: return rv(P.cmp(ULE, x, y)); case CmpInst::ICMP_UGT: return rv(P.cmp(ULT, y, x)); case CmpInst::ICMP_UGE: return rv(P.cmp(ULE, y, x));
	case CmpInst::ICMP_SLT: return rv(P.cmp(SLT, x, y)); case CmpInst::ICMP_SLE: return rv(P.cmp(SLE, x, y)); case CmpInst::ICMP_SGT: return rv(P.cmp(SLT, y, x)); case CmpInst::ICMP_SGE: return rv(P.cmp(SLE, y, x));
	default: engErr("icmp pred");
	}
}
static double asF(u64 c, unsigned w) { if (w == 32) { float f; uint32_t u = (uint32_t)c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static u64 fromF(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } u64 u; memcpy(&u, &d, 8); return u; }
static u64 conc(Frame &f, int o, unsigned w) { return concretise(opv(f, o), w); }
static Val undefVal(unsigned w) { return rv(P.var("undef#w" + std::to_string(w) + "_" + std::to_string(cur->undefs++), w, true)); }
static Val ctzV(const Val &a, unsigned w, bool poison, bool lead) {
	if (!a.e && w <= 64) { if (!a.c) return poison ? undefVal(w) : cv(w); return cv(lead ? __builtin_clzll(a.c) - (64 - w) : __builtin_ctzll(a.c)); }
	Ref x = toRef(a, w); Ref r = P.cst(w, w);
	for (int i = (int)w - 1; i >= 0; i--) { unsigned bit = lead ? w - 1 - i : i; r = P.ite(P.extract(x, bit, 1), P.cst(i, w), r); }
	if (poison) { Val z = rv(P.cmp(EQ, x, P.cst(0, w))); ModelP m; if (z.e ? sat(z.e, &m) : z.c) r = P.ite(toRef(z, 1), toRef(undefVal(w), w), r); }
	return rv(r);
}
static void pushCall(FnInfo *fi, DInst *d, Frame &f, const std::vector<Val> *args) {
	Frame nf; nf.fn = fi; nf.regs.resize(fi->nregs, cv(0));
	if (args) { size_t k = 0; for (auto &a : fi->args) for (unsigned i = 0; i < a.second && k < args->size(); i++) nf.regs[a.first + i] = (*args)[k++]; }
	else for (size_t i = 0; i < fi->args.size() && i < d->opn.size(); i++) for (unsigned k = 0; k < fi->args[i].second; k++) {
		int o = d->ops[i]; nf.regs[fi->args[i].first + k] = o >= 0 ? f.regs[o + k] : f.fn->cpool[-o - 2 + k];
	}
	if (cur->fr.size() > 400) violation("resource", "call stack deeper than 400 frames", cur->model);
	cur->fr.push_back(std::move(nf));
}
static void advance(Frame &f, DInst &d) { if (d.opc == Instruction::Invoke) jump(f, d.t0); else f.ip++; }
static void doAssert(const Val &c0, const std::string &tag) {
	asserts[tag]++; Val c = simpV(c0);
	if (!c.e) { if (!(c.c & 1)) violation("assert", tag, cur->model); return; }
	u64 kv; if (lookupKnown(c.e, kv)) { if (!kv) violation("assert", tag, cur->model); return; }
	ModelP m; Ref neg = P.notb(c.e);
	if (sat(neg, &m)) {
		// fork: the violating side is reported, the satisfying side continues
		ModelP mt; bool ok = sat(c.e, &mt);
		if (ok) { StateP n = clone(*cur); addCons(*n, c.e); n->model = mt; addKnown(*n, c.e, 1); Frame &nf = n->fr.back(); advance(nf, nf.fn->bbs[nf.bb].insts[nf.ip]); work.push_back(std::move(n)); }
		violation("assert", tag, m);
	}
}

struct Ext { std::string name; void (*fn)(DInst &, Frame &); };
static std::map<std::string, void (*)(DInst &, Frame &)> ext;
static Val arg(DInst &d, Frame &f, unsigned i) { return opv(f, d.ops[i]); }
static u64 argc_(DInst &d, Frame &f, unsigned i, unsigned w = 64) { return concretise(opv(f, d.ops[i]), w); }
static void ret(DInst &d, Frame &f, Val v) { if (d.dst >= 0) f.regs[d.dst] = v; }

static void x_new(DInst &d, Frame &f) { u64 n = argc_(d, f, 0); ret(d, f, cv(allocObj(n, OK_NEW))); }
static void x_newa(DInst &d, Frame &f) { u64 n = argc_(d, f, 0); ret(d, f, cv(allocObj(n, OK_NEWARR))); }
static void x_newal(DInst &d, Frame &f) { u64 n = argc_(d, f, 0), al = argc_(d, f, 1); ret(d, f, cv(allocObj(n, OK_NEW, al))); }
static void x_malloc(DInst &d, Frame &f) { u64 n = argc_(d, f, 0); ret(d, f, cv(allocObj(n, OK_MALLOC))); }
static void x_calloc(DInst &d, Frame &f) { u64 n = argc_(d, f, 0) * argc_(d, f, 1); u64 p = allocObj(n, OK_MALLOC); MObj *o = writable(p, 0); std::fill(o->in.begin(), o->in.end(), 1); ret(d, f, cv(p)); }
static void x_del(DInst &d, Frame &f) { freeObj(argc_(d, f, 0), OK_NEW, -1, 0); }
static void x_dels(DInst &d, Frame &f) { freeObj(argc_(d, f, 0), OK_NEW, (i64)argc_(d, f, 1), 0); }
static void x_delal(DInst &d, Frame &f) { freeObj(argc_(d, f, 0), OK_NEW, -1, 0); }
static void x_dela(DInst &d, Frame &f) { freeObj(argc_(d, f, 0), OK_NEWARR, -1, 0); }
static void x_delas(DInst &d, Frame &f) { freeObj(argc_(d, f, 0), OK_NEWARR, (i64)argc_(d, f, 1), 0); }
static void x_free(DInst &d, Frame &f) { freeObj(argc_(d, f, 0), OK_MALLOC, -1, 0); }
static void x_memcpy(DInst &d, Frame &f) { u64 a = argc_(d, f, 0), b = argc_(d, f, 1), n = argc_(d, f, 2, d.ops.size() > 3 ? 64 : 64); memCopy(a, b, n); ret(d, f, cv(a)); }
static void x_memset(DInst &d, Frame &f) {
	u64 a = argc_(d, f, 0), n = argc_(d, f, 2); Val v = arg(d, f, 1); if (v.e) v = rv(P.extract(v.e, 0, 8)); else v.c &= 255;
	if (n) { MObj *o = writable(a, n); if (!o) badAccess(a, "memset"); for (u64 i = 0; i < n; i++) storeBytes(*o, a - o->base + i, 8, 1, v); }
	ret(d, f, cv(a));
}
static void x_memcmp(DInst &d, Frame &f) {
	u64 a = argc_(d, f, 0), b = argc_(d, f, 1), n = argc_(d, f, 2); Ref r = P.cst(0, 32);
	for (i64 i = (i64)n - 1; i >= 0; i--) { Ref x = toRef(memLoad(cv(a + i), 0, 8, 1), 8), y = toRef(memLoad(cv(b + i), 0, 8, 1), 8); r = P.ite(P.cmp(EQ, x, y), r, P.bin(SUB, P.zext(x, 32), P.zext(y, 32))); }
	ret(d, f, rv(r));
}
static void x_strlen(DInst &d, Frame &f) { u64 a = argc_(d, f, 0); u64 n = 0; while (decide(icmp(CmpInst::ICMP_NE, memLoad(cv(a + n), 0, 8, 1), cv(0), 8))) n++; ret(d, f, cv(n)); }
static void x_nop(DInst &d, Frame &f) { for (unsigned i = 0; i < d.n; i++) f.regs[d.dst + i] = cv(0); }
static void x_abort(DInst &, Frame &) { violation("abort", "abort/terminate called", cur->model); }
static void x_excalloc(DInst &d, Frame &f) { u64 n = argc_(d, f, 0); ret(d, f, cv(allocObj(n ? n : 1, OK_EXC))); }
static void x_excfree(DInst &d, Frame &f) { u64 a = argc_(d, f, 0); cur->last.reset(); cur->mem.erase(a); cur->excs.erase(a); }
static void x_throw(DInst &d, Frame &f) { u64 p = argc_(d, f, 0), t = argc_(d, f, 1), dt = argc_(d, f, 2); cur->excs[p] = {t, dt, 0}; cur->uncaught++; doUnwind(p); throw Redo(); }
static void x_begincatch(DInst &d, Frame &f) { u64 p = argc_(d, f, 0); auto &e = cur->excs[p]; cur->uncaught--; if (e.handlers < 0) e.handlers = -e.handlers + 1; else e.handlers++; if (cur->caught.empty() || cur->caught.back() != p) cur->caught.push_back(p); ret(d, f, cv(p)); }
static void x_endcatch(DInst &d, Frame &f) {
	if (cur->caught.empty()) engErr("end_catch without caught exception");
	u64 p = cur->caught.back(); auto &e = cur->excs[p];
	if (e.handlers < 0) { if (++e.handlers == 0) cur->caught.pop_back(); return; }
	if (--e.handlers == 0) {
		cur->caught.pop_back(); u64 dt = e.dtor; cur->excs.erase(p);
		auto it = fnByAddr.find(dt);
		if (it != fnByAddr.end() && !it->second->isDeclaration()) { // run the destructor; the storage itself is dropped (bounded leak of engine memory only)
			advance(f, d); std::vector<Val> a{cv(p)};
			// emulate a call whose return continues at the already advanced ip
			Frame nf; FnInfo *fi = getFn(it->second); nf.fn = fi; nf.regs.resize(fi->nregs, cv(0)); nf.regs[fi->args[0].first] = cv(p); nf.ip = 0; nf.bb = 0;
			cur->fr.push_back(std::move(nf)); cur->fr.back().allocas.push_back(~0ull); // marker: do not advance caller on return
			throw Redo();
		}
		cur->last.reset(); cur->mem.erase(p);
	}
}
static void x_rethrow(DInst &, Frame &) { if (cur->caught.empty()) violation("exception", "rethrow without exception", cur->model); u64 p = cur->caught.back(); auto &e = cur->excs[p]; e.handlers = -e.handlers; cur->uncaught++; doUnwind(p); throw Redo(); }
static void x_uncaught(DInst &d, Frame &f) { ret(d, f, cv(cur->uncaught)); }
static void x_oor(DInst &, Frame &) { throwStd("_ZTISt12out_of_range"); }
static void x_len(DInst &, Frame &) { throwStd("_ZTISt12length_error"); }
static void x_balloc(DInst &, Frame &) { throwStd("_ZTISt9bad_alloc"); }
static void x_barr(DInst &, Frame &) { throwStd("_ZTISt20bad_array_new_length"); }
static void x_logic(DInst &, Frame &) { throwStd("_ZTISt11logic_error"); }
static void x_guardacq(DInst &d, Frame &f) { u64 a = argc_(d, f, 0); Val g = memLoad(cv(a), 0, 8, 1); bool init = decide(icmp(CmpInst::ICMP_NE, g, cv(0), 8)); ret(d, f, cv(!init)); }
static void x_guardrel(DInst &d, Frame &f) { memStore(cv(argc_(d, f, 0)), 0, 8, 1, cv(1)); }
// harness API
static void x_sym(DInst &d, Frame &f) {
	std::string nm = cstr(argc_(d, f, 0)); unsigned w = (unsigned)argc_(d, f, 1, 32);
	int k = cur->symCount[nm]++; std::string full = nm + "#" + std::to_string(k);
	Ref v = P.var(full, w, false); cur->inputs.push_back({full, v});
	ret(d, f, rv(P.zext(v, 64)));
}
static void x_assume(DInst &d, Frame &f) {
	Val c = arg(d, f, 0); if (!c.e) { if (!(c.c & 1)) { stats.terminatedAssume++; throw PathEnd(); } return; }
	Ref e = c.e->w == 1 ? c.e : P.extract(c.e, 0, 1); ModelP m; if (!sat(e, &m)) { stats.terminatedAssume++; throw PathEnd(); }
	addCons(*cur, e); cur->model = m; addKnown(*cur, e, 1);
}
static void x_assert(DInst &d, Frame &f) { Val c = arg(d, f, 0); if (c.e && c.e->w != 1) c = rv(P.extract(c.e, 0, 1)); doAssert(c, cstr(argc_(d, f, 1))); }
static void x_cover(DInst &d, Frame &f) { covers[cstr(argc_(d, f, 0))]++; }
static void x_fork(DInst &d, Frame &f) { ret(d, f, cv(argc_(d, f, 0))); }
static void x_table(DInst &d, Frame &f) { u64 a = argc_(d, f, 0); MObj *o = writable(a, 1); if (!o) badAccess(a, "vf_table"); o->table = true; }
static void x_live(DInst &d, Frame &f) { ret(d, f, cv(liveHeap())); }
static void x_symbolic(DInst &d, Frame &f) { ret(d, f, cv(1)); }
static void x_note(DInst &d, Frame &f) { std::string t = cstr(argc_(d, f, 0)); Val v = arg(d, f, 1); cur->notes.push_back({t, v}); }
static void x_isheap(DInst &d, Frame &f) { u64 a = argc_(d, f, 0); const ObjP *p = findObj(a, 1); ret(d, f, cv(p ? 1 : 0)); }
static void x_strcmpz(DInst &d, Frame &f) { u64 a = argc_(d, f, 0), b = argc_(d, f, 1); ret(d, f, cv((u64)(uint32_t)strcmp(cstr(a).c_str(), cstr(b).c_str()))); }

static void initExt() {
	ext = {{"_Znwm", x_new}, {"_Znam", x_newa}, {"_ZnwmSt11align_val_t", x_newal}, {"_ZnwmRKSt9nothrow_t", x_new},
	       {"_ZdlPv", x_del}, {"_ZdlPvm", x_dels}, {"_ZdaPv", x_dela}, {"_ZdaPvm", x_delas}, {"_ZdlPvSt11align_val_t", x_delal}, {"_ZdlPvmSt11align_val_t", x_dels},
	       {"malloc", x_malloc}, {"calloc", x_calloc}, {"free", x_free}, {"memcpy", x_memcpy}, {"memmove", x_memcpy}, {"memset", x_memset}, {"memcmp", x_memcmp}, {"bcmp", x_memcmp}, {"strlen", x_strlen}, {"strcmp", x_strcmpz},
	       {"abort", x_abort}, {"_ZSt9terminatev", x_abort}, {"__cxa_pure_virtual", x_abort}, {"exit", x_abort}, {"raise", x_abort}, {"__cxa_call_unexpected", x_abort},
	       {"fprintf", x_nop}, {"printf", x_nop}, {"fputs", x_nop}, {"fputc", x_nop}, {"putchar", x_nop}, {"puts", x_nop}, {"fwrite", x_nop}, {"fflush", x_nop}, {"__cxa_atexit", x_nop},
	       {"__cxa_allocate_exception", x_excalloc}, {"__cxa_free_exception", x_excfree}, {"__cxa_throw", x_throw}, {"__cxa_begin_catch", x_begincatch}, {"__cxa_end_catch", x_endcatch}, {"__cxa_rethrow", x_rethrow},
	       {"_ZSt19uncaught_exceptionsv", x_uncaught},
	       {"_ZSt20__throw_out_of_rangePKc", x_oor}, {"_ZSt24__throw_out_of_range_fmtPKcz", x_oor}, {"_ZSt20__throw_length_errorPKc", x_len}, {"_ZSt17__throw_bad_allocv", x_balloc}, {"_ZSt28__throw_bad_array_new_lengthv", x_barr}, {"_ZSt19__throw_logic_errorPKc", x_logic},
	       {"_ZNSt12out_of_rangeC1EPKc", x_nop}, {"_ZNSt12out_of_rangeD1Ev", x_nop}, {"_ZNSt9exceptionD2Ev", x_nop}, {"_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", x_nop},
	       {"__cxa_guard_acquire", x_guardacq}, {"__cxa_guard_release", x_guardrel}, {"__cxa_guard_abort", x_nop},
	       {"vf_sym", x_sym}, {"vf_assume", x_assume}, {"vf_assert_", x_assert}, {"vf_cover", x_cover}, {"vf_fork", x_fork}, {"vf_table", x_table}, {"vf_live", x_live}, {"vf_symbolic", x_symbolic}, {"vf_note", x_note}, {"vf_is_live", x_isheap}};
}

static void intrinsic(DInst &d, Frame &f) {
	auto lane = [&](auto fn) { for (unsigned i = 0; i < d.n; i++) { Val a = opv(f, d.ops[0] >= 0 ? d.ops[0] + i : d.ops[0] - (int)i); Val b = d.ops.size() > 1 ? opv(f, d.ops[1] >= 0 ? d.ops[1] + (int)(d.opn[1] > 1 ? i : 0) : d.ops[1] - (int)(d.opn[1] > 1 ? i : 0)) : cv(0); f.regs[d.dst + i] = fn(a, b); } };
	unsigned w = d.w;
	auto cmpop = [&](CmpInst::Predicate p) { lane([&](Val a, Val b) { Val c = icmp(p, a, b, w); if (!c.e) return c.c ? a : b; return rv(P.ite(c.e, toRef(a, w), toRef(b, w))); }); };
	switch (d.intr) {
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: return;
	case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: f.regs[d.dst] = opv(f, d.ops[0]); return;
	case Intrinsic::is_constant: f.regs[d.dst] = cv(0); return;
	case Intrinsic::objectsize: f.regs[d.dst] = cv(mask64(w)); return;
	case Intrinsic::assume: { Val c = opv(f, d.ops[0]); if (!c.e) { if (!(c.c & 1)) violation("assumption", "compiler assumption (TPP_ASSUME/unreachable) violated", cur->model); return; }
		ModelP m; if (sat(P.notb(c.e), &m)) violation("assumption", "compiler assumption (TPP_ASSUME/unreachable) violated", m); return; }
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 a = argc_(d, f, 0), b = argc_(d, f, 1), n = argc_(d, f, 2); memCopy(a, b, n); return; }
	case Intrinsic::memset: x_memset(d, f); return;
	case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violation("assertion", "library assertion (trap) reached", cur->model); return;
	case Intrinsic::umax: cmpop(CmpInst::ICMP_UGT); return;
	case Intrinsic::umin: cmpop(CmpInst::ICMP_ULT); return;
	case Intrinsic::smax: cmpop(CmpInst::ICMP_SGT); return;
	case Intrinsic::smin: cmpop(CmpInst::ICMP_SLT); return;
	case Intrinsic::abs: lane([&](Val a, Val) { Val c = icmp(CmpInst::ICMP_SLT, a, cv(0), w); Val n = binop(Instruction::Sub, cv(0), a, w); if (!c.e) return c.c ? n : a; return rv(P.ite(c.e, toRef(n, w), toRef(a, w))); }); return;
	case Intrinsic::cttz: case Intrinsic::ctlz: { bool poison = opv(f, d.ops[1]).c & 1; bool lead = d.intr == Intrinsic::ctlz; for (unsigned i = 0; i < d.n; i++) { Val a = opv(f, d.ops[0] >= 0 ? d.ops[0] + (int)i : d.ops[0] - (int)i); f.regs[d.dst + i] = ctzV(a, w, poison, lead); } return; }
	case Intrinsic::ctpop: lane([&](Val a, Val) { if (!a.e) return cv(__builtin_popcountll(a.c)); Ref r = P.cst(0, w); for (unsigned i = 0; i < w; i++) r = P.bin(ADD, r, P.zext(P.extract(a.e, i, 1), w)); return rv(r); }); return;
	case Intrinsic::bswap: lane([&](Val a, Val) { Ref r = nullptr, x = toRef(a, w); for (unsigned i = 0; i < w; i += 8) { Ref b = P.extract(x, i, 8); r = r ? P.concat(r, b) : b; } return rv(r); }); return;
	case Intrinsic::bitreverse: lane([&](Val a, Val) { Ref r = nullptr, x = toRef(a, w); for (unsigned i = 0; i < w; i++) { Ref b = P.extract(x, i, 1); r = r ? P.concat(r, b) : b; } return rv(r); }); return;
	case Intrinsic::fshl: case Intrinsic::fshr: {
		Ref x = toRef(opv(f, d.ops[0]), w), y = toRef(opv(f, d.ops[1]), w), z = P.bin(AND, toRef(opv(f, d.ops[2]), w), P.cst(w - 1, w));
		Ref cc = P.concat(x, y), zz = P.zext(z, 2 * w);
		if (2 * w > 128) engErr("fshl width");
		f.regs[d.dst] = d.intr == Intrinsic::fshl ? rv(P.extract(P.bin(SHL, cc, zz), w, w)) : rv(P.extract(P.bin(LSHR, cc, zz), 0, w)); return; }
	case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
		Val a = opv(f, d.ops[0]), b = opv(f, d.ops[1]);
		if (w > 64) engErr("overflow op width");
		Ref x = P.zext(toRef(a, w), 128), y = P.zext(toRef(b, w), 128), r, o;
		bool sg = d.intr == Intrinsic::sadd_with_overflow || d.intr == Intrinsic::ssub_with_overflow || d.intr == Intrinsic::smul_with_overflow;
		if (sg) { x = P.sext(toRef(a, w), 128); y = P.sext(toRef(b, w), 128); }
		Op op = (d.intr == Intrinsic::umul_with_overflow || d.intr == Intrinsic::smul_with_overflow) ? MUL : (d.intr == Intrinsic::usub_with_overflow || d.intr == Intrinsic::ssub_with_overflow) ? SUB : ADD;
		Ref full = P.bin(op, x, y); r = P.extract(full, 0, w);
		o = P.notb(P.cmp(EQ, full, sg ? P.sext(r, 128) : P.zext(r, 128)));
		f.regs[d.dst] = rv(r); f.regs[d.dst + 1] = rv(o); return; }
	case Intrinsic::usub_sat: lane([&](Val a, Val b) { Val c = icmp(CmpInst::ICMP_ULT, a, b, w); Val s = binop(Instruction::Sub, a, b, w); if (!c.e) return c.c ? cv(0) : s; return rv(P.ite(c.e, P.cst(0, w), toRef(s, w))); }); return;
	case Intrinsic::uadd_sat: lane([&](Val a, Val b) { Val s = binop(Instruction::Add, a, b, w); Val c = icmp(CmpInst::ICMP_ULT, s, a, w); if (!c.e) return c.c ? cv(mask64(w)) : s; return rv(P.ite(c.e, P.cst(maskw(w), w), toRef(s, w))); }); return;
	case Intrinsic::eh_typeid_for: f.regs[d.dst] = cv((u64)typeId(opv(f, d.ops[0]).c)); return;
	case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::rint: case Intrinsic::nearbyint: {
		double x = asF(conc(f, d.ops[0], w), w); x = d.intr == Intrinsic::ceil ? ceil(x) : d.intr == Intrinsic::floor ? floor(x) : d.intr == Intrinsic::trunc ? trunc(x) : d.intr == Intrinsic::round ? round(x) : d.intr == Intrinsic::fabs ? fabs(x) : d.intr == Intrinsic::sqrt ? sqrt(x) : rint(x);
		f.regs[d.dst] = cv(fromF(x, w)); return; }
	case Intrinsic::fmuladd: case Intrinsic::fma: { double a = asF(conc(f, d.ops[0], w), w), b = asF(conc(f, d.ops[1], w), w), c = asF(conc(f, d.ops[2], w), w); f.regs[d.dst] = cv(fromF(w == 32 ? (double)((float)a * (float)b + (float)c) : a * b + c, w)); return; }
	case Intrinsic::x86_sse2_pmovmskb_128: {
		Ref r = nullptr; for (unsigned i = 0; i < 16; i++) { Val a = opv(f, d.ops[0] >= 0 ? d.ops[0] + (int)i : d.ops[0] - (int)i); Ref b = P.extract(toRef(a, 8), 7, 1); r = r ? P.concat(b, r) : b; }
		f.regs[d.dst] = rv(P.zext(r, 32)); return; }
	case Intrinsic::x86_ssse3_psign_b_128: {
		for (unsigned i = 0; i < 16; i++) {
			Ref a = toRef(opv(f, d.ops[0] >= 0 ? d.ops[0] + (int)i : d.ops[0] - (int)i), 8), b = toRef(opv(f, d.ops[1] >= 0 ? d.ops[1] + (int)i : d.ops[1] - (int)i), 8);
			f.regs[d.dst + i] = rv(P.ite(P.cmp(EQ, b, P.cst(0, 8)), P.cst(0, 8), P.ite(P.extract(b, 7, 1), P.bin(SUB, P.cst(0, 8), a), a)));
		} return; }
	case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: {
		unsigned lw = d.w; Val r = opv(f, d.ops[0]); unsigned op = d.intr == Intrinsic::vector_reduce_or ? Instruction::Or : d.intr == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Add;
		for (unsigned i = 1; i < d.opn[0]; i++) r = binop(op, r, opv(f, d.ops[0] >= 0 ? d.ops[0] + (int)i : d.ops[0] - (int)i), lw);
		f.regs[d.dst] = r; return; }
	}
	engErr("unsupported intrinsic " + d.callee->getName().str());
}

static void doCall(DInst &d, Frame &f) {
	Function *F = d.callee;
	if (!F) {
		if (cast<CallBase>(d.I)->isInlineAsm()) {
			auto *ia = cast<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand());
			if (ia->getAsmString().find("int3") != std::string::npos) violation("assertion", "library assertion (trap) reached", cur->model);
			if (ia->getAsmString().empty()) { x_nop(d, f); f.ip++; return; }
			engErr("inline asm");
		}
		u64 a = concretise(opv(f, d.ops.back()), 64); auto it = fnByAddr.find(a);
		if (it == fnByAddr.end()) { badAccess(a, "indirect call"); }
		F = it->second;
	}
	if (d.intr > 0) { intrinsic(d, f); advance(f, d); return; }
	auto ei = ext.find(F->getName().str());
	if (ei != ext.end()) { if (!externsUsed.count(ei->first)) externsUsed.insert(ei->first); ei->second(d, f); advance(f, d); return; }
	if (F->isDeclaration()) {
		StringRef nm = F->getName();
		if (nm.starts_with("__clang_call_terminate")) { x_abort(d, f); }
		engErr("call to unmodelled external function " + nm.str() + " at " + where(*cur));
	}
	FnInfo *fi = d.cfi; if (!fi || d.callee == nullptr) { fi = getFn(F); if (d.callee) d.cfi = fi; }
	pushCall(fi, &d, f, nullptr);
}

static void step() {
	State &s = *cur; Frame &f = s.fr.back(); DInst &d = f.fn->bbs[f.bb].insts[f.ip];
	d.covered = true; stats.instrs++;
	if (++s.steps > maxSteps) violation("termination", "operation does not terminate within the step bound", s.model);
	auto O = [&](unsigned i, unsigned l = 0) -> Val & { int o = d.ops[i]; return o >= 0 ? f.regs[o + l] : f.fn->cpool[-o - 2 + l]; };
	switch (d.opc) {
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
	case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
		for (unsigned i = 0; i < d.n; i++) { Val v = binop(d.opc, O(0, i), O(1, i), d.w); f.regs[d.dst + i] = v; }
		f.ip++; return;
	case Instruction::ICmp: { auto p = cast<ICmpInst>(d.I)->getPredicate(); for (unsigned i = 0; i < d.n; i++) f.regs[d.dst + i] = icmp(p, O(0, i), O(1, i), d.sw); f.ip++; return; }
	case Instruction::Load: {
		Val a = O(0); if (a.e && d.sl->size() > 1) a = cv(concretise(a, 64));
		std::vector<Val> tmp; Val one;
		if (d.sl->size() == 1) { one = memLoad(a, 0, (*d.sl)[0].w, (*d.sl)[0].bytes); f.regs[d.dst] = one; }
		else { for (auto &sl : *d.sl) { if (!sl.bytes) engErr("load of sub-byte vector"); tmp.push_back(memLoad(a, sl.off, sl.w, sl.bytes)); } for (size_t i = 0; i < tmp.size(); i++) f.regs[d.dst + i] = tmp[i]; }
		f.ip++; return; }
	case Instruction::Store: {
		Val a = O(1); if (a.e && d.sl->size() > 1) a = cv(concretise(a, 64));
		for (size_t i = 0; i < d.sl->size(); i++) { auto &sl = (*d.sl)[i]; if (!sl.bytes) engErr("store of sub-byte vector"); memStore(a, sl.off, sl.w, sl.bytes, O(0, i)); }
		f.ip++; return; }
	case Instruction::GetElementPtr: {
		Val a = O(0); bool sym = a.e; for (auto &g : d.gidx) if (opv(f, g.first).e) sym = true;
		if (!sym) { u64 v = a.c + d.goff; for (size_t i = 0; i < d.gidx.size(); i++) v += (u64)(sx64(opv(f, d.gidx[i].first).c, d.gw[i]) * d.gidx[i].second); f.regs[d.dst] = cv(v); }
		else { Ref r = P.bin(ADD, toRef(a, 64), P.cst((u64)d.goff, 64)); for (size_t i = 0; i < d.gidx.size(); i++) { Ref ix = toRef(opv(f, d.gidx[i].first), d.gw[i]); ix = d.gw[i] < 64 ? P.sext(ix, 64) : ix; u64 sc = (u64)d.gidx[i].second; Ref t = (sc && !(sc & (sc - 1))) ? P.bin(SHL, ix, P.cst(__builtin_ctzll(sc), 64)) : P.bin(MUL, ix, P.cst(sc, 64)); r = P.bin(ADD, r, t); } f.regs[d.dst] = rv(r); }
		f.ip++; return; }
	case Instruction::Br:
		if (d.t1 < 0) { jump(f, d.t0); return; }
		{ bool c = decide(O(0)); jump(f, c ? d.t0 : d.t1); return; }
	case Instruction::Switch: {
		Val v = O(0); 
		if (!v.e) { for (auto &c : d.cases) if (c.first == v.c) { jump(f, c.second); return; } jump(f, d.t0); return; }
		for (auto &c : d.cases) if (decide(rv(P.cmp(EQ, v.e, P.cst(c.first, d.w))))) { jump(f, c.second); return; }
		jump(f, d.t0); return; }
	case Instruction::Select: {
		Val c = O(0); unsigned cn = d.opn[0];
		for (unsigned i = 0; i < d.n; i++) {
			Val cc = cn > 1 ? O(0, i) : c; auto &sl = slots(d.I->getType());
			Val r = !cc.e ? (cc.c ? O(1, i) : O(2, i)) : rv(P.ite(cc.e, toRef(O(1, i), sl[i].w), toRef(O(2, i), sl[i].w)));
			f.regs[d.dst + i] = r;
		}
		f.ip++; return; }
	case Instruction::ZExt: for (unsigned i = 0; i < d.n; i++) { Val a = O(0, i); f.regs[d.dst + i] = a.e || d.w > 64 ? rv(P.zext(toRef(a, d.sw), d.w)) : a; } f.ip++; return;
	case Instruction::SExt: for (unsigned i = 0; i < d.n; i++) { Val a = O(0, i); f.regs[d.dst + i] = a.e || d.w > 64 ? rv(P.sext(toRef(a, d.sw), d.w)) : cv((u64)sx64(a.c, d.sw) & mask64(d.w)); } f.ip++; return;
	case Instruction::Trunc: for (unsigned i = 0; i < d.n; i++) { Val a = O(0, i); f.regs[d.dst + i] = a.e ? rv(P.extract(a.e, 0, d.w)) : cv(a.c & mask64(d.w)); } f.ip++; return;
	case Instruction::PtrToInt: case Instruction::IntToPtr: for (unsigned i = 0; i < d.n; i++) { Val a = O(0, i); if (d.w < d.sw) a = a.e ? rv(P.extract(a.e, 0, d.w)) : cv(a.c & mask64(d.w)); else if (a.e && d.w > d.sw) a = rv(P.zext(a.e, d.w)); f.regs[d.dst + i] = a; } f.ip++; return;
	case Instruction::BitCast: {
		unsigned sn = d.opn[0];
		if (sn == d.n) { for (unsigned i = 0; i < d.n; i++) { Val a = O(0, i); f.regs[d.dst + i] = a; } f.ip++; return; }
		if (sn > d.n) { // pack
			unsigned k = sn / d.n; std::vector<Val> o; for (unsigned i = 0; i < d.n; i++) { Ref r = nullptr; for (unsigned j = 0; j < k; j++) { Ref b = toRef(O(0, i * k + j), d.sw); r = r ? P.concat(b, r) : b; } o.push_back(rv(r)); }
			for (unsigned i = 0; i < d.n; i++) f.regs[d.dst + i] = o[i];
		} else { unsigned k = d.n / sn; std::vector<Val> o; for (unsigned i = 0; i < sn; i++) { Ref r = toRef(O(0, i), d.sw); for (unsigned j = 0; j < k; j++) o.push_back(rv(P.extract(r, j * d.w, d.w))); } for (unsigned i = 0; i < d.n; i++) f.regs[d.dst + i] = o[i]; }
		f.ip++; return; }
	case Instruction::Freeze: case Instruction::AddrSpaceCast: for (unsigned i = 0; i < d.n; i++) { Val a = O(0, i); f.regs[d.dst + i] = a; } f.ip++; return;
	case Instruction::ExtractValue: for (unsigned i = 0; i < d.n; i++) { Val a = O(0, d.goff + i); f.regs[d.dst + i] = a; } f.ip++; return;
	case Instruction::InsertValue: { for (unsigned i = 0; i < d.n; i++) { Val a = O(0, i); f.regs[d.dst + i] = a; } for (unsigned i = 0; i < d.opn[1]; i++) { Val a = O(1, i); f.regs[d.dst + d.goff + i] = a; } f.ip++; return; }
	case Instruction::ExtractElement: { u64 ix = concretise(O(1), d.I->getOperand(1)->getType()->getIntegerBitWidth()); Val a = O(0, ix); f.regs[d.dst] = a; f.ip++; return; }
	case Instruction::InsertElement: { u64 ix = concretise(O(2), d.I->getOperand(2)->getType()->getIntegerBitWidth()); for (unsigned i = 0; i < d.n; i++) { Val a = O(0, i); f.regs[d.dst + i] = a; } Val a = O(1); f.regs[d.dst + ix] = a; f.ip++; return; }
	case Instruction::ShuffleVector: { std::vector<Val> o; for (int m : d.shuf) o.push_back(m < 0 ? cv(0) : m < (int)d.opn[0] ? O(0, m) : O(1, m - d.opn[0])); for (unsigned i = 0; i < d.n; i++) f.regs[d.dst + i] = o[i]; f.ip++; return; }
	case Instruction::Alloca: {
		auto *al = cast<AllocaInst>(d.I); u64 n = concretise(O(0), al->getArraySize()->getType()->getIntegerBitWidth()) * DL->getTypeAllocSize(al->getAllocatedType());
		u64 p = allocObj(n, OK_STACK, al->getAlign().value()); f.allocas.push_back(p); f.regs[d.dst] = cv(p); f.ip++; return; }
	case Instruction::Ret: {
		std::vector<Val> r; if (!d.ops.empty()) for (unsigned i = 0; i < d.opn[0]; i++) r.push_back(O(0, i));
		bool noadv = !f.allocas.empty() && f.allocas[0] == ~0ull;
		popFrame();
		if (s.fr.empty()) { stats.paths++; if (samples.size() < 3 || (stats.paths & (stats.paths - 1)) == 0) { if (samples.size() < 6) { samples.emplace_back(); for (auto &in : s.inputs) samples.back().push_back({in.first, (u64)S.eval(in.second, *s.model)}); } } throw PathEnd(); }
		if (noadv) return;
		Frame &c = s.fr.back(); DInst &cd = c.fn->bbs[c.bb].insts[c.ip];
		if (cd.dst >= 0) for (size_t i = 0; i < r.size(); i++) c.regs[cd.dst + i] = r[i];
		advance(c, cd); return; }
	case Instruction::Call: case Instruction::Invoke: doCall(d, f); return;
	case Instruction::LandingPad: f.regs[d.dst] = cv(s.curExc); f.regs[d.dst + 1] = cv(s.curSel); f.ip++; return;
	case Instruction::Resume: { u64 e = concretise(O(0, 0), 64); f.ip = f.ip; // treat as a throw from this point
		if (s.fr.size() == 1) violation("exception", "exception escapes the harness (std::terminate)", s.model);
		popFrame(); doUnwind(e); return; }
	case Instruction::Unreachable: violation("unreachable", "unreachable code reached (violated TPP_ASSUME / noreturn)", s.model); return;
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
		if (d.n != 1) { }
		for (unsigned i = 0; i < d.n; i++) { double a = asF(concretise(O(0, i), d.w), d.w), b = asF(concretise(O(1, i), d.w), d.w), r;
			if (d.w == 32) { float x = (float)a, y = (float)b; float z = d.opc == Instruction::FAdd ? x + y : d.opc == Instruction::FSub ? x - y : d.opc == Instruction::FMul ? x * y : d.opc == Instruction::FDiv ? x / y : fmodf(x, y); r = z; }
			else r = d.opc == Instruction::FAdd ? a + b : d.opc == Instruction::FSub ? a - b : d.opc == Instruction::FMul ? a * b : d.opc == Instruction::FDiv ? a / b : fmod(a, b);
			f.regs[d.dst + i] = cv(fromF(r, d.w)); }
		f.ip++; return; }
	case Instruction::FNeg: f.regs[d.dst] = cv(fromF(-asF(concretise(O(0), d.w), d.w), d.w)); f.ip++; return;
	case Instruction::UIToFP: case Instruction::SIToFP: for (unsigned i = 0; i < d.n; i++) { u64 a = concretise(O(0, i), d.sw); u64 r = d.opc == Instruction::UIToFP ? (d.w == 32 ? fromF((double)(float)a, 32) : fromF((double)a, 64)) : (d.w == 32 ? fromF((double)(float)sx64(a, d.sw), 32) : fromF((double)sx64(a, d.sw), 64)); f.regs[d.dst + i] = cv(r); } f.ip++; return;
	case Instruction::FPToUI: { double a = asF(concretise(O(0), d.sw), d.sw); f.regs[d.dst] = (a > -1 && a < 18446744073709551616.0) ? cv((u64)a & mask64(d.w)) : undefVal(d.w); f.ip++; return; }
	case Instruction::FPToSI: { double a = asF(concretise(O(0), d.sw), d.sw); f.regs[d.dst] = (a > -9.3e18 && a < 9.2e18) ? cv((u64)(i64)a & mask64(d.w)) : undefVal(d.w); f.ip++; return; }
	case Instruction::FPExt: case Instruction::FPTrunc: f.regs[d.dst] = cv(fromF(asF(concretise(O(0), d.sw), d.sw), d.w)); f.ip++; return;
	case Instruction::FCmp: {
		double a = asF(concretise(O(0), d.sw), d.sw), b = asF(concretise(O(1), d.sw), d.sw); bool un = std::isnan(a) || std::isnan(b), r = false;
		switch (cast<FCmpInst>(d.I)->getPredicate()) {
		case CmpInst::FCMP_OEQ: r = !un && a == b; break; case CmpInst::FCMP_OGT: r = !un && a > b; break; case CmpInst::FCMP_OGE: r = !un && a >= b; break; case CmpInst::FCMP_OLT: r = !un && a < b; break; case CmpInst::FCMP_OLE: r = !un && a <= b; break; case CmpInst::FCMP_ONE: r = !un && a != b; break; case CmpInst::FCMP_ORD: r = !un; break;
		case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_UGT: r = un || a > b; break; case CmpInst::FCMP_UGE: r = un || a >= b; break; case CmpInst::FCMP_ULT: r = un || a < b; break; case CmpInst::FCMP_ULE: r = un || a <= b; break; case CmpInst::FCMP_UNE: r = un || a != b; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false;
		}
		f.regs[d.dst] = cv(r); f.ip++; return; }
	case Instruction::Fence: f.ip++; return;
	case Instruction::AtomicRMW: {
		auto *ar = cast<AtomicRMWInst>(d.I); Val old = memLoad(O(0), 0, d.w, d.w / 8), v = O(1), nv;
		switch (ar->getOperation()) { case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, v, d.w); break; case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, v, d.w); break; case AtomicRMWInst::Xchg: nv = v; break; default: engErr("atomicrmw"); }
		memStore(O(0), 0, d.w, d.w / 8, nv); f.regs[d.dst] = old; f.ip++; return; }
	}
	std::string m; raw_string_ostream os(m); d.I->print(os); engErr("unsupported instruction" + m);
}

static void stepS() {
	Frame &f = cur->fr.back(); DInst &d = f.fn->bbs[f.bb].insts[f.ip];
	bool res = d.dst >= 0 && d.opc != Instruction::Call && d.opc != Instruction::Invoke && d.opc != Instruction::Br && d.opc != Instruction::Ret;
	step();
	if (res && cur->kb) { unsigned n = d.opc == Instruction::Load ? d.sl->size() : d.n ? d.n : 1; for (unsigned i = 0; i < n; i++) { Val &v = f.regs[d.dst + i]; if (v.e) v = rv(simp(v.e)); } }
}
static void runState(StateP st) {
	StateP holder = std::move(st); cur = holder.get();
	try { for (;;) { try { stepS(); } catch (Redo &) {} if (((stats.instrs & 0xffff) == 0) && elapsed() > timeLimit) { stats.truncated++; throw PathEnd(); } } }
	catch (PathEnd &) {}
	if (holder->cons.size() > stats.maxCons) stats.maxCons = holder->cons.size();
	cur = nullptr;
}
static bool stopAll() { return violations.size() >= maxViol || elapsed() > timeLimit; }

// ---------------------------------------------------------------- results
static std::string js(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }
static void dumpResult(std::ostream &o) { // line protocol
	o << "S paths " << stats.paths << "\nS instrs " << stats.instrs << "\nS forks " << stats.forks << "\nS assume_cut " << stats.terminatedAssume << "\nS undef_reads " << stats.undefReads << "\nS truncated " << stats.truncated
	  << "\nS queries " << S.st.queries << "\nS cache_hits " << S.st.cacheHits << "\nS z3calls " << S.st.z3calls << "\nS model_hits " << S.st.modelHits << "\nS sat " << S.st.sat << "\nS unsat " << S.st.unsat << "\nS unknown " << S.st.unknown << "\n";
	o << "T " << S.st.z3time << " " << S.st.maxQuery << "\n";
	o << "M " << stats.maxCons << " " << P.vars.size() << "\n";
	for (auto &c : covers) o << "C " << c.second << " " << c.first << "\n";
	for (auto &c : asserts) o << "A " << c.second << " " << c.first << "\n";
	for (auto &e : externsUsed) o << "X " << e << "\n";
	std::set<std::string> sps; std::set<std::string> lines;
	for (auto &p : fns) if (p.second->decoded) for (auto &b : p.second->bbs) for (auto &d : b.insts) if (d.covered) {
		for (const DILocation *L = d.I->getDebugLoc().get(); L; L = L->getInlinedAt()) {
			auto *sp = L->getScope()->getSubprogram(); StringRef fn = sp->getFilename(); if (fn.find("tpp/") == StringRef::npos) continue;
			auto ps = fn.rfind('/'); std::string file = fn.substr(ps + 1).str();
			sps.insert(file + ":" + std::to_string(sp->getLine()) + ":" + sp->getName().str()); lines.insert(file + ":" + std::to_string(L->getLine()));
		}
	}
	for (auto &s : sps) o << "F " << s << "\n";
	for (auto &s : lines) o << "L " << s << "\n";
	for (auto &s : samples) { o << "P"; for (auto &k : s) o << " " << k.first << "=" << k.second; o << "\n"; }
	for (auto &v : violations) {
		o << "V " << v.second.kind << "\t" << v.second.tag << "\t" << v.second.where << "\t";
		for (auto &k : v.second.inputs) o << k.first << "=" << k.second << " "; o << "\t";
		for (auto &k : v.second.notes) o << k.first << "=" << k.second << " "; o << "\n";
	}
	o << "END\n";
}
struct Merged { std::map<std::string, u64> s; double z3 = 0, mx = 0; u64 mc = 0, nv = 0; std::map<std::string, u64> c, a; std::set<std::string> x, f, l; std::vector<std::string> p; std::map<std::string, std::string> v; int parts = 0; } mg;
static bool mergeText(std::istream &in) {
	std::string ln; bool end = false;
	while (std::getline(in, ln)) {
		if (ln == "END") { end = true; break; }
		std::istringstream is(ln.substr(2)); std::string k; u64 n;
		switch (ln[0]) {
		case 'S': is >> k >> n; mg.s[k] += n; break;
		case 'T': { double a, b; is >> a >> b; mg.z3 += a; mg.mx = std::max(mg.mx, b); break; }
		case 'M': { u64 a, b; is >> a >> b; mg.mc = std::max(mg.mc, a); mg.nv = std::max(mg.nv, b); break; }
		case 'C': is >> n; std::getline(is, k); mg.c[k.substr(1)] += n; break;
		case 'A': is >> n; std::getline(is, k); mg.a[k.substr(1)] += n; break;
		case 'X': mg.x.insert(ln.substr(2)); break;
		case 'F': mg.f.insert(ln.substr(2)); break;
		case 'L': mg.l.insert(ln.substr(2)); break;
		case 'P': if (mg.p.size() < 6) mg.p.push_back(ln.size() > 2 ? ln.substr(2) : ""); break;
		case 'V': { auto q = ln.find('\t', ln.find('\t') + 1); std::string key = ln.substr(2, q - 2); if (!mg.v.count(key)) mg.v[key] = ln.substr(2); break; }
		}
	}
	return end;
}

int main(int argc, char **argv) {
	T0 = std::chrono::steady_clock::now();
	std::string in, out, entry = "vf_main"; int jobs = 1; unsigned frontier = 0;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
		if (a == "-j") jobs = std::stoi(nx()); else if (a == "-o") out = nx(); else if (a == "--entry") entry = nx(); else if (a == "--time") timeLimit = std::stod(nx());
		else if (a == "--max-steps") maxSteps = std::stoull(nx()); else if (a == "--max-violations") maxViol = std::stoul(nx()); else if (a == "--query-ms") S.timeoutMs = std::stoul(nx()); else if (a == "--frontier") frontier = std::stoul(nx());
		else in = a;
	}
	struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
	if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512u << 20) && !getenv("VFSE_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("VFSE_STACK", "1", 1); execv("/proc/self/exe", argv); }
	LLVMContext C; SMDiagnostic err; auto mod = parseIRFile(in, err, C);
	if (!mod) { err.print("vfse", errs()); return 3; }
	M = mod.get(); DL = &M->getDataLayout(); S.init(); initExt();
	u64 fa = 0x10000; for (auto &F : *M) { fnAddr[&F] = fa; fnByAddr[fa] = &F; fa += 16; }
	u64 ga = 0x10000000;
	for (auto &G : M->globals()) { u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 1; u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16); ga = (ga + al - 1) / al * al; gvAddr[&G] = ga; gvByAddr[ga] = &G; ga += sz + 32; }
	auto st = std::make_unique<State>(); cur = st.get(); st->model = S.newModel();
	for (auto &G : M->globals()) {
		u64 a = gvAddr[&G]; u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 1;
		auto o = std::make_shared<MObj>(a, sz, OK_GLOBAL); std::fill(o->in.begin(), o->in.end(), 1);
		if (G.hasInitializer()) { std::vector<Val> v; 
			if (G.getName() == "llvm.global_ctors" || G.getName() == "llvm.used") continue;
			lowerConst(G.getInitializer(), v); auto &sl = slots(G.getValueType()); for (size_t i = 0; i < sl.size(); i++) storeBytes(*o, sl[i].off, sl[i].w, sl[i].bytes, v[i]); }
		if (G.isConstant()) { o->ro = true; constGlobals[a] = o; } else st->mem[a] = o;
	}
	Function *E = M->getFunction(entry); if (!E || E->isDeclaration()) engErr("no entry function " + entry);
	FnInfo *fi = getFn(E); Frame f0; f0.fn = fi; f0.regs.resize(fi->nregs, cv(0)); st->fr.push_back(f0);
	if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
		for (int i = (int)ca->getNumOperands() - 1; i >= 0; i--) { auto *cs = cast<ConstantStruct>(ca->getOperand(i)); auto *cf = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if (cf) { FnInfo *k = getFn(cf); Frame nf; nf.fn = k; nf.regs.resize(k->nregs, cv(0)); nf.allocas.push_back(~0ull); st->fr.push_back(nf); } }
	cur = nullptr;
	work.push_back(std::move(st));
	bool bad = false;
	if (jobs <= 1) { while (!work.empty() && !stopAll()) { StateP n = std::move(work.back()); work.pop_back(); runState(std::move(n)); } stats.truncated += work.size(); std::stringstream ss; dumpResult(ss); mergeText(ss); }
	else {
		unsigned target = frontier ? frontier : jobs * 24;
		// breadth-first until the frontier is wide enough, then fork workers
		size_t head = 0; std::vector<StateP> q; q.push_back(std::move(work.back())); work.clear();
		while (head < q.size() && q.size() - head < target && !stopAll()) { StateP n = std::move(q[head++]); runState(std::move(n)); for (auto &w : work) q.push_back(std::move(w)); work.clear(); }
		std::vector<StateP> fr; for (size_t i = head; i < q.size(); i++) fr.push_back(std::move(q[i])); q.clear();
		{ std::stringstream ss; dumpResult(ss); mergeText(ss); }
		if (!fr.empty()) {
			auto *ctr = (std::atomic<unsigned> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (ctr) std::atomic<unsigned>(0); auto *vio = new (ctr + 1) std::atomic<unsigned>(violations.size());
			fflush(nullptr); std::vector<std::pair<pid_t, std::string>> kids;
			auto v0 = violations.size();
			for (int j = 0; j < jobs; j++) {
				std::string tmp = out + ".part" + std::to_string(j); pid_t pid = fork();
				if (pid == 0) {
					stats = Stats(); S.st = SolverStats(); samples.clear(); covers.clear(); asserts.clear(); violations.clear();
					unsigned seen = 0; auto stop = [&] { if (violations.size() > seen) { *vio += violations.size() - seen; seen = violations.size(); } return vio->load() >= maxViol || elapsed() > timeLimit; };
					for (;;) {
						unsigned i = ctr->fetch_add(1); if (i >= fr.size()) break;
						unsigned idx = i; // breadth-first order: oldest (largest) subtrees first
						if (stop()) { stats.truncated++; continue; }
						work.clear(); work.push_back(std::move(fr[idx]));
						while (!work.empty() && !stop()) { StateP n = std::move(work.back()); work.pop_back(); runState(std::move(n)); }
						stats.truncated += work.size();
					}
					std::ofstream o(tmp); dumpResult(o); o.close(); _exit(0);
				}
				kids.push_back({pid, tmp});
			}
			(void)v0;
			for (auto &k : kids) { int stt; waitpid(k.first, &stt, 0); std::ifstream i(k.second); if (!mergeText(i)) { bad = true; fprintf(stderr, "ENGINE-ERROR: worker failed (status %x)\n", stt); } unlink(k.second.c_str()); }
		}
	}
	std::ostringstream o; o << "{\n"; for (auto &k : mg.s) o << " " << js(k.first) << ": " << k.second << ",\n";
	o << " \"solver_seconds\": " << mg.z3 << ",\n \"max_query_seconds\": " << mg.mx << ",\n \"max_constraints\": " << mg.mc << ",\n \"symbolic_vars\": " << mg.nv << ",\n \"wall\": " << elapsed() << ",\n \"worker_failed\": " << (bad ? "true" : "false") << ",\n";
	auto mp = [&](const char *n, std::map<std::string, u64> &m) { o << " \"" << n << "\": {"; bool fst = true; for (auto &k : m) { o << (fst ? "" : ", ") << js(k.first) << ": " << k.second; fst = false; } o << "},\n"; };
	auto stt = [&](const char *n, std::set<std::string> &m) { o << " \"" << n << "\": ["; bool fst = true; for (auto &k : m) { o << (fst ? "" : ", ") << js(k); fst = false; } o << "],\n"; };
	mp("covers", mg.c); mp("asserts", mg.a); stt("externs", mg.x); stt("functions", mg.f); stt("lines", mg.l);
	o << " \"samples\": ["; for (size_t i = 0; i < mg.p.size(); i++) o << (i ? ", " : "") << js(mg.p[i]); o << "],\n \"violations\": [";
	bool fst = true; for (auto &v : mg.v) { std::vector<std::string> t; std::string x; std::istringstream is(v.second); while (std::getline(is, x, '\t')) t.push_back(x); while (t.size() < 5) t.push_back(""); o << (fst ? "" : ",") << "\n  {\"kind\": " << js(t[0]) << ", \"tag\": " << js(t[1]) << ", \"where\": " << js(t[2]) << ", \"inputs\": " << js(t[3]) << ", \"notes\": " << js(t[4]) << "}"; fst = false; }
	o << "]\n}\n";
	if (out.empty()) puts(o.str().c_str()); else { std::ofstream f(out); f << o.str(); }
	return bad ? 3 : mg.v.empty() ? 0 : 1;
}
