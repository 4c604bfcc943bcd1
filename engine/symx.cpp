// symx: symbolic execution of LLVM bitcode, deciding every branch and every
// assertion with Z3.  All feasible paths of the entry function are explored
// (depth first); memory is byte-precise and every access is checked.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <chrono>
#include <map>
#include <set>
#include <memory>
#include <sstream>
#include <fstream>
#include <iostream>
#include <cstring>
using namespace llvm;
typedef uint64_t u64;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- options
static double optTime = 60;
static u64 optMaxPaths = ~0ull, optMaxInsts = 20000000;
static int optPerKey = 3;
static bool optTraceCalls = false;

// ---------------------------------------------------------------- values
struct Val { u64 c = 0; E e = nullptr; Val() {} Val(u64 c) : c(c) {} Val(E x, int) { if (isC(x)) c = x->val; else e = x; } bool sym() const { return e; } };
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory
enum Kind : uint8_t { K_GLOBAL, K_STACK, K_HEAP, K_FUNC };
struct Obj {
    int refs = 0; uint32_t size = 0; Kind kind = K_GLOBAL; bool ro = false, alive = true; const char *name = "";
    std::vector<uint8_t> c; std::vector<E> s;
};
struct ObjP {
    Obj *p = nullptr;
    ObjP() {} ObjP(Obj *o) : p(o) { if (p) p->refs++; } ObjP(const ObjP &o) : p(o.p) { if (p) p->refs++; }
    ObjP(ObjP &&o) noexcept : p(o.p) { o.p = nullptr; }
    ObjP &operator=(ObjP o) { std::swap(p, o.p); return *this; }
    ~ObjP() { if (p && --p->refs == 0) delete p; }
};
static const int CH = 64;
struct Chunk { int refs = 0; ObjP o[CH]; };
struct ChunkP {
    Chunk *p = nullptr;
    ChunkP() {} ChunkP(Chunk *o) : p(o) { if (p) p->refs++; } ChunkP(const ChunkP &o) : p(o.p) { if (p) p->refs++; }
    ChunkP(ChunkP &&o) noexcept : p(o.p) { o.p = nullptr; }
    ChunkP &operator=(ChunkP o) { std::swap(p, o.p); return *this; }
    ~ChunkP() { if (p && --p->refs == 0) delete p; }
};
static const int SHIFT = 24; // address = (object number + 1) << SHIFT | offset
struct Memory {
    std::vector<ChunkP> ch; uint32_t n = 0;
    uint32_t add(Obj *o) {
        uint32_t i = n++;
        if (i / CH >= ch.size()) ch.push_back(ChunkP(new Chunk));
        wr(i) = ObjP(o);
        return i;
    }
    Obj *get(uint32_t i) const { return i < n ? ch[i / CH].p->o[i % CH].p : nullptr; }
    ObjP &wr(uint32_t i) {
        ChunkP &c = ch[i / CH];
        if (c.p->refs > 1) { Chunk *k = new Chunk; for (int j = 0; j < CH; j++) k->o[j] = c.p->o[j]; c = ChunkP(k); }
        return c.p->o[i % CH];
    }
    Obj *getw(uint32_t i) {
        ObjP &o = wr(i);
        if (o.p->refs > 1) { Obj *k = new Obj(*o.p); k->refs = 0; o = ObjP(k); }
        return o.p;
    }
};
static inline u64 addrOf(uint32_t id) { return (u64)(id + 1) << SHIFT; }

// ---------------------------------------------------------------- compiled code
struct Opnd { int reg = -1; u64 c = 0; };
struct CFunc;
struct CInst {
    unsigned op; unsigned w = 0, w2 = 0; int dst = -1; unsigned pred = 0;
    std::vector<Opnd> ops; std::vector<u64> k; std::vector<int> bb;
    const Instruction *I = nullptr; CFunc *callee = nullptr; int intr = -1; std::vector<unsigned> ow;
};
struct CPhi { int dst; std::vector<std::pair<int, Opnd>> in; };
struct CBlock { std::vector<CPhi> phis; int start; };
struct CFunc {
    Function *F = nullptr; bool compiled = false; int nregs = 0; std::vector<CInst> code; std::vector<CBlock> blocks;
    int intr = -1; std::string name; bool entered = false; u64 addr = 0; bool vararg = false; int nargs = 0;
};
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::map<const Function *, CFunc *> funcs;
static std::unordered_map<u64, CFunc *> funcAt;
static std::unordered_map<const GlobalVariable *, u64> globAddr;

enum { X_MALLOC = 1, X_CALLOC, X_REALLOC, X_FREE, X_MEMCPY, X_MEMMOVE, X_MEMSET, X_INT, X_ASSUME, X_ASSERT, X_WITNESS, X_CONC,
       X_VASTART, X_VAEND, X_VACOPY, X_NOP, X_SMAX, X_SMIN, X_UMAX, X_UMIN, X_ABS, X_EXPECT, X_TRAP, X_USUBSAT, X_UADDSAT,
       X_OBJSIZE, X_ISCONST, X_BSWAP, X_CTPOP, X_FSHL, X_LLASSUME, X_ABORT, X_ALIVE, X_BOUND, X_ISSYM, X_STRLEN, X_EITHER, X_LOG, X_SSUBSAT,
       X_FSHR, X_CTLZ, X_CTTZ, X_UADDO, X_USUBO, X_UMULO, X_SADDO, X_SSUBO, X_SMULO };
static std::set<std::string> externsMissing;

static int intrinsicOf(StringRef n)
{
    static const std::map<std::string, int> m = {
        {"malloc", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC}, {"free", X_FREE}, {"memcpy", X_MEMCPY}, {"memmove", X_MEMMOVE},
        {"memset", X_MEMSET}, {"vp_int", X_INT}, {"vp_assume_", X_ASSUME}, {"vp_assert_", X_ASSERT}, {"vp_witness_", X_WITNESS},
        {"vp_conc_", X_CONC}, {"abort", X_ABORT}, {"vp_alive_", X_ALIVE}, {"vp_bound_", X_BOUND}, {"vp_issym_", X_ISSYM}, {"vp_log_", X_LOG}};
    auto it = m.find(n.str());
    if (it != m.end()) return it->second;
    if (!n.starts_with("llvm.")) return -1;
    auto p = [&](const char *s) { return n.starts_with(s); };
    if (p("llvm.memcpy")) return X_MEMCPY;
    if (p("llvm.memmove")) return X_MEMMOVE;
    if (p("llvm.memset")) return X_MEMSET;
    if (p("llvm.dbg") || p("llvm.lifetime") || p("llvm.donothing") || p("llvm.experimental.noalias") || p("llvm.invariant") || p("llvm.stacksave") || p("llvm.stackrestore") || p("llvm.prefetch")) return X_NOP;
    if (p("llvm.va_start")) return X_VASTART;
    if (p("llvm.va_end")) return X_VAEND;
    if (p("llvm.va_copy")) return X_VACOPY;
    if (p("llvm.smax")) return X_SMAX;
    if (p("llvm.smin")) return X_SMIN;
    if (p("llvm.umax")) return X_UMAX;
    if (p("llvm.umin")) return X_UMIN;
    if (p("llvm.abs")) return X_ABS;
    if (p("llvm.expect")) return X_EXPECT;
    if (p("llvm.trap") || p("llvm.ubsantrap")) return X_TRAP;
    if (p("llvm.usub.sat")) return X_USUBSAT;
    if (p("llvm.uadd.sat")) return X_UADDSAT;
    if (p("llvm.objectsize")) return X_OBJSIZE;
    if (p("llvm.is.constant")) return X_ISCONST;
    if (p("llvm.bswap")) return X_BSWAP;
    if (p("llvm.ctpop")) return X_CTPOP;
    if (p("llvm.fshl")) return X_FSHL;
    if (p("llvm.fshr")) return X_FSHR;
    if (p("llvm.ctlz")) return X_CTLZ;
    if (p("llvm.cttz")) return X_CTTZ;
    if (p("llvm.uadd.with.overflow")) return X_UADDO;
    if (p("llvm.usub.with.overflow")) return X_USUBO;
    if (p("llvm.umul.with.overflow")) return X_UMULO;
    if (p("llvm.sadd.with.overflow")) return X_SADDO;
    if (p("llvm.ssub.with.overflow")) return X_SSUBO;
    if (p("llvm.smul.with.overflow")) return X_SMULO;
    if (p("llvm.assume")) return X_LLASSUME;
    return -1;
}
static double fpVal(u64 b, unsigned w) { double d; float g; if (w == 32) { uint32_t x = (uint32_t)b; memcpy(&g, &x, 4); return g; } memcpy(&d, &b, 8); return d; }
static u64 fpBits(double d, unsigned w) { u64 b = 0; float g = (float)d; if (w == 32) memcpy(&b, &g, 4); else memcpy(&b, &d, 8); return b; }
static unsigned widthOf(Type *t)
{
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy() || t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
}
static CFunc *cfuncOf(Function *F)
{
    auto &p = funcs[F];
    if (!p) { p = new CFunc; p->F = F; p->name = F->getName().str(); p->intr = intrinsicOf(F->getName()); p->vararg = F->isVarArg(); p->nargs = F->arg_size(); }
    return p;
}
static u64 constVal(const Constant *c)
{
    if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getLimitedValue();
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto *g = dyn_cast<GlobalVariable>(c)) {
        auto it = globAddr.find(g);
        if (it == globAddr.end()) { fprintf(stderr, "symx: no address for %s\n", g->getName().str().c_str()); exit(3); }
        return it->second;
    }
    if (auto *f = dyn_cast<Function>(c)) return cfuncOf(const_cast<Function *>(f))->addr;
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return constVal(ce->getOperand(0)) + off.getSExtValue();
            break;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: return constVal(ce->getOperand(0)) & mask(widthOf(ce->getType()));
        case Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & mask(widthOf(ce->getType()));
        case Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & mask(widthOf(ce->getType()));
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    fprintf(stderr, "symx: unsupported constant %s\n", s.c_str()); exit(3);
}
static void initBytes(std::vector<uint8_t> &b, u64 off, const Constant *c)
{
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cd->getRawDataValues();
        memcpy(&b[off], r.data(), r.size());
        return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        auto *sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(b, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(b, off + i * es, ca->getOperand(i));
        return;
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        u64 v = cf->getValueAPF().bitcastToAPInt().getLimitedValue(); memcpy(&b[off], &v, DL->getTypeStoreSize(t)); return;
    }
    u64 v = constVal(c), n = DL->getTypeStoreSize(t);
    memcpy(&b[off], &v, n);
}

static void compile(CFunc *cf)
{
    Function &F = *cf->F;
    cf->compiled = true;
    std::map<const Value *, int> reg;
    std::map<const BasicBlock *, int> bbi;
    int n = 0;
    for (auto &a : F.args()) reg[&a] = n++;
    int nb = 0;
    for (auto &bb : F) { bbi[&bb] = nb++; for (auto &I : bb) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
    cf->nregs = n;
    auto opnd = [&](const Value *v) {
        Opnd o;
        auto it = reg.find(v);
        if (it != reg.end()) { o.reg = it->second; return o; }
        if (isa<MetadataAsValue>(v) || v->getType()->isMetadataTy()) return o;
        if (v->getType()->isFloatingPointTy()) {
            if (auto *cfp = dyn_cast<ConstantFP>(v)) o.c = cfp->getValueAPF().bitcastToAPInt().getLimitedValue();
            return o;
        }
        if (auto *c = dyn_cast<Constant>(v)) { o.c = widthOf(v->getType()) || v->getType()->isPointerTy() ? constVal(c) & mask(widthOf(v->getType())) : 0; return o; }
        return o;
    };
    cf->blocks.resize(nb);
    for (auto &bb : F) {
        CBlock &cb = cf->blocks[bbi[&bb]];
        for (auto &ph : bb.phis()) {
            CPhi p; p.dst = reg[&ph];
            for (unsigned i = 0; i < ph.getNumIncomingValues(); i++) p.in.push_back({bbi[ph.getIncomingBlock(i)], opnd(ph.getIncomingValue(i))});
            cb.phis.push_back(p);
        }
        cb.start = cf->code.size();
        for (auto &I : bb) {
            if (isa<PHINode>(I)) continue;
            CInst ci; ci.op = I.getOpcode(); ci.I = &I; ci.w = widthOf(I.getType());
            if (!I.getType()->isVoidTy()) ci.dst = reg[&I];
            if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                ci.ops.push_back(opnd(g->getPointerOperand()));
                u64 off = 0;
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value *ix = gi.getOperand();
                    if (StructType *st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    u64 es = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto *cix = dyn_cast<ConstantInt>(ix)) { off += cix->getSExtValue() * es; continue; }
                    ci.ops.push_back(opnd(ix)); ci.ow.push_back(widthOf(ix->getType())); ci.k.push_back(es);
                }
                ci.k.push_back(off);
            } else if (auto *br = dyn_cast<BranchInst>(&I)) {
                if (br->isConditional()) { ci.ops.push_back(opnd(br->getCondition())); ci.bb = {bbi[br->getSuccessor(0)], bbi[br->getSuccessor(1)]}; }
                else ci.bb = {bbi[br->getSuccessor(0)]};
            } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                ci.ops.push_back(opnd(sw->getCondition())); ci.w = widthOf(sw->getCondition()->getType());
                ci.bb.push_back(bbi[sw->getDefaultDest()]);
                for (auto &c : sw->cases()) { ci.k.push_back(c.getCaseValue()->getValue().getLimitedValue()); ci.bb.push_back(bbi[c.getCaseSuccessor()]); }
            } else if (auto *cb2 = dyn_cast<CallBase>(&I)) {
                Function *cal = dyn_cast<Function>(cb2->getCalledOperand()->stripPointerCasts());
                if (cal && cal->getName().starts_with("llvm.dbg")) continue;
                if (cal) { ci.callee = cfuncOf(cal); ci.intr = ci.callee->intr; if (ci.intr == X_NOP) continue; }
                else ci.ops.push_back(opnd(cb2->getCalledOperand()));
                for (auto &a : cb2->args()) { ci.ops.push_back(opnd(a)); ci.ow.push_back(a->getType()->isDoubleTy() ? 64 : widthOf(a->getType())); }
            } else {
                for (auto &o : I.operands()) ci.ops.push_back(opnd(o));
                if (auto *c = dyn_cast<ICmpInst>(&I)) { ci.pred = c->getPredicate(); ci.w = widthOf(c->getOperand(0)->getType()); }
                if (isa<CastInst>(I)) ci.w2 = widthOf(I.getOperand(0)->getType());
                if (auto *iv = dyn_cast<InsertValueInst>(&I)) { if (iv->getNumIndices() == 1 && (ci.ops[0].reg >= 0 || isa<UndefValue>(iv->getOperand(0)) || isa<ConstantAggregateZero>(iv->getOperand(0)))) ci.k.push_back(iv->getIndices()[0]); else ci.op = 0; }
                if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { if (ev->getNumIndices() == 1) ci.k.push_back(ev->getIndices()[0]); else ci.op = 0; }
                if (isa<StoreInst>(I)) ci.w = widthOf(I.getOperand(0)->getType());
                if (auto *al = dyn_cast<AllocaInst>(&I)) ci.k.push_back(DL->getTypeAllocSize(al->getAllocatedType()));
                if (isa<ReturnInst>(I) && I.getNumOperands()) ci.w = widthOf(I.getOperand(0)->getType());
            }
            cf->code.push_back(ci);
        }
    }
}

// ---------------------------------------------------------------- state
struct Frame {
    CFunc *f; int pc = 0, bb = 0, prev = -1; std::vector<Val> r; std::vector<uint32_t> objs; std::vector<Val> va; std::vector<unsigned> vaw; 
    int retReg = -1; 
};
struct State {
    std::vector<Frame> st; Memory mem; std::vector<E> cons; Model model; std::vector<char> fixed; std::vector<E> inputs; std::vector<unsigned> varw;
    u64 insts = 0; std::vector<std::string> log;
};
static std::vector<State *> work;

// ---------------------------------------------------------------- solver
static Z3_context Z; static Z3_solver S;
static std::unordered_map<u64, Z3_ast> varAst;
static u64 nQueries = 0, nCacheHits = 0, nSat = 0, nUnsat = 0, nUnknown = 0; static double solverTime = 0, maxQuery = 0;
static Z3_ast z3of(E e)
{
    if (e->z) return e->z;
    Z3_ast r = nullptr, a = e->a ? z3of(e->a) : nullptr, b = e->b ? z3of(e->b) : nullptr, c = e->c ? z3of(e->c) : nullptr;
    auto toBv = [&](Z3_ast p) { Z3_sort s = Z3_mk_bv_sort(Z, 1); return Z3_mk_ite(Z, p, Z3_mk_unsigned_int64(Z, 1, s), Z3_mk_unsigned_int64(Z, 0, s)); };
    switch (e->op) {
    case CONST: r = Z3_mk_unsigned_int64(Z, e->val, Z3_mk_bv_sort(Z, e->w)); break;
    case VAR: { char nm[40]; snprintf(nm, sizeof nm, "i%llu_%u", (unsigned long long)e->val, e->w);
        r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bv_sort(Z, e->w)); break; }
    case ADD: r = Z3_mk_bvadd(Z, a, b); break;
    case SUB: r = Z3_mk_bvsub(Z, a, b); break;
    case MUL: r = Z3_mk_bvmul(Z, a, b); break;
    case UDIV: r = Z3_mk_bvudiv(Z, a, b); break;
    case SDIV: r = Z3_mk_bvsdiv(Z, a, b); break;
    case UREM: r = Z3_mk_bvurem(Z, a, b); break;
    case SREM: r = Z3_mk_bvsrem(Z, a, b); break;
    case AND: r = Z3_mk_bvand(Z, a, b); break;
    case OR: r = Z3_mk_bvor(Z, a, b); break;
    case XOR: r = Z3_mk_bvxor(Z, a, b); break;
    case SHL: r = Z3_mk_bvshl(Z, a, b); break;
    case LSHR: r = Z3_mk_bvlshr(Z, a, b); break;
    case ASHR: r = Z3_mk_bvashr(Z, a, b); break;
    case EQ: r = toBv(Z3_mk_eq(Z, a, b)); break;
    case ULT: r = toBv(Z3_mk_bvult(Z, a, b)); break;
    case ULE: r = toBv(Z3_mk_bvule(Z, a, b)); break;
    case SLT: r = toBv(Z3_mk_bvslt(Z, a, b)); break;
    case SLE: r = toBv(Z3_mk_bvsle(Z, a, b)); break;
    case CONCAT: r = Z3_mk_concat(Z, a, b); break;
    case EXTRACT: r = Z3_mk_extract(Z, e->val + e->w - 1, e->val, a); break;
    case ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, a); break;
    case SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, a); break;
    case ITE: r = Z3_mk_ite(Z, Z3_mk_eq(Z, a, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1))), b, c); break;
    }
    e->z = r;
    return r;
}
struct QRes { int r; std::vector<std::pair<uint32_t, u64>> m; };
struct KeyHash { size_t operator()(const std::vector<uint32_t> &v) const { u64 h = v.size(); for (auto x : v) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; } return h; } };
static std::unordered_map<std::vector<uint32_t>, QRes, KeyHash> qcache;

// is (constraints of s) && q satisfiable?  On success, *out is a model of both.
// returns 1 sat, 0 unsat, -1 unknown
static int query(State &s, E q, Model *out)
{
    if (isC(q)) { if (q->val && out) *out = s.model; return q->val != 0; }
    // independence: only the constraints connected to q by shared variables
    VarSet reach = *q->vars; std::vector<E> slice; std::vector<char> used(s.cons.size(), 0);
    for (bool ch = true; ch;) {
        ch = false;
        for (size_t i = 0; i < s.cons.size(); i++) {
            if (used[i]) continue;
            const VarSet &v = *s.cons[i]->vars;
            bool hit = false;
            for (auto x : v) if (std::binary_search(reach.begin(), reach.end(), x)) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1; slice.push_back(s.cons[i]);
            size_t old = reach.size();
            VarSet u; std::set_union(reach.begin(), reach.end(), v.begin(), v.end(), std::back_inserter(u));
            reach.swap(u);
            if (reach.size() != old) ch = true;
        }
    }
    std::vector<uint32_t> key; for (E e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end()); key.push_back(q->id | 0x80000000u);
    auto it = qcache.find(key);
    if (it != qcache.end()) nCacheHits++;
    else {
        double t0 = now();
        Z3_solver_push(Z, S);
        Z3_ast one = Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1));
        for (E e : slice) Z3_solver_assert(Z, S, Z3_mk_eq(Z, z3of(e), one));
        Z3_solver_assert(Z, S, Z3_mk_eq(Z, z3of(q), one));
        Z3_lbool r = Z3_solver_check(Z, S);
        QRes qr; qr.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (r == Z3_L_TRUE) {
            Z3_model m = Z3_solver_get_model(Z, S); Z3_model_inc_ref(Z, m);
            for (auto x : reach) {
                Z3_ast v; Z3_ast va = z3of(mkVar(x, s.varw[x]));
                u64 val = 0;
                if (Z3_model_eval(Z, m, va, true, &v) && Z3_get_ast_kind(Z, v) == Z3_NUMERAL_AST) { uint64_t t; if (Z3_get_numeral_uint64(Z, v, &t)) val = t; }
                qr.m.push_back({x, val});
            }
            Z3_model_dec_ref(Z, m);
            nSat++;
        } else if (r == Z3_L_FALSE) nUnsat++; else nUnknown++;
        Z3_solver_pop(Z, S, 1);
        double dt = now() - t0; solverTime += dt; if (dt > maxQuery) maxQuery = dt;
        nQueries++;
        it = qcache.emplace(std::move(key), std::move(qr)).first;
    }
    if (it->second.r == 1 && out) { *out = s.model; for (auto &p : it->second.m) { if (out->size() <= p.first) out->resize(p.first + 1); (*out)[p.first] = p.second; } }
    return it->second.r;
}
static bool allFixed(const State &s, E e) { for (auto v : *e->vars) if (!s.fixed[v]) return false; return true; }
static void noteFixed(State &s, E c)
{
    // c == 1 was asserted: does it pin a variable?
    if (c->op == EQ && isC(c->b) && c->a->vars->size() == 1) {
        uint32_t v = (*c->a->vars)[0];
        if (s.fixed[v]) return;
        E x = c->a;
        while (x->op == ZEXT || x->op == SEXT || (x->op == ADD && isC(x->b)) || (x->op == XOR && isC(x->b))) x = x->a;
        if (x->op == VAR) { s.fixed[v] = 1; return; }
        E ve = mkVar(v, s.varw[v]);
        if (query(s, mkNot(mkBin(EQ, ve, mkConst(s.model[v], s.varw[v]))), nullptr) == 0) s.fixed[v] = 1;
    } else if (c->op == AND && c->w == 1) { noteFixed(s, c->a); noteFixed(s, c->b); }
}
static void addCons(State &s, E c) { if (isC(c)) return; for (E x : s.cons) if (x == c) return; s.cons.push_back(c); noteFixed(s, c); }

// ---------------------------------------------------------------- reports
struct Report { std::string kind, msg, loc, stack; std::vector<int64_t> inputs; std::vector<std::string> log; };
static std::vector<Report> violations, witnesses; static std::map<std::string, int> vkeys; static std::set<std::string> wkeys; static std::map<std::string, u64> errors;
static std::map<std::string, u64> assertChecks;
static u64 nPaths = 0, nDone = 0, nAssumed = 0, nForks = 0, nInsts = 0;

static std::string locOf(const CInst *ci)
{
    if (ci && ci->I) if (auto &dl = ci->I->getDebugLoc()) { auto *sc = cast<DIScope>(dl.getScope()); return sc->getFilename().str() + ":" + std::to_string(dl.getLine()); }
    return "?";
}
static const CInst *curInst(const Frame &f) { return f.pc >= 0 && f.pc < (int)f.f->code.size() ? &f.f->code[f.pc] : nullptr; }
static std::string stackOf(const State &s)
{
    std::string r;
    for (int i = (int)s.st.size() - 1; i >= 0; i--) { if (!r.empty()) r += " < "; r += s.st[i].f->name + "@" + locOf(curInst(s.st[i])); }
    return r;
}
static std::vector<int64_t> inputsOf(const State &s, const Model &m)
{
    std::vector<int64_t> r; for (E e : s.inputs) r.push_back(sx(evalE(e, m), e->w)); return r;
}
static void report(State &s, const char *kind, const std::string &msg, const Model &m)
{
    std::string loc = locOf(curInst(s.st.back()));
    std::string key = std::string(kind) + "|" + msg + "|" + loc;
    if (vkeys[key]++ >= optPerKey) return;
    violations.push_back({kind, msg, loc, stackOf(s), inputsOf(s, m), s.log});
}
static void errorAt(State &s, const std::string &msg) { errors[msg + " at " + stackOf(s)]++; }

struct PathEnd {};  // this path is over
struct Retry {};    // execute the current instruction again (state was constrained)

static State *forkState(State &s) { nForks++; State *t = new State(s); return t; }

static u64 concretize(State &s, const Val &v, unsigned w)
{
    if (!v.sym()) return v.c;
    u64 k = evalE(v.e, s.model);
    if (allFixed(s, v.e)) return k;
    E eq = mkBin(EQ, v.e, mkConst(k, w));
    Model m; int r = query(s, mkNot(eq), &m);
    if (r == 1) { State *t = forkState(s); t->model = m; addCons(*t, mkNot(eq)); work.push_back(t); }
    else if (r < 0) errors["solver gave no answer (concretization)"]++;
    addCons(s, eq);
    return k;
}
static bool decide(State &s, E c, bool retryOther)
{
    // branch on c: the other feasible side re-executes the current instruction
    if (isC(c)) return c->val;
    bool b = evalE(c, s.model);
    if (allFixed(s, c)) return b;
    E side = b ? c : mkNot(c), other = b ? mkNot(c) : c;
    Model m; int r = query(s, other, &m);
    if (r == 1) { State *t = forkState(s); t->model = m; addCons(*t, other); work.push_back(t); addCons(s, side); }
    else if (r < 0) { errors["solver gave no answer (branch)"]++; addCons(s, side); }
    return b;
}

// ---------------------------------------------------------------- memory access
static std::string describe(State &s, u64 a, u64 n)
{
    u64 id = a >> SHIFT;
    Obj *o = id ? s.mem.get(id - 1) : nullptr;
    char b[200];
    if (!o) snprintf(b, sizeof b, "%s of %llu bytes", id == 0 ? "null pointer dereference" : "wild pointer dereference", (unsigned long long)n);
    else if (!o->alive) snprintf(b, sizeof b, "%s (object '%s')", o->kind == K_STACK ? "use after return" : "use after free", o->name);
    else snprintf(b, sizeof b, "access out of bounds: %llu bytes at offset %lld of object '%s' of %u bytes", (unsigned long long)n, (long long)sx(a & mask(SHIFT), SHIFT), o->name, o->size);
    return b;
}
static uint32_t checkAccess(State &s, u64 a, u64 n, bool write)
{
    u64 id = a >> SHIFT, off = a & mask(SHIFT);
    Obj *o = id ? s.mem.get(id - 1) : nullptr;
    if (!o || !o->alive || o->kind == K_FUNC || off > o->size || n > o->size - off) { report(s, "memory", (write ? "write: " : "read: ") + describe(s, a, n), s.model); throw PathEnd(); }
    if (write && o->ro) { report(s, "memory", std::string("write to constant '") + o->name + "'", s.model); throw PathEnd(); }
    return id - 1;
}
static Val rd(const Obj *o, u64 off, unsigned bytes)
{
    bool symb = false;
    if (!o->s.empty()) for (unsigned i = 0; i < bytes; i++) if (o->s[off + i]) { symb = true; break; }
    if (!symb) { u64 v = 0; memcpy(&v, &o->c[off], bytes); return Val(v); }
    E r = nullptr;
    for (int i = bytes - 1; i >= 0; i--) { E b = o->s[off + i] ? o->s[off + i] : mkConst(o->c[off + i], 8); r = r ? mkConcat(r, b) : b; }
    return Val(r, 0);
}
static void wrv(Obj *o, u64 off, unsigned bytes, const Val &v)
{
    if (!v.sym()) { memcpy(&o->c[off], &v.c, bytes); if (!o->s.empty()) for (unsigned i = 0; i < bytes; i++) o->s[off + i] = nullptr; return; }
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    for (unsigned i = 0; i < bytes; i++) { E b = mkExtract(v.e, i * 8, 8); if (isC(b)) { o->c[off + i] = b->val; o->s[off + i] = nullptr; } else o->s[off + i] = b; }
}
static Val loadMem(State &s, const Val &p, unsigned w)
{
    unsigned bytes = (w + 7) / 8;
    Val v;
    if (p.sym() && !allFixed(s, p.e)) {
        // read of a constant table at a symbolic offset: one value, no fork
        u64 a0 = evalE(p.e, s.model), id = a0 >> SHIFT;
        Obj *o = id ? s.mem.get(id - 1) : nullptr;
        if (o && o->alive && o->ro && o->size <= 2048 && o->s.empty() && o->size >= bytes) {
            u64 base = addrOf(id - 1);
            E off = mkBin(SUB, p.e, mkConst(base, 64));
            E bad = mkBin(ULT, mkConst(o->size - bytes, 64), off);
            Model m; int r = query(s, bad, &m);
            if (r == 0) {
                // runs of equal values become range tests
                struct Run { u64 lo, hi, v; }; std::vector<Run> runs;
                for (u64 i = 0; i + bytes <= o->size; i++) {
                    u64 x = 0; memcpy(&x, &o->c[i], bytes);
                    E c = mkBin(EQ, off, mkConst(i, 64));
                    if (isC(c) && !c->val) continue;
                    if (!runs.empty() && runs.back().v == x) runs.back().hi = i; else runs.push_back({i, i, x});
                }
                E res = nullptr;
                for (size_t i = runs.size(); i-- > 0;) { E k = mkConst(runs[i].v, bytes * 8); res = res ? mkIte(mkBin(ULE, off, mkConst(runs[i].hi, 64)), k, res) : k; }
                if (w < bytes * 8) res = mkExtract(res, 0, w);
                if (isC(res)) return Val(res, 0);
                // few distinct values: one path per value keeps what follows simple
                std::set<u64> vals; for (auto &r2 : runs) vals.insert(r2.v);
                if (vals.size() <= 16) return Val(concretize(s, Val(res, 0), w));
                return Val(res, 0);
            }
        }
    }
    u64 a = concretize(s, p, 64);
    uint32_t id = checkAccess(s, a, bytes, false);
    v = rd(s.mem.get(id), a & mask(SHIFT), bytes);
    if (w < bytes * 8) { if (v.sym()) v = Val(mkExtract(v.e, 0, w), 0); else v.c &= mask(w); }
    return v;
}
static void storeMem(State &s, const Val &p, const Val &v0, unsigned w)
{
    unsigned bytes = (w + 7) / 8;
    u64 a = concretize(s, p, 64);
    uint32_t id = checkAccess(s, a, bytes, true);
    Val v = v0;
    if (w < bytes * 8 && v.sym()) v = Val(mkZext(v.e, bytes * 8), 0);
    wrv(s.mem.getw(id), a & mask(SHIFT), bytes, v);
}
static uint32_t newObj(State &s, u64 size, Kind k, const char *name, uint8_t fill)
{
    if (size >= (1u << 22)) { errorAt(s, "allocation too large"); throw PathEnd(); }
    Obj *o = new Obj; o->size = size; o->kind = k; o->name = name; o->c.assign(size, fill);
    return s.mem.add(o);
}
static std::string cstr(State &s, u64 a)
{
    std::string r;
    u64 id = a >> SHIFT; Obj *o = id ? s.mem.get(id - 1) : nullptr;
    if (!o) return "?";
    for (u64 i = a & mask(SHIFT); i < o->size && o->c[i]; i++) r += (char)o->c[i];
    return r;
}

// ---------------------------------------------------------------- execution
// small structures returned by value: a register holds an index into this
static std::vector<std::vector<Val>> aggs(1);
static inline Val get(State &s, Frame &f, const Opnd &o)
{
    if (o.reg < 0) return Val(o.c);
    const Val &v = f.r[o.reg];
    if (v.sym() && allFixed(s, v.e)) return Val(evalE(v.e, s.model));
    return v;
}
static Val binop(State &s, unsigned op, unsigned w, const Val &a, const Val &b)
{
    Op o;
    switch (op) {
    case Instruction::Add: o = ADD; break; case Instruction::Sub: o = SUB; break; case Instruction::Mul: o = MUL; break;
    case Instruction::UDiv: o = UDIV; break; case Instruction::SDiv: o = SDIV; break; case Instruction::URem: o = UREM; break; case Instruction::SRem: o = SREM; break;
    case Instruction::And: o = AND; break; case Instruction::Or: o = OR; break; case Instruction::Xor: o = XOR; break;
    case Instruction::Shl: o = SHL; break; case Instruction::LShr: o = LSHR; break; case Instruction::AShr: o = ASHR; break;
    default: errorAt(s, "unsupported binary operator"); throw PathEnd();
    }
    if (o == UDIV || o == SDIV || o == UREM || o == SREM) {
        if (!b.sym() && b.c == 0) { report(s, "division", "division by zero", s.model); throw PathEnd(); }
        if (b.sym()) {
            E z = mkBin(EQ, b.e, mkConst(0, w)); Model m;
            if (query(s, z, &m) == 1) { report(s, "division", "division by zero", m);
                if (query(s, mkNot(z), &m) != 1) throw PathEnd();
                s.model = m; addCons(s, mkNot(z)); }
        }
    }
    u64 r;
    if (!a.sym() && !b.sym() && foldBin(o, w, a.c, b.c, r)) return Val(r);
    return Val(mkBin(o, toE(a, w), toE(b, w)), 0);
}
static Val icmp(unsigned p, unsigned w, const Val &a, const Val &b)
{
    Op o; bool sw = false, neg = false;
    switch (p) {
    case CmpInst::ICMP_EQ: o = EQ; break; case CmpInst::ICMP_NE: o = EQ; neg = true; break;
    case CmpInst::ICMP_ULT: o = ULT; break; case CmpInst::ICMP_ULE: o = ULE; break; case CmpInst::ICMP_UGT: o = ULT; sw = true; break; case CmpInst::ICMP_UGE: o = ULE; sw = true; break;
    case CmpInst::ICMP_SLT: o = SLT; break; case CmpInst::ICMP_SLE: o = SLE; break; case CmpInst::ICMP_SGT: o = SLT; sw = true; break; default: o = SLE; sw = true; break;
    }
    const Val &x = sw ? b : a, &y = sw ? a : b;
    if (!x.sym() && !y.sym()) { u64 r; foldBin(o, w, x.c, y.c, r); return Val(neg ? !r : r); }
    E e = mkBin(o, toE(x, w), toE(y, w));
    return Val(neg ? mkNot(e) : e, 0);
}
static void jump(State &s, Frame &f, int to)
{
    CBlock &b = f.f->blocks[to];
    int from = f.bb;
    if (!b.phis.empty()) {
        std::vector<Val> tmp; tmp.reserve(b.phis.size());
        for (auto &p : b.phis) { const Opnd *o = nullptr; for (auto &q : p.in) if (q.first == from) { o = &q.second; break; } tmp.push_back(get(s, f, *o)); }
        for (size_t i = 0; i < tmp.size(); i++) f.r[b.phis[i].dst] = tmp[i];
    }
    f.prev = from; f.bb = to; f.pc = b.start;
}
static void doCall(State &s, CFunc *cf, std::vector<Val> args, std::vector<unsigned> ws, int ret)
{
    if (!cf->F || cf->F->isDeclaration()) { externsMissing.insert(cf->name); errorAt(s, "call of unmodelled function " + cf->name); throw PathEnd(); }
    if (!cf->compiled) compile(cf);
    cf->entered = true;
    if (s.st.size() > 400) { report(s, "hang", "recursion deeper than 400 calls", s.model); throw PathEnd(); }
    Frame nf; nf.f = cf; nf.r.resize(cf->nregs); nf.retReg = ret;
    for (size_t i = 0; i < args.size(); i++) {
        if ((int)i < cf->nargs) nf.r[i] = args[i];
        else { nf.va.push_back(args[i]); nf.vaw.push_back(ws[i]); }
    }
    nf.bb = 0; nf.pc = cf->blocks[0].start;
    if (optTraceCalls) fprintf(stderr, "%*s%s\n", (int)s.st.size(), "", cf->name.c_str());
    s.st.push_back(std::move(nf));
}
static void copyMem(State &s, u64 d, u64 src, u64 n, bool move)
{
    if (!n) return;
    uint32_t si = checkAccess(s, src, n, false), di = checkAccess(s, d, n, true);
    u64 so = src & mask(SHIFT), dof = d & mask(SHIFT);
    if (!move && si == di && so != dof && so < dof + n && dof < so + n) { report(s, "memory", "memcpy of overlapping regions", s.model); throw PathEnd(); }
    ObjP keep(s.mem.get(si)); // copy-on-write protects the source
    Obj *dst = s.mem.getw(di); const Obj *sr = keep.p;
    memmove(&dst->c[dof], &sr->c[so], n);
    if (!sr->s.empty() || !dst->s.empty()) {
        if (dst->s.empty()) dst->s.assign(dst->size, nullptr);
        for (u64 i = 0; i < n; i++) dst->s[dof + i] = sr->s.empty() ? nullptr : sr->s[so + i];
    }
}
static Val ite(const Val &c, const Val &a, const Val &b, unsigned w)
{
    if (!c.sym()) return c.c ? a : b;
    return Val(mkIte(c.e, toE(a, w), toE(b, w)), 0);
}

static void setRet(Frame &f, const CInst &ci, Val v) { if (ci.dst >= 0) f.r[ci.dst] = v; }

// returns with pc advanced, or throws PathEnd
static void intrinsic(State &s, Frame &f, const CInst &ci, int x, std::vector<Val> &a)
{
    unsigned w = ci.w;
    switch (x) {
    case X_INT: {
        int64_t lo = sx(concretize(s, a[0], 32), 32), hi = sx(concretize(s, a[1], 32), 32);
        if (lo > hi) throw PathEnd();
        u64 span = (u64)(hi - lo);
        if (span == 0) { s.inputs.push_back(mkConst((u64)lo, 32)); setRet(f, ci, Val((u64)lo & mask(32))); break; }
        unsigned vw = span < 256 ? 8 : span < 65536 ? 16 : 32;
        uint32_t idx = s.varw.size();
        s.varw.push_back(vw); s.fixed.push_back(0);
        E v = mkVar(idx, vw), val;
        s.model.resize(idx + 1);
        if (lo >= 0 && (u64)hi <= mask(vw)) { // the variable is the value itself
            s.model[idx] = lo;
            if (lo) addCons(s, mkBin(ULE, mkConst(lo, vw), v));
            if ((u64)hi != mask(vw)) addCons(s, mkBin(ULE, v, mkConst(hi, vw)));
            val = mkZext(v, 32);
        } else if (lo >= -(1ll << (vw - 1)) && hi < (1ll << (vw - 1))) {
            s.model[idx] = (u64)lo & mask(vw);
            addCons(s, mkBin(SLE, mkConst(lo, vw), v)); addCons(s, mkBin(SLE, v, mkConst(hi, vw)));
            val = mkSext(v, 32);
        } else {
            s.model[idx] = 0;
            addCons(s, mkBin(ULE, v, mkConst(span, vw)));
            val = mkBin(ADD, mkZext(v, 32), mkConst((u64)lo, 32));
        }
        s.inputs.push_back(val);
        setRet(f, ci, Val(val, 0));
        break;
    }
    case X_CONC: { unsigned aw = ci.ow[0]; setRet(f, ci, Val(concretize(s, a[0], aw))); break; }
    case X_ISSYM: setRet(f, ci, Val((u64)(a[0].sym() && !allFixed(s, a[0].e)))); break;
    case X_LOG: s.log.push_back(cstr(s, a[0].c)); break;
    case X_ASSUME: {
        Val c = a[0];
        if (!c.sym()) { if (!c.c) { nAssumed++; throw PathEnd(); } break; }
        E e = ci.ow[0] == 1 ? c.e : mkNot(mkBin(EQ, c.e, mkConst(0, ci.ow[0])));
        if (!isC(e)) {
            if (!evalE(e, s.model)) { Model m; int r = query(s, e, &m); if (r != 1) { if (r < 0) errors["solver gave no answer (assume)"]++; nAssumed++; throw PathEnd(); } s.model = m; }
            addCons(s, e);
        } else if (!e->val) { nAssumed++; throw PathEnd(); }
        break;
    }
    case X_BOUND: case X_ASSERT: {
        std::string msg = cstr(s, a[1].c);
        const char *kind = x == X_ASSERT ? "assert" : "bound";
        assertChecks[msg]++;
        Val c = a[0];
        if (!c.sym()) { if (!c.c) { report(s, kind, msg, s.model); throw PathEnd(); } break; }
        E e = mkNot(mkBin(EQ, c.e, mkConst(0, ci.ow[0])));
        if (isC(e)) { if (!e->val) { report(s, kind, msg, s.model); throw PathEnd(); } break; }
        Model m; int r = query(s, mkNot(e), &m);
        if (r < 0) errors["solver gave no answer (assertion " + msg + ")"]++;
        if (r == 1) {
            report(s, kind, msg, m);
            Model m2; if (query(s, e, &m2) != 1) throw PathEnd();
            s.model = m2; addCons(s, e);
        }
        break;
    }
    case X_WITNESS: {
        std::string msg = cstr(s, a[1].c);
        if (wkeys.count(msg)) break;
        Val c = a[0]; Model m = s.model;
        if (!c.sym()) { if (!c.c) break; }
        else { E e = mkNot(mkBin(EQ, c.e, mkConst(0, ci.ow[0]))); if (query(s, e, &m) != 1) break; }
        wkeys.insert(msg);
        witnesses.push_back({"witness", msg, locOf(&ci), "", inputsOf(s, m), s.log});
        break;
    }
    case X_MALLOC: { u64 n = concretize(s, a[0], 64); if (n > 1u << 26) { setRet(f, ci, Val(0)); break; } setRet(f, ci, Val(addrOf(newObj(s, n, K_HEAP, "heap", 0xAA)))); break; }
    case X_CALLOC: { u64 n = concretize(s, a[0], 64), k = concretize(s, a[1], 64); if (n > 1u << 26 || k > 1u << 26 || n * k > 1u << 26) { setRet(f, ci, Val(0)); break; } setRet(f, ci, Val(addrOf(newObj(s, n * k, K_HEAP, "heap", 0)))); break; }
    case X_REALLOC: {
        u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
        if (n > 1u << 26) { setRet(f, ci, Val(0)); break; }
        uint32_t id = newObj(s, n, K_HEAP, "heap", 0xAA);
        if (p) {
            uint32_t o = checkAccess(s, p, 0, false); Obj *ob = s.mem.get(o);
            if (ob->kind != K_HEAP || (p & mask(SHIFT))) { report(s, "memory", "realloc of a pointer that is not from malloc", s.model); throw PathEnd(); }
            copyMem(s, addrOf(id), p, std::min<u64>(n, ob->size), false);
            s.mem.getw(o)->alive = false;
        }
        setRet(f, ci, Val(addrOf(id)));
        break;
    }
    case X_FREE: {
        u64 p = concretize(s, a[0], 64);
        if (!p) break;
        u64 id = p >> SHIFT; Obj *o = id ? s.mem.get(id - 1) : nullptr;
        if (!o || o->kind != K_HEAP || (p & mask(SHIFT)) || !o->alive) { report(s, "memory", o && o->kind == K_HEAP && !o->alive ? "double free" : "free of a pointer that is not from malloc", s.model); throw PathEnd(); }
        Obj *d = new Obj; d->size = o->size; d->kind = K_HEAP; d->alive = false; d->name = "heap"; 
        s.mem.wr(id - 1) = ObjP(d);
        break;
    }
    case X_ALIVE: { // number of live heap objects
        u64 n = 0; for (uint32_t i = 0; i < s.mem.n; i++) { Obj *o = s.mem.get(i); if (o && o->kind == K_HEAP && o->alive) n++; }
        setRet(f, ci, Val(n)); break;
    }
    case X_MEMCPY: case X_MEMMOVE: {
        u64 n = concretize(s, a[2], ci.ow[2]), d = concretize(s, a[0], 64), src = concretize(s, a[1], 64);
        copyMem(s, d, src, n, x == X_MEMMOVE); setRet(f, ci, Val(d)); break;
    }
    case X_MEMSET: {
        u64 n = concretize(s, a[2], ci.ow[2]), d = concretize(s, a[0], 64);
        if (n) {
            uint32_t di = checkAccess(s, d, n, true); Obj *o = s.mem.getw(di); u64 off = d & mask(SHIFT);
            if (a[1].sym()) { E b = mkExtract(a[1].e, 0, 8); for (u64 i = 0; i < n; i++) wrv(o, off + i, 1, Val(b, 0)); }
            else { memset(&o->c[off], (int)a[1].c, n); if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr); }
        }
        setRet(f, ci, Val(d)); break;
    }
    case X_VASTART: {
        u64 n = f.va.size() * 8;
        uint32_t id = newObj(s, n ? n : 8, K_STACK, "varargs", 0xAA); s.st.back().objs.push_back(id);
        Obj *o = s.mem.getw(id);
        for (size_t i = 0; i < f.va.size(); i++) {
            Val v = f.va[i]; unsigned vw = f.vaw[i];
            if (v.sym() && vw < 64) v = Val(mkZext(v.e, 64), 0);
            wrv(o, i * 8, 8, v);
        }
        u64 p = concretize(s, a[0], 64);
        storeMem(s, Val(p), Val(48), 32); storeMem(s, Val(p + 4), Val(304), 32); storeMem(s, Val(p + 8), Val(addrOf(id)), 64); storeMem(s, Val(p + 16), Val(0), 64);
        break;
    }
    case X_VACOPY: copyMem(s, concretize(s, a[0], 64), concretize(s, a[1], 64), 24, false); break;
    case X_VAEND: case X_NOP: case X_LLASSUME: break;
    case X_EXPECT: setRet(f, ci, a[0]); break;
    case X_SMAX: setRet(f, ci, ite(icmp(CmpInst::ICMP_SGT, w, a[0], a[1]), a[0], a[1], w)); break;
    case X_SMIN: setRet(f, ci, ite(icmp(CmpInst::ICMP_SLT, w, a[0], a[1]), a[0], a[1], w)); break;
    case X_UMAX: setRet(f, ci, ite(icmp(CmpInst::ICMP_UGT, w, a[0], a[1]), a[0], a[1], w)); break;
    case X_UMIN: setRet(f, ci, ite(icmp(CmpInst::ICMP_ULT, w, a[0], a[1]), a[0], a[1], w)); break;
    case X_ABS: { Val neg = binop(s, Instruction::Sub, w, Val(0), a[0]); setRet(f, ci, ite(icmp(CmpInst::ICMP_SLT, w, a[0], Val(0)), neg, a[0], w)); break; }
    case X_USUBSAT: { Val d = binop(s, Instruction::Sub, w, a[0], a[1]); setRet(f, ci, ite(icmp(CmpInst::ICMP_ULT, w, a[0], a[1]), Val(0), d, w)); break; }
    case X_UADDSAT: { Val d = binop(s, Instruction::Add, w, a[0], a[1]); setRet(f, ci, ite(icmp(CmpInst::ICMP_ULT, w, d, a[0]), Val(mask(w)), d, w)); break; }
    case X_OBJSIZE: setRet(f, ci, Val(mask(w))); break;
    case X_ISCONST: setRet(f, ci, Val(0)); break;
    case X_BSWAP: {
        if (!a[0].sym()) { u64 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((a[0].c >> (8 * i)) & 255) << (w - 8 - 8 * i); setRet(f, ci, Val(r)); }
        else { E r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(a[0].e, 8 * i, 8); r = r ? mkConcat(r, b) : b; } setRet(f, ci, Val(r, 0)); }
        break;
    }
    case X_CTPOP: { u64 v = concretize(s, a[0], w); setRet(f, ci, Val(__builtin_popcountll(v))); break; }
    case X_FSHL: {
        u64 k = concretize(s, a[2], w) % w; if (!k) { setRet(f, ci, a[0]); break; }
        setRet(f, ci, binop(s, Instruction::Or, w, binop(s, Instruction::Shl, w, a[0], Val(k)), binop(s, Instruction::LShr, w, a[1], Val(w - k)))); break;
    }
    case X_FSHR: {
        u64 k = concretize(s, a[2], w) % w; if (!k) { setRet(f, ci, a[1]); break; }
        setRet(f, ci, binop(s, Instruction::Or, w, binop(s, Instruction::Shl, w, a[0], Val(w - k)), binop(s, Instruction::LShr, w, a[1], Val(k)))); break;
    }
    case X_CTLZ: { u64 v = concretize(s, a[0], w); setRet(f, ci, Val(v ? __builtin_clzll(v) - (64 - w) : w)); break; }
    case X_CTTZ: { u64 v = concretize(s, a[0], w); setRet(f, ci, Val(v ? __builtin_ctzll(v) : w)); break; }
    case X_UADDO: case X_USUBO: case X_UMULO: case X_SADDO: case X_SSUBO: case X_SMULO: {
        unsigned aw = ci.ow[0]; Val r, o;
        if (x == X_UADDO) { r = binop(s, Instruction::Add, aw, a[0], a[1]); o = icmp(CmpInst::ICMP_ULT, aw, r, a[0]); }
        else if (x == X_USUBO) { r = binop(s, Instruction::Sub, aw, a[0], a[1]); o = icmp(CmpInst::ICMP_ULT, aw, a[0], a[1]); }
        else if (x == X_SADDO || x == X_SSUBO) {  // the signs say it
            bool sub = x == X_SSUBO; r = binop(s, sub ? Instruction::Sub : Instruction::Add, aw, a[0], a[1]);
            Val p = binop(s, Instruction::Xor, aw, a[0], r), q = sub ? binop(s, Instruction::Xor, aw, a[0], a[1]) : binop(s, Instruction::Xor, aw, a[1], r);
            o = icmp(CmpInst::ICMP_SLT, aw, binop(s, Instruction::And, aw, p, q), Val(0));
        } else {
            u64 p = concretize(s, a[0], aw), q = concretize(s, a[1], aw);
            __int128 t = x == X_UMULO ? (__int128)((unsigned __int128)p * q) : (__int128)sx(p, aw) * sx(q, aw);
            r = Val((u64)t & mask(aw)); o = Val((u64)(x == X_UMULO ? ((unsigned __int128)t >> aw) != 0 : t != (__int128)sx((u64)t & mask(aw), aw)));
        }
        aggs.push_back({r, o}); setRet(f, ci, Val((u64)aggs.size() - 1)); break;
    }
    case X_TRAP: report(s, "ub", "undefined behaviour (array index out of the array's bounds)", s.model); throw PathEnd();
    case X_ABORT: report(s, "abort", "abort() called", s.model); throw PathEnd();
    default: errorAt(s, "intrinsic?"); throw PathEnd();
    }
    f.pc++;
}

static void step(State &s)
{
    Frame &f = s.st.back();
    const CInst &ci = f.f->code[f.pc];
    s.insts++; nInsts++;
    switch (ci.op) {
    case Instruction::Ret: {
        Val v; if (!ci.ops.empty()) v = get(s, f, ci.ops[0]);
        for (auto id : f.objs) { Obj *d = new Obj; Obj *o = s.mem.get(id); d->size = o->size; d->kind = K_STACK; d->alive = false; d->name = o->name; s.mem.wr(id) = ObjP(d); }
        int rr = f.retReg; bool has = !ci.ops.empty();
        s.st.pop_back();
        if (s.st.empty()) return;
        Frame &c = s.st.back();
        if (rr >= 0) { if (!has) v = Val(0); c.r[rr] = v; }
        c.pc++;
        return;
    }
    case Instruction::Br:
        if (ci.ops.empty()) { jump(s, f, ci.bb[0]); return; }
        else {
            Val c = get(s, f, ci.ops[0]);
            bool b = c.sym() ? decide(s, c.e, true) : c.c & 1;
            jump(s, f, ci.bb[b ? 0 : 1]);
            return;
        }
    case Instruction::Switch: {
        Val c = get(s, f, ci.ops[0]);
        if (!c.sym()) {
            for (size_t i = 0; i < ci.k.size(); i++) if (ci.k[i] == c.c) { jump(s, f, ci.bb[i + 1]); return; }
            jump(s, f, ci.bb[0]); return;
        }
        // one case at a time; the "not this case" side re-executes the switch
        u64 k = evalE(c.e, s.model);
        for (size_t i = 0; i < ci.k.size(); i++) if (ci.k[i] == k) { decide(s, mkBin(EQ, c.e, mkConst(k, ci.w)), true); jump(s, f, ci.bb[i + 1]); return; }
        { E none = mkConst(1, 1); for (auto v : ci.k) none = mkBin(AND, none, mkNot(mkBin(EQ, c.e, mkConst(v, ci.w)))); decide(s, none, true); }
        jump(s, f, ci.bb[0]); return;
    }
    case Instruction::Unreachable: report(s, "ub", "control reaches unreachable code", s.model); throw PathEnd();
    case Instruction::ICmp: f.r[ci.dst] = icmp(ci.pred, ci.w, get(s, f, ci.ops[0]), get(s, f, ci.ops[1])); f.pc++; return;
    case Instruction::Select: {
        Val c = get(s, f, ci.ops[0]);
        if (!ci.w) { errorAt(s, "select of unsupported type"); throw PathEnd(); }
        f.r[ci.dst] = ite(c, get(s, f, ci.ops[1]), get(s, f, ci.ops[2]), ci.w); f.pc++; return;
    }
    case Instruction::Load: if (!ci.w || ci.w > 64) { errorAt(s, "load of unsupported type"); throw PathEnd(); }
        f.r[ci.dst] = loadMem(s, get(s, f, ci.ops[0]), ci.w); f.pc++; return;
    case Instruction::Store: if (!ci.w || ci.w > 64) { errorAt(s, "store of unsupported type"); throw PathEnd(); }
        storeMem(s, get(s, f, ci.ops[1]), get(s, f, ci.ops[0]), ci.w); f.pc++; return;
    case Instruction::GetElementPtr: {
        Val p = get(s, f, ci.ops[0]); u64 off = ci.k.back();
        for (size_t i = 1; i < ci.ops.size(); i++) {
            Val x = get(s, f, ci.ops[i]); unsigned xw = ci.ow[i - 1]; u64 es = ci.k[i - 1];
            if (!x.sym()) off += (u64)sx(x.c, xw) * es;
            else { E t = mkBin(MUL, mkSext(x.e, 64), mkConst(es, 64)); p = Val(mkBin(ADD, toE(p, 64), t), 0); }
        }
        if (p.sym()) p = Val(mkBin(ADD, p.e, mkConst(off, 64)), 0); else p.c += off;
        f.r[ci.dst] = p; f.pc++; return;
    }
    case Instruction::Alloca: {
        u64 n = concretize(s, get(s, f, ci.ops[0]), 64) * ci.k[0];
        const char *nm = "stack";
        if (ci.I->hasName()) { static std::map<const Instruction *, std::string> names; auto &q = names[ci.I]; if (q.empty()) q = ci.I->getName().str(); nm = q.c_str(); }
        uint32_t id = newObj(s, n, K_STACK, nm, 0xAA);
        f.objs.push_back(id); f.r[ci.dst] = Val(addrOf(id)); f.pc++; return;
    }
    case Instruction::Trunc: { Val v = get(s, f, ci.ops[0]); f.r[ci.dst] = v.sym() ? Val(mkExtract(v.e, 0, ci.w), 0) : Val(v.c & mask(ci.w)); f.pc++; return; }
    case Instruction::ZExt: { Val v = get(s, f, ci.ops[0]); f.r[ci.dst] = v.sym() ? Val(mkZext(v.e, ci.w), 0) : v; f.pc++; return; }
    case Instruction::SExt: { Val v = get(s, f, ci.ops[0]); f.r[ci.dst] = v.sym() ? Val(mkSext(v.e, ci.w), 0) : Val((u64)sx(v.c, ci.w2) & mask(ci.w)); f.pc++; return; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
        Val v = get(s, f, ci.ops[0]);
        if (!ci.w) { errorAt(s, "cast of unsupported type"); throw PathEnd(); }
        if (ci.w < ci.w2) v = v.sym() ? Val(mkExtract(v.e, 0, ci.w), 0) : Val(v.c & mask(ci.w));
        else if (ci.w > ci.w2 && v.sym()) v = Val(mkZext(v.e, ci.w), 0);
        f.r[ci.dst] = v; f.pc++; return;
    }
    case Instruction::InsertValue: {
        std::vector<Val> v = aggs[get(s, f, ci.ops[0]).c];
        if (v.size() <= ci.k[0]) v.resize(ci.k[0] + 1);
        v[ci.k[0]] = get(s, f, ci.ops[1]);
        aggs.push_back(v);
        f.r[ci.dst] = Val(aggs.size() - 1); f.pc++; return;
    }
    case Instruction::ExtractValue: {
        const std::vector<Val> &v = aggs[get(s, f, ci.ops[0]).c];
        f.r[ci.dst] = ci.k[0] < v.size() ? v[ci.k[0]] : Val(0); f.pc++; return;
    }
    case Instruction::Freeze: f.r[ci.dst] = get(s, f, ci.ops[0]); f.pc++; return;
    case Instruction::Call: {
        CFunc *cf = ci.callee; size_t st = 0;
        if (!cf) {
            u64 a = concretize(s, get(s, f, ci.ops[0]), 64); st = 1;
            auto it = funcAt.find(a);
            if (it == funcAt.end()) { report(s, "memory", "call through a pointer that is no function", s.model); throw PathEnd(); }
            cf = it->second;
        }
        std::vector<Val> args; args.reserve(ci.ops.size());
        for (size_t i = st; i < ci.ops.size(); i++) args.push_back(get(s, f, ci.ops[i]));
        if (cf->intr >= 0) { intrinsic(s, f, ci, cf->intr, args); return; }
        doCall(s, cf, std::move(args), ci.ow, ci.dst);
        return;
    }
    case Instruction::SIToFP: case Instruction::UIToFP: {
        u64 v = concretize(s, get(s, f, ci.ops[0]), ci.w2);
        f.r[ci.dst] = Val(fpBits(ci.op == Instruction::SIToFP ? (double)(int64_t)sx(v, ci.w2) : (double)v, ci.w)); f.pc++; return;
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
        double d = fpVal(concretize(s, get(s, f, ci.ops[0]), ci.w2), ci.w2);
        f.r[ci.dst] = Val((ci.op == Instruction::FPToSI ? (u64)(int64_t)d : (u64)d) & mask(ci.w)); f.pc++; return;
    }
    case Instruction::FPExt: case Instruction::FPTrunc:
        f.r[ci.dst] = Val(fpBits(fpVal(concretize(s, get(s, f, ci.ops[0]), ci.w2), ci.w2), ci.w)); f.pc++; return;
    case Instruction::FNeg: f.r[ci.dst] = Val(fpBits(-fpVal(concretize(s, get(s, f, ci.ops[0]), ci.w), ci.w), ci.w)); f.pc++; return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        double x = fpVal(concretize(s, get(s, f, ci.ops[0]), ci.w), ci.w), y = fpVal(concretize(s, get(s, f, ci.ops[1]), ci.w), ci.w);
        double r = ci.op == Instruction::FAdd ? x + y : ci.op == Instruction::FSub ? x - y : ci.op == Instruction::FMul ? x * y : x / y;
        f.r[ci.dst] = Val(fpBits(r, ci.w)); f.pc++; return;
    }
    case Instruction::FCmp: {
        unsigned w = widthOf(ci.I->getOperand(0)->getType());
        double x = fpVal(concretize(s, get(s, f, ci.ops[0]), w), w), y = fpVal(concretize(s, get(s, f, ci.ops[1]), w), w);
        int uno = x != x || y != y, p = cast<FCmpInst>(ci.I)->getPredicate();     // bits: U L G E
        int r = uno ? (p & 8) != 0 : x == y ? (p & 1) != 0 : x > y ? (p & 2) != 0 : (p & 4) != 0;
        f.r[ci.dst] = Val((u64)r); f.pc++; return;
    }
    default:
        if (ci.I->isBinaryOp()) {
            if (!ci.w || ci.w > 64) { errorAt(s, "binary operator on unsupported type"); throw PathEnd(); }
            f.r[ci.dst] = binop(s, ci.op, ci.w, get(s, f, ci.ops[0]), get(s, f, ci.ops[1])); f.pc++; return; }
        errorAt(s, std::string("unsupported instruction ") + ci.I->getOpcodeName()); throw PathEnd();
    }
}

static std::string js(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
static void jsReports(std::ostream &o, const std::vector<Report> &v)
{
    o << "[";
    for (size_t i = 0; i < v.size(); i++) {
        o << (i ? ",\n" : "\n") << " {\"kind\":" << js(v[i].kind) << ",\"msg\":" << js(v[i].msg) << ",\"loc\":" << js(v[i].loc) << ",\"stack\":" << js(v[i].stack) << ",\"inputs\":[";
        for (size_t k = 0; k < v[i].inputs.size(); k++) o << (k ? "," : "") << v[i].inputs[k];
        o << "],\"log\":[";
        for (size_t k = 0; k < v[i].log.size(); k++) o << (k ? "," : "") << js(v[i].log[k]);
        o << "]}";
    }
    o << "]";
}

int main(int argc, char **argv)
{
    std::string file, out = "/dev/stdout", entry = "harness"; std::vector<std::pair<std::string, long>> sets;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&](const char *p) { return a.substr(strlen(p)); };
        if (a.rfind("--time=", 0) == 0) optTime = atof(val("--time=").c_str());
        else if (a.rfind("--max-paths=", 0) == 0) optMaxPaths = atoll(val("--max-paths=").c_str());
        else if (a.rfind("--max-insts=", 0) == 0) optMaxInsts = atoll(val("--max-insts=").c_str());
        else if (a.rfind("--entry=", 0) == 0) entry = val("--entry=");
        else if (a.rfind("--out=", 0) == 0) out = val("--out=");
        else if (a.rfind("--set=", 0) == 0) { auto p = val("--set="); auto e = p.find('='); sets.push_back({p.substr(0, e), atol(p.c_str() + e + 1)}); }
        else if (a == "--trace-calls") optTraceCalls = true;
        else file = a;
    }
    LLVMContext ctx; SMDiagnostic err;
    M = parseIRFile(file, err, ctx);
    if (!M) { fprintf(stderr, "symx: cannot read %s: %s\n", file.c_str(), err.getMessage().str().c_str()); return 3; }
    DL = &M->getDataLayout();
    Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); S = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, S);
    Z3_params ps = Z3_mk_params(Z); Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "timeout"), 20000);
    Z3_solver_set_params(Z, S, ps);

    State *s0 = new State;
    for (auto &F : *M) {
        CFunc *cf = cfuncOf(&F);
        Obj *o = new Obj; o->kind = K_FUNC; o->size = 0; o->name = cf->name.c_str();
        cf->addr = addrOf(s0->mem.add(o)); funcAt[cf->addr] = cf;
    }
    std::vector<std::pair<GlobalVariable *, uint32_t>> gs;
    for (auto &G : M->globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        Obj *o = new Obj; o->kind = K_GLOBAL; o->size = G.getValueType()->isSized() ? (uint32_t)DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8;
        static std::vector<std::string *> keep; keep.push_back(new std::string(G.getName().str())); o->name = keep.back()->c_str();
        o->c.assign(o->size, 0);
        uint32_t id = s0->mem.add(o); globAddr[&G] = addrOf(id);
        gs.push_back({&G, id});
    }
    for (auto &p : gs) {
        Obj *o = s0->mem.getw(p.second);
        if (p.first->hasInitializer()) { initBytes(o->c, 0, p.first->getInitializer()); o->ro = p.first->isConstant(); }
        else errors["external variable " + p.first->getName().str() + " not defined"] += 0;
        for (auto &st : sets) if (p.first->getName() == st.first) { int v = (int)st.second; memcpy(&o->c[0], &v, 4); }
    }
    Function *ef = M->getFunction(entry);
    if (!ef || ef->isDeclaration()) { fprintf(stderr, "symx: no function %s\n", entry.c_str()); return 3; }
    double t0 = now(); bool complete = true;
    s0->st.reserve(32);
    doCall(*s0, cfuncOf(ef), {}, {}, -1);
    work.push_back(s0);
    while (!work.empty()) {
        State *s = work.back(); work.pop_back();
        nPaths++;
        try {
            while (!s->st.empty()) {
                step(*s);
                if (s->insts > optMaxInsts) { report(*s, "hang", "does not terminate within the instruction bound", s->model); throw PathEnd(); }
                if ((nInsts & 0xffff) == 0 && now() - t0 > optTime) { complete = false; break; }
            }
            if (s->st.empty()) nDone++;
        } catch (PathEnd &) {}
        if (optTraceCalls) fprintf(stderr, "--- path %llu end\n", (unsigned long long)nPaths);
        delete s;
        if (now() - t0 > optTime || nPaths >= optMaxPaths) { if (!work.empty()) complete = false; if (!complete) break; }
    }
    double wall = now() - t0;
    std::ofstream o(out);
    o << "{\"complete\":" << (complete && errors.empty() ? "true" : "false") << ",\"exhausted\":" << (complete ? "true" : "false") << ",\"paths\":" << nPaths << ",\"finished_paths\":" << nDone << ",\"assumed_away\":" << nAssumed << ",\"forks\":" << nForks
      << ",\"instructions\":" << nInsts << ",\"queries\":" << nQueries << ",\"cache_hits\":" << nCacheHits << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat << ",\"unknown\":" << nUnknown
      << ",\"solver_s\":" << solverTime << ",\"max_query_s\":" << maxQuery << ",\"wall_s\":" << wall << ",\"pending\":" << work.size();
    o << ",\n\"violations\":"; jsReports(o, violations);
    o << ",\n\"witnesses\":"; jsReports(o, witnesses);
    o << ",\n\"errors\":{"; { bool f = true; for (auto &e : errors) { o << (f ? "" : ",") << js(e.first) << ":" << e.second; f = false; } } o << "}";
    o << ",\n\"assertions\":{"; { bool f = true; for (auto &e : assertChecks) { o << (f ? "" : ",") << js(e.first) << ":" << e.second; f = false; } } o << "}";
    o << ",\n\"functions\":["; { bool f = true; for (auto &p : funcs) if (p.second->entered && p.second->F->getSubprogram()) { o << (f ? "" : ",") << js(p.second->F->getSubprogram()->getFilename().str() + ":" + p.second->name); f = false; } } o << "]";
    o << ",\n\"missing\":["; { bool f = true; for (auto &e : externsMissing) { o << (f ? "" : ",") << js(e); f = false; } } o << "]}\n";
    o.close();
    std::_Exit(0);
}
