// symex -- bounded symbolic execution of LLVM IR with an SMT back end.
//
// Executes an entry function of a bitcode module with symbolic inputs, forking
// on symbolic branches whose two sides are both satisfiable, and decides every
// sym_check() by asking the solver for a value on the current path that breaks
// it.  Memory is byte-precise: every access is checked against object bounds.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <cstring>
#include <cmath>
#include <signal.h>
#include <sys/resource.h>

using namespace llvm;

struct Val { u64 c; Node* e; };
static inline Val CV(u64 c) { return {c, nullptr}; }

[[noreturn]] static void unsupported(const std::string& m);

// ------------------------------------------------------------------ memory
enum ObjKind : uint8_t { KGlobal, KHeap, KStack };
struct Object {
    u64 size;
    std::vector<uint8_t> c;
    std::vector<Node*> s;       // empty: all concrete
    std::vector<uint8_t> ini;   // empty: all initialised
    ObjKind kind; bool ro; uint8_t how; // how: 'n' new, 'a' new[], 'm' malloc
    int name; bool tls = false, shared = false;   // shared: a global that the code may write
};
typedef std::shared_ptr<Object> ObjP;
struct ObjEnt { u64 base, size; ObjP o; };

// ------------------------------------------------------------------ compiled code
struct Opd { int slot = -1; u64 c = 0; const std::vector<u64>* multi = nullptr; };
enum IOp : uint8_t {
    IBin, ICmp, ISelect, IZExt, ISExt, ITrunc, IMove, ILoad, IStore, IGep, IAlloca,
    IBr, ICondBr, ISwitch, IRet, ICall, IUnreach, IExtractV, IInsertV, IFp, IFCmp, IFCast, ICmpXchg, IRMW, ILand, IResume, IUnsup
};
struct PhiMove { int dst; unsigned n; Opd src; };
struct Edge { int to; std::vector<PhiMove> phis; };
struct Fn;
struct Inst {
    IOp op; uint8_t sub = 0; uint16_t w = 0, w2 = 0; int dst = -1; unsigned n = 1;
    std::vector<Opd> o;
    std::vector<u64> scale;         // gep scales / switch case values / struct leaf offsets
    std::vector<uint16_t> lw;       // leaf widths (bits) for multi-slot load/store
    u64 imm = 0;
    std::vector<Edge> e;
    Fn* callee = nullptr; const Instruction* I = nullptr;
    unsigned a = 0, b = 0;
    int scope = -1;
    std::vector<uint16_t> argW;
};
struct Block { std::vector<Inst> code; };
typedef std::vector<Val> Vals;
struct Fn {
    Function* F; std::string name; std::string dem;
    bool compiled = false; int nslots = 0; std::vector<int> argSlot; std::vector<unsigned> argN;
    std::vector<Block> bb; u64 addr = 0; unsigned retN = 0;
    bool mergeable = false, mergeTried = false; int builtin = 0;
    u64 calls = 0; bool intArgsOnly = false; unsigned retW = 0;
    std::vector<unsigned> argW;
};

struct TreeNode { Node* cond = nullptr; TreeNode* t = nullptr; TreeNode* f = nullptr; Val ret{0, nullptr}; bool done = false, dead = false; };

struct Frame {
    Fn* f; int bb = 0; int ip = 0; Vals slots; std::vector<u64> allocas; int retSlot = -1; unsigned retN = 0;
    const Inst* call = nullptr; bool inject = false;   // inject: the other thread, run here
};
struct InRec { std::string name; unsigned w; std::vector<Node*> vars; };
struct Acc { uint8_t m = 0; std::vector<u64> l[2]; };   // m: read, written by thread 1 (1, 2), 2 (4, 8); l: locks always held
struct State {
    int thread = 0, guard = 0; bool preempted = false; Fn* preFn = nullptr; Val preArg{0, nullptr}; u64 brk0 = 0;
    std::map<u64, Acc> log; std::vector<std::pair<u64, int>> locks; std::vector<ObjP> tls[3];
    std::vector<Frame> fr;
    std::vector<ObjEnt> mem;        // writable objects, ascending by base
    u64 brk;
    std::vector<Node*> pc;
    ModelP model;
    std::vector<InRec> ins;
    std::vector<std::pair<Val, unsigned>> obs;
    TreeNode* leaf = nullptr;
    u64 steps = 0, extra = 0, heapBytes = 0; unsigned undefCtr = 0;   // extra: the rest of the cost (block moves, merged calls)
    Vals ret;
    std::vector<int> reached;
    // exceptions: in flight (object, typeinfo symbol, destructor), selector for the landing pad, caught
    struct Exc { u64 obj = 0, dtor = 0; std::string type; bool again = false; };
    Exc exc; u64 excSel = 0; std::vector<Exc> caught;
    struct Snap { std::vector<ObjEnt> mem; std::vector<ObjP> tls[3]; };
    u64 failIn = 0; bool failed = false;   // the allocation that will fail, and whether one has
    std::vector<std::shared_ptr<Snap>> snaps;   // memory as it was, to come back to
};
typedef std::unique_ptr<State> StateP;

struct Violation { std::string kind, msg, where; std::vector<std::pair<InRec, std::vector<u64>>> ins; bool undefDep; };
struct Sample { std::vector<std::pair<InRec, std::vector<u64>>> ins; std::vector<std::pair<u64, unsigned>> obs; };

// ------------------------------------------------------------------ globals
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static Ctx C;
static Solver* S;
static std::vector<ObjEnt> roObjs;
static std::vector<std::string> names;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<const Function*, Fn*> fns;
static std::unordered_map<u64, Fn*> fnAt;
static std::unordered_map<std::string, u64> params;
static std::vector<DISubprogram*> scopes; static std::unordered_map<const DISubprogram*, int> scopeIdx; static std::vector<char> scopeHit;
static std::vector<std::string> reachNames; static std::unordered_map<std::string, int> reachIdx; static std::vector<u64> reachCnt;
static std::vector<std::string> checkNames; static std::unordered_map<std::string, int> checkIdx; static std::vector<u64> checkCnt;
static std::vector<Violation> viols; static std::vector<Sample> samples;
static u64 nPaths = 0, nForks = 0, nSteps = 0, nAssumeDead = 0, nMerges = 0, nMergeHits = 0, nChecks = 0, nChecksSolver = 0, maxPathSteps = 0, nGlobalWrites = 0;
static u64 optMaxPaths = 50000000, optMaxViol = 4, optMaxSteps = 40000000, optSamples = 32, optMaxDepth = 4000;
static double optTime = 800; static bool optMerge = true; static std::string incomplete; static bool stopAll = false;
static bool undefUsed = false;
static std::chrono::steady_clock::time_point tStart;
static std::vector<StateP> work; static std::vector<Function*> lateCtors;
static int mergeDepth = 0;
static const State* curState = nullptr;

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }
static void writeOut(const char* status, const std::string& err);
static void unsupported(const std::string& m) {
    std::string where;
    if (curState && !curState->fr.empty()) where = " in " + curState->fr.back().f->dem;
    fprintf(stderr, "symex: unsupported: %s%s\n", m.c_str(), where.c_str());
    writeOut("unsupported", m + where); exit(3);
}

// ------------------------------------------------------------------ type helpers
static unsigned bitsOf(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) unsupported("integer wider than 64 bits"); return w; }
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    std::string s; raw_string_ostream os(s); t->print(os); unsupported("type " + os.str());
}
static unsigned slotsOf(Type* t) {
    if (t->isVoidTy()) return 0;
    if (auto* st = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : st->elements()) n += slotsOf(e); return n; }
    if (auto* at = dyn_cast<ArrayType>(t)) return (unsigned)at->getNumElements() * slotsOf(at->getElementType());
    if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
    return 1;
}
static void leaves(Type* t, u64 off, std::vector<u64>& offs, std::vector<uint16_t>& ws) {
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) leaves(st->getElementType(i), off + sl->getElementOffset(i), offs, ws);
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); ++i) leaves(at->getElementType(), off + i * es, offs, ws);
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        unsigned w = bitsOf(vt->getElementType());
        if (w % 8) unsupported("vector of sub-byte elements in memory");
        for (unsigned i = 0; i < vt->getNumElements(); ++i) { offs.push_back(off + i * (w / 8)); ws.push_back(w); }
    } else { offs.push_back(off); ws.push_back(bitsOf(t)); }
}
static unsigned slotOffset(Type* t, ArrayRef<unsigned> idx) {
    unsigned r = 0;
    for (unsigned i : idx) {
        if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; ++j) r += slotsOf(st->getElementType(j)); t = st->getElementType(i); }
        else { auto* at = cast<ArrayType>(t); r += i * slotsOf(at->getElementType()); t = at->getElementType(); }
    }
    return r;
}

// ------------------------------------------------------------------ constants
static u64 constScalar(const Constant* c);
static u64 fnAddr(const Function* f);
static u64 constExpr(const ConstantExpr* ce) {
    unsigned opc = ce->getOpcode();
    switch (opc) {
    case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsupported("non-constant gep constant");
        return constScalar(ce->getOperand(0)) + off.getSExtValue();
    }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: case Instruction::Trunc:
        return constScalar(ce->getOperand(0)) & maskw(bitsOf(ce->getType()));
    case Instruction::Add: return (constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & maskw(bitsOf(ce->getType()));
    case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & maskw(bitsOf(ce->getType()));
    case Instruction::Mul: return (constScalar(ce->getOperand(0)) * constScalar(ce->getOperand(1))) & maskw(bitsOf(ce->getType()));
    case Instruction::Xor: return constScalar(ce->getOperand(0)) ^ constScalar(ce->getOperand(1));
    case Instruction::Shl: { u64 k = constScalar(ce->getOperand(1)); return k < 64 ? (constScalar(ce->getOperand(0)) << k) & maskw(bitsOf(ce->getType())) : 0; }
    case Instruction::ICmp: {
        auto p = (CmpInst::Predicate)ce->getPredicate(); u64 a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1));
        unsigned w = bitsOf(ce->getOperand(0)->getType());
        return ICmpInst::compare(APInt(w, a), APInt(w, b), p);
    }
    }
    unsupported(std::string("constant expression ") + ce->getOpcodeName());
}
static u64 constScalar(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { bitsOf(ci->getType()); return ci->getZExtValue(); }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto* f = dyn_cast<Function>(c)) return fnAddr(f);
    if (auto* a = dyn_cast<GlobalAlias>(c)) return constScalar(a->getAliasee());
    if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) unsupported("external global " + g->getName().str()); return it->second; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) return constExpr(ce);
    if (auto* fp = dyn_cast<ConstantFP>(c)) return fp->getValueAPF().bitcastToAPInt().getZExtValue();
    std::string s; raw_string_ostream os(s); c->print(os); unsupported("constant " + os.str());
}
static void constFlatten(const Constant* c, std::vector<u64>& out) {
    Type* t = c->getType();
    unsigned n = slotsOf(t);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (unsigned i = 0; i < n; ++i) out.push_back(0); return; }
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        unsigned k = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < k; ++i) { auto* e = c->getAggregateElement(i); if (!e) unsupported("aggregate constant"); constFlatten(e, out); }
        return;
    }
    out.push_back(constScalar(c));
}
static void initBytes(const Constant* c, std::vector<uint8_t>& b, u64 off) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
        u64 es = cds->getElementByteSize();
        for (u64 i = 0; i < cds->getNumElements(); ++i) {
            u64 v = cds->getElementType()->isIntegerTy() ? cds->getElementAsInteger(i) : cds->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
            for (u64 k = 0; k < es; ++k) b[off + i * es + k] = (uint8_t)(v >> (8 * k));
        }
        return;
    }
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) initBytes(c->getAggregateElement(i), b, off + sl->getElementOffset(i)); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); ++i) initBytes(c->getAggregateElement((unsigned)i), b, off + i * es); return; }
    u64 v = constScalar(c); u64 n = DL->getTypeStoreSize(t);
    for (u64 k = 0; k < n; ++k) b[off + k] = (uint8_t)(v >> (8 * k));
}

// ------------------------------------------------------------------ builtins
enum BI : int {
    BI_none, BI_new, BI_newarr, BI_delete, BI_deletearr, BI_malloc, BI_free, BI_calloc, BI_realloc, BI_sym, BI_assume, BI_check, BI_reach, BI_observe,
    BI_param, BI_nop, BI_throw, BI_abort, BI_guard_acq, BI_memcpy, BI_memmove, BI_memset, BI_concretize, BI_mark, BI_cost, BI_bytes, BI_leaked, BI_snap, BI_unsnap, BI_fail, BI_ctors, BI_is_symbolic, BI_noret, BI_stage, BI_thread, BI_preempt, BI_preempted, BI_lock, BI_unlock, BI_guard_rel, BI_region,
    BI_exalloc, BI_exfree, BI_cxathrow, BI_rethrow, BI_catch, BI_endcatch, BI_exptr
};
static int builtinOf(const std::string& n) {
    static const std::unordered_map<std::string, int> t = {
        {"_Znwm", BI_new}, {"_Znam", BI_newarr}, {"_ZdlPv", BI_delete}, {"_ZdlPvm", BI_delete}, {"_ZdaPv", BI_deletearr}, {"_ZdaPvm", BI_deletearr},
        {"_ZnwmRKSt9nothrow_t", BI_new}, {"_ZnamRKSt9nothrow_t", BI_newarr}, {"_ZdlPvRKSt9nothrow_t", BI_delete},
        {"malloc", BI_malloc}, {"free", BI_free}, {"calloc", BI_calloc}, {"realloc", BI_realloc},
        {"sym_units", BI_sym}, {"sym_assume", BI_assume}, {"sym_check_", BI_check}, {"sym_reach", BI_reach}, {"sym_observe_", BI_observe},
        {"sym_param", BI_param}, {"__cxa_atexit", BI_nop}, {"atexit", BI_nop}, {"__cxa_guard_release", BI_guard_rel}, {"__cxa_guard_abort", BI_guard_rel}, {"sym_thread", BI_thread}, {"sym_preempt", BI_preempt}, {"sym_preempted", BI_preempted},
        {"sym_region_begin", BI_region}, {"sym_region_end", BI_guard_rel}, {"pthread_mutex_lock", BI_lock}, {"pthread_mutex_unlock", BI_unlock}, {"pthread_mutex_init", BI_nop}, {"pthread_mutex_destroy", BI_nop}, {"__cxa_thread_atexit", BI_nop},
        {"__cxa_guard_acquire", BI_guard_acq}, {"__cxa_throw", BI_cxathrow}, {"__cxa_rethrow", BI_rethrow}, {"__cxa_allocate_exception", BI_exalloc}, {"__cxa_free_exception", BI_exfree}, {"__cxa_begin_catch", BI_catch}, {"__cxa_end_catch", BI_endcatch}, {"__cxa_get_exception_ptr", BI_exptr}, {"abort", BI_abort}, {"exit", BI_abort}, {"_exit", BI_abort}, {"__assert_fail", BI_abort},
        {"_ZSt9terminatev", BI_abort}, {"__cxa_pure_virtual", BI_abort}, {"__clang_call_terminate", BI_abort},
        {"memcpy", BI_memcpy}, {"memmove", BI_memmove}, {"memset", BI_memset}, {"sym_concretize", BI_concretize}, {"sym_heap_mark", BI_mark}, {"sym_leaked", BI_leaked}, {"sym_cost_", BI_cost}, {"sym_bytes_", BI_bytes}, {"sym_snapshot", BI_snap}, {"sym_restore", BI_unsnap}, {"sym_fail", BI_fail}, {"sym_run_ctors", BI_ctors},
        {"_ZSt21__glibcxx_assert_failPKciS0_S0_", BI_abort}, {"__stack_chk_fail", BI_abort},
    };
    auto it = t.find(n);
    if (it != t.end()) return it->second;
    if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) return BI_throw;
    return 0;
}
static Fn* getFn(const Function* f) {
    auto it = fns.find(f);
    if (it != fns.end()) return it->second;
    Fn* x = new Fn(); x->F = const_cast<Function*>(f); x->name = f->getName().str(); x->dem = llvm::demangle(x->name);
    x->builtin = builtinOf(x->name);
    x->addr = 0x1000 + 16 * fns.size(); if (x->addr >= 0x800000) unsupported("too many functions");
    x->retN = slotsOf(f->getReturnType());
    fns[f] = x; fnAt[x->addr] = x;
    bool io = f->getReturnType()->isIntegerTy() && f->getReturnType()->getIntegerBitWidth() <= 64 && !f->isVarArg() && f->arg_size() > 0;
    for (auto& a : f->args()) { if (!a.getType()->isIntegerTy() || a.getType()->getIntegerBitWidth() > 64) io = false; else x->argW.push_back(a.getType()->getIntegerBitWidth()); }
    x->intArgsOnly = io;
    if (io) x->retW = f->getReturnType()->getIntegerBitWidth();
    x->mergeable = io && !f->isDeclaration() && !x->builtin && (f->doesNotAccessMemory() || f->onlyReadsMemory() || x->name.rfind("merge_", 0) == 0);
    return x;
}
static u64 fnAddr(const Function* f) { return getFn(f)->addr; }

// ------------------------------------------------------------------ compile functions
struct FnCompiler {
    Fn* fn; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bbi;
    Opd op(const Value* v) {
        Opd o;
        if (auto* c = dyn_cast<Constant>(v)) {
            unsigned n = slotsOf(c->getType());
            if (n == 1 && !c->getType()->isAggregateType() && !c->getType()->isVectorTy()) { o.c = constScalar(c); return o; }
            auto* m = new std::vector<u64>(); constFlatten(c, *m); o.multi = m; if (m->size() == 1) { o.c = (*m)[0]; o.multi = nullptr; } return o;
        }
        if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return o;
        auto it = slot.find(v); if (it == slot.end()) unsupported("operand without slot");
        o.slot = it->second; return o;
    }
    Edge edge(const BasicBlock* from, const BasicBlock* to) {
        Edge e; e.to = bbi[to];
        for (auto& phi : to->phis()) e.phis.push_back({slot[&phi], slotsOf(phi.getType()), op(phi.getIncomingValueForBlock(from))});
        return e;
    }
    int scopeOf(const Instruction& I) {
        auto dl = I.getDebugLoc(); if (!dl) return -1;
        auto* sp = cast<DILocalScope>(dl->getScope())->getSubprogram(); if (!sp) return -1;
        auto it = scopeIdx.find(sp); if (it != scopeIdx.end()) return it->second;
        int i = (int)scopes.size(); scopes.push_back(const_cast<DISubprogram*>(sp)); scopeHit.push_back(0); scopeIdx[sp] = i; return i;
    }
    void run() {
        Function& F = *fn->F; int ns = 0, nb = 0;
        for (auto& a : F.args()) { unsigned n = slotsOf(a.getType()); slot[&a] = ns; fn->argSlot.push_back(ns); fn->argN.push_back(n); ns += n; }
        for (auto& B : F) { bbi[&B] = nb++; for (auto& I : B) { unsigned n = slotsOf(I.getType()); if (n) { slot[&I] = ns; ns += n; } } }
        fn->nslots = ns; fn->bb.resize(nb);
        for (auto& B : F) {
            Block& b = fn->bb[bbi[&B]];
            for (auto& I : B) {
                if (isa<PHINode>(I)) continue;
                if (isa<DbgInfoIntrinsic>(I)) continue;
                Inst x; x.I = &I; x.scope = scopeOf(I); x.dst = slot.count(&I) ? slot[&I] : -1; x.n = slotsOf(I.getType());
                one(B, I, x);
                b.code.push_back(std::move(x));
            }
        }
        fn->compiled = true;
    }
    void one(BasicBlock& B, Instruction& I, Inst& x) {
        Type* T = I.getType();
        auto eltBits = [&](Type* t) { return bitsOf(t->isVectorTy() ? cast<VectorType>(t)->getElementType() : t); };
        switch (I.getOpcode()) {
        case Instruction::Add: x.sub = OAdd; goto bin; case Instruction::Sub: x.sub = OSub; goto bin; case Instruction::Mul: x.sub = OMul; goto bin;
        case Instruction::UDiv: x.sub = OUDiv; goto bin; case Instruction::SDiv: x.sub = OSDiv; goto bin; case Instruction::URem: x.sub = OURem; goto bin; case Instruction::SRem: x.sub = OSRem; goto bin;
        case Instruction::And: x.sub = OAnd; goto bin; case Instruction::Or: x.sub = OOr; goto bin; case Instruction::Xor: x.sub = OXor; goto bin;
        case Instruction::Shl: x.sub = OShl; goto bin; case Instruction::LShr: x.sub = OLShr; goto bin; case Instruction::AShr: x.sub = OAShr; goto bin;
        bin: x.op = IBin; x.w = eltBits(T); x.o = {op(I.getOperand(0)), op(I.getOperand(1))}; return;
        case Instruction::ICmp: x.op = ICmp; x.sub = cast<ICmpInst>(I).getPredicate(); x.w = 1; x.w2 = eltBits(I.getOperand(0)->getType()); x.o = {op(I.getOperand(0)), op(I.getOperand(1))}; return;
        case Instruction::Select: x.op = ISelect; if (slotsOf(T) == 1) x.w = bitsOf(T->isVectorTy() ? cast<VectorType>(T)->getElementType() : T); else { std::vector<u64> of; std::vector<uint16_t> lw; if (!T->isVectorTy()) { leaves(T, 0, of, lw); x.lw = lw; } else x.lw.assign(slotsOf(T), eltBits(T)); }
            x.a = slotsOf(I.getOperand(0)->getType()); x.o = {op(I.getOperand(0)), op(I.getOperand(1)), op(I.getOperand(2))}; return;
        case Instruction::ZExt: x.op = IZExt; goto cast1; case Instruction::SExt: x.op = ISExt; goto cast1; case Instruction::Trunc: x.op = ITrunc; goto cast1;
        case Instruction::PtrToInt: x.op = ITrunc; x.w = bitsOf(T); x.w2 = 64; x.o = {op(I.getOperand(0))}; if (x.w == 64) x.op = IMove; return;
        case Instruction::IntToPtr: x.op = IZExt; x.w = 64; x.w2 = bitsOf(I.getOperand(0)->getType()); x.o = {op(I.getOperand(0))}; if (x.w2 == 64) x.op = IMove; return;
        case Instruction::BitCast: if (slotsOf(T) != slotsOf(I.getOperand(0)->getType())) unsupported("vector bitcast"); /* fall through */
        case Instruction::Freeze: case Instruction::AddrSpaceCast: x.op = IMove; x.o = {op(I.getOperand(0))}; return;
        cast1: x.w = eltBits(T); x.w2 = eltBits(I.getOperand(0)->getType()); x.o = {op(I.getOperand(0))}; return;
        case Instruction::Load: x.op = ILoad; leaves(T, 0, x.scale, x.lw); x.o = {op(I.getOperand(0))}; return;
        case Instruction::Store: x.op = IStore; leaves(I.getOperand(0)->getType(), 0, x.scale, x.lw); x.o = {op(I.getOperand(1)), op(I.getOperand(0))}; return;
        case Instruction::GetElementPtr: {
            if (T->isVectorTy()) unsupported("vector gep");
            x.op = IGep; x.o = {op(I.getOperand(0))};
            for (auto gti = gep_type_begin(I), ge = gep_type_end(I); gti != ge; ++gti) {
                Value* idx = gti.getOperand();
                if (StructType* st = gti.getStructTypeOrNull()) { x.imm += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue()); continue; }
                u64 es = DL->getTypeAllocSize(gti.getIndexedType());
                if (auto* ci = dyn_cast<ConstantInt>(idx)) { x.imm += es * (u64)ci->getSExtValue(); continue; }
                x.o.push_back(op(idx)); x.scale.push_back(es); x.lw.push_back(bitsOf(idx->getType()));
            }
            return;
        }
        case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); x.op = IAlloca; x.imm = DL->getTypeAllocSize(A.getAllocatedType()); x.o = {op(A.getArraySize())}; x.w2 = bitsOf(A.getArraySize()->getType()); return; }
        case Instruction::Br: {
            auto& R = cast<BranchInst>(I);
            if (R.isUnconditional()) { x.op = IBr; x.e.push_back(edge(&B, R.getSuccessor(0))); }
            else { x.op = ICondBr; x.o = {op(R.getCondition())}; x.e.push_back(edge(&B, R.getSuccessor(0))); x.e.push_back(edge(&B, R.getSuccessor(1))); }
            return;
        }
        case Instruction::Switch: {
            auto& W = cast<SwitchInst>(I); x.op = ISwitch; x.w = bitsOf(W.getCondition()->getType()); x.o = {op(W.getCondition())};
            std::map<const BasicBlock*, int> ei;
            x.e.push_back(edge(&B, W.getDefaultDest())); ei[W.getDefaultDest()] = 0;
            for (auto& c : W.cases()) {
                auto* d = c.getCaseSuccessor(); auto it = ei.find(d); int k;
                if (it == ei.end()) { k = (int)x.e.size(); x.e.push_back(edge(&B, d)); ei[d] = k; } else k = it->second;
                x.scale.push_back(c.getCaseValue()->getZExtValue()); x.lw.push_back((uint16_t)k);
            }
            return;
        }
        case Instruction::Ret: x.op = IRet; if (I.getNumOperands()) { x.o = {op(I.getOperand(0))}; x.n = slotsOf(I.getOperand(0)->getType()); } else x.n = 0; return;
        case Instruction::Unreachable: x.op = IUnreach; return;
        case Instruction::ExtractValue: { auto& E = cast<ExtractValueInst>(I); x.op = IExtractV; x.a = slotOffset(E.getAggregateOperand()->getType(), E.getIndices()); x.o = {op(E.getAggregateOperand())}; return; }
        case Instruction::InsertValue: { auto& E = cast<InsertValueInst>(I); x.op = IInsertV; x.a = slotOffset(T, E.getIndices()); x.b = slotsOf(E.getInsertedValueOperand()->getType()); x.o = {op(E.getAggregateOperand()), op(E.getInsertedValueOperand())}; return; }
        case Instruction::ExtractElement: { x.op = IExtractV; auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) unsupported("extractelement index"); x.a = (unsigned)ci->getZExtValue(); x.o = {op(I.getOperand(0))}; return; }
        case Instruction::InsertElement: { x.op = IInsertV; auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) unsupported("insertelement index"); x.a = (unsigned)ci->getZExtValue(); x.b = 1; x.o = {op(I.getOperand(0)), op(I.getOperand(1))}; return; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: x.op = IFp; x.sub = I.getOpcode() - 0; x.a = I.getOpcode(); x.w = bitsOf(T); x.o = {op(I.getOperand(0)), op(I.getOperand(1))}; return;
        case Instruction::FCmp: x.op = IFCmp; x.sub = cast<FCmpInst>(I).getPredicate(); x.w = 1; x.w2 = bitsOf(I.getOperand(0)->getType()); x.o = {op(I.getOperand(0)), op(I.getOperand(1))}; return;
        case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc:
            x.op = IFCast; x.a = I.getOpcode(); x.w = bitsOf(T); x.w2 = bitsOf(I.getOperand(0)->getType()); x.o = {op(I.getOperand(0))}; return;
        case Instruction::AtomicCmpXchg: { auto& A = cast<AtomicCmpXchgInst>(I); x.op = ICmpXchg; x.w = bitsOf(A.getCompareOperand()->getType()); x.o = {op(A.getPointerOperand()), op(A.getCompareOperand()), op(A.getNewValOperand())}; return; }
        case Instruction::AtomicRMW: { auto& A = cast<AtomicRMWInst>(I); x.op = IRMW; x.a = A.getOperation(); x.w = bitsOf(T); x.o = {op(A.getPointerOperand()), op(A.getValOperand())}; return; }
        case Instruction::Fence: x.op = IMove; x.n = 0; x.o = {}; return;
        case Instruction::Call: case Instruction::Invoke: {
            auto& CB = cast<CallBase>(I); x.op = ICall;
            if (auto* f = CB.getCalledFunction()) x.callee = getFn(f);
            else if (auto* f2 = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts())) x.callee = getFn(f2);
            else if (CB.isInlineAsm()) { if (cast<InlineAsm>(CB.getCalledOperand())->getAsmString().empty()) { x.op = IMove; x.n = 0; return; } unsupported("inline asm"); }
            for (auto& a : CB.args()) { x.o.push_back(op(a.get())); Type* t = a->getType(); x.argW.push_back(t->isIntegerTy() ? (t->getIntegerBitWidth() <= 64 ? t->getIntegerBitWidth() : 0) : t->isPointerTy() ? 64 : 0); }
            if (!x.callee) x.o.push_back(op(CB.getCalledOperand()));
            for (unsigned i = 0; i < CB.arg_size(); ++i) if (CB.isByValArgument(i)) x.scale.push_back(i | (u64(DL->getTypeAllocSize(CB.getParamByValType(i))) << 16));
            x.w = T->isIntegerTy() || T->isPointerTy() ? bitsOf(T) : 0;
            if (auto* iv = dyn_cast<InvokeInst>(&I)) { x.e.push_back(edge(&B, iv->getNormalDest())); x.e.push_back(edge(&B, iv->getUnwindDest())); }
            return;
        }
        case Instruction::LandingPad: x.op = ILand; return;
        case Instruction::Resume: x.op = IResume; return;
        default: x.op = IUnsup; return; // reported only when reached
        }
    }
};
static void ensure(Fn* f) { if (!f->compiled) { FnCompiler c; c.fn = f; c.run(); } }

// ------------------------------------------------------------------ solver interface
static void addPc(State& s, Node* c);
static bool knownIn(State& s, Node* c, bool& val, int depth = 0) {
    if (c->w == 1 && depth < 6) {
        Node* in0;
        if (c->op == OAnd || c->op == OOr) {
            bool a, b, isAnd = c->op == OAnd;
            bool ka = knownIn(s, c->k[0], a, depth + 1); if (ka && a != isAnd) { val = a; return true; }
            bool kb = knownIn(s, c->k[1], b, depth + 1); if (kb && b != isAnd) { val = b; return true; }
            if (ka && kb) { val = isAnd; return true; }
        } else if (C.isNot(c, in0) && (in0->op == OAnd || in0->op == OOr)) {
            bool v; if (knownIn(s, in0, v, depth + 1)) { val = !v; return true; }
        }
    }
    Node* in; Node* neg = nullptr; if (C.isNot(c, in)) neg = in;
    for (auto it = s.pc.rbegin(); it != s.pc.rend(); ++it) {
        if (*it == c) { val = true; return true; }
        if (neg && *it == neg) { val = false; return true; }
        Node* i2; if (!neg && C.isNot(*it, i2) && i2 == c) { val = false; return true; }
    }
    return false;
}
// is pc && c satisfiable? if so, m is the state's model patched to satisfy it
static Res feasible(State& s, Node* c, ModelP& m) {
    if (Ctx::isC(c)) { m = s.model; return c->val ? SAT : UNSAT; }
    bool kv; if (knownIn(s, c, kv)) { ++S->trivially; if (kv) { m = s.model; return SAT; } return UNSAT; }
    if (C.eval(c, s.model->v, s.model->stamp)) { m = s.model; return SAT; }
    VSet vs = C.vset(c); std::vector<Node*> cs{c}; std::vector<char> in(s.pc.size(), 0);
    bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); ++i) if (!in[i] && (C.vset(s.pc[i]) & vs).any()) { in[i] = 1; vs |= C.vset(s.pc[i]); ch = true; } }
    for (size_t i = 0; i < s.pc.size(); ++i) if (in[i]) cs.push_back(s.pc[i]);
    std::vector<std::pair<uint32_t, u64>> mv;
    Res r = S->check(cs, mv);
    if (r == UNKNOWN) { incomplete = "solver returned unknown (timeout)"; return UNKNOWN; }
    if (r == SAT) {
        m = std::make_shared<Model>(); m->v = s.model->v; m->stamp = ++C.stampCtr;
        if (m->v.size() < C.vars.size()) m->v.resize(C.vars.size(), 0);
        for (auto& p : mv) m->v[p.first] = p.second;
        if (!C.eval(c, m->v, m->stamp)) { fprintf(stderr, "internal: model does not satisfy query\n"); writeOut("internal", "model mismatch"); exit(3); }
    }
    return r;
}
static void addPc(State& s, Node* c) {
    if (Ctx::isC(c)) return;
    if (c->op == OAnd && c->w == 1) { addPc(s, c->k[0]); addPc(s, c->k[1]); return; }
    Node* in0; if (C.isNot(c, in0) && in0->op == OOr && in0->w == 1) { addPc(s, C.mkNot(in0->k[0])); addPc(s, C.mkNot(in0->k[1])); return; }
    for (auto n : s.pc) if (n == c) return;
    s.pc.push_back(c);
    if (!undefUsed) { const VSet& v = C.vset(c); for (unsigned i = 0; i < C.vars.size() && i < VSETBITS; ++i) if (C.vars[i].undef && v.test(i)) undefUsed = true; }
}

// ------------------------------------------------------------------ violations & path ends
static std::string whereOf(State& s) {
    std::string r; int n = 0;
    for (auto it = s.fr.rbegin(); it != s.fr.rend() && n < 8; ++it, ++n) {
        auto& f = *it; if (!r.empty()) r += " <- ";
        r += f.f->dem;
        int ip = f.ip; if (n) --ip;
        if (f.bb < (int)f.f->bb.size() && ip >= 0 && ip < (int)f.f->bb[f.bb].code.size()) {
            auto dl = f.f->bb[f.bb].code[ip].I->getDebugLoc();
            if (dl) { r += " (" + dl->getFilename().str() + ":" + std::to_string(dl.getLine()) + ")"; }
        }
    }
    return r;
}
static std::vector<std::pair<InRec, std::vector<u64>>> insOf(State& s, const Model& m) {
    std::vector<std::pair<InRec, std::vector<u64>>> r;
    for (auto& in : s.ins) { std::vector<u64> v; for (auto n : in.vars) v.push_back(n->val < m.v.size() ? m.v[n->val] & maskw(n->w) : 0); r.push_back({in, v}); }
    return r;
}
static void violate(State& s, const Model& m, const std::string& kind_, const std::string& msg) {
    std::string kind = s.preempted ? "race" : kind_;      // only a schedule of two threads shows it
    for (auto& v : viols) if (v.kind == kind && v.msg == msg && viols.size() >= 1) { static std::map<std::string, int> cnt; if (++cnt[kind + msg] > 2) return; }
    Violation v; v.kind = kind; v.msg = msg; v.where = whereOf(s); v.ins = insOf(s, m);
    v.undefDep = false;
    for (auto c : s.pc) { const VSet& vs = C.vset(c); for (unsigned i = 0; i < C.vars.size() && i < VSETBITS; ++i) if (C.vars[i].undef && vs.test(i)) v.undefDep = true; }
    viols.push_back(v);
    if (viols.size() >= optMaxViol) stopAll = true;
}
struct PathEnd {};   // thrown to finish the current path
struct Retry {};     // thrown after a fork that must re-execute the instruction

static StateP forkState(State& s, Node* condForS) {
    StateP n(new State(s));
    ++nForks;
    if (s.leaf) {
        TreeNode* t = new TreeNode(); TreeNode* f = new TreeNode();
        s.leaf->cond = condForS; s.leaf->t = t; s.leaf->f = f; s.leaf = t; n->leaf = f;
    }
    return n;
}
// decide a boolean; forks when both are possible. Returns the value for s.
static bool decide(State& s, Val v) {
    if (!v.e) return v.c & 1;
    Node* c = v.e;
    bool kv; if (knownIn(s, c, kv)) { ++S->trivially; return kv; }
    bool cur = C.eval(c, s.model->v, s.model->stamp);
    Node* other = cur ? C.mkNot(c) : c;
    ModelP m; Res r = feasible(s, other, m);
    if (r == UNKNOWN) throw PathEnd();
    Node* mine = cur ? c : C.mkNot(c);
    if (r == SAT) {
        StateP n = forkState(s, mine);
        addPc(*n, other); n->model = m;
        // the fork re-executes this instruction; the decision is then known
        work.push_back(std::move(n));
        addPc(s, mine);
    }
    return cur;
}
// the other side's execution resumes by re-executing, so decide() must be called before side effects
static u64 concretize(State& s, Val v, unsigned w) {
    if (!v.e) return v.c;
    u64 x = C.eval(v.e, s.model->v, s.model->stamp);
    Node* eq = C.mkBin(OEq, v.e, C.cst(w, x));
    if (Ctx::isC(eq)) return x;
    ModelP m; Res r = feasible(s, C.mkNot(eq), m);
    if (r == UNKNOWN) throw PathEnd();
    if (r == SAT) { StateP n = forkState(s, eq); addPc(*n, C.mkNot(eq)); n->model = m; work.push_back(std::move(n)); }
    addPc(s, eq);
    return x;
}

// ------------------------------------------------------------------ memory access
static const u64 RWBASE = 0x40000000ull, DYNBASE = 0x100000000ull;
static ObjEnt* findObj(State& s, u64 a, bool& ro) {
    std::vector<ObjEnt>& v = a < RWBASE ? roObjs : s.mem; ro = a < RWBASE;
    size_t lo = 0, hi = v.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].base <= a) lo = m + 1; else hi = m; }
    if (lo == 0) return nullptr;
    ObjEnt& e = v[lo - 1];
    if (a - e.base <= e.size) return &e;      // one-past-the-end belongs to it (for diagnostics)
    return nullptr;
}
static std::string descr(State& s, u64 a, u64 n) {
    char b[200];
    if (a < 4096) { snprintf(b, sizeof b, "access of %llu byte(s) through a null pointer", (unsigned long long)n); return b; }
    bool ro; ObjEnt* e = findObj(s, a, ro);
    if (e) snprintf(b, sizeof b, "access of %llu byte(s) outside a %llu-byte %s object", (unsigned long long)n, (unsigned long long)e->size, e->o->kind == KHeap ? "heap" : e->o->kind == KStack ? "stack" : "global");
    else {
        ObjEnt* p = findObj(s, a + 1, ro); if (!p) p = findObj(s, a + 8, ro);
        if (p) snprintf(b, sizeof b, "access of %llu byte(s) before a %llu-byte object", (unsigned long long)n, (unsigned long long)p->size);
        else snprintf(b, sizeof b, "access of %llu byte(s) to freed or unmapped memory", (unsigned long long)n);
    }
    return b;
}
static Object* writable(State& s, ObjEnt* e) { if (e->o.use_count() > 1) e->o = std::make_shared<Object>(*e->o); return e->o.get(); }
// resolve an address for an n-byte access. For a symbolic address returns the object and the offset expression.
static ObjEnt* resolve(State& s, Val a, u64 n, Node*& off, u64& coff, bool& ro) {
    off = nullptr;
    u64 x = a.e ? C.eval(a.e, s.model->v, s.model->stamp) : a.c;
    ObjEnt* e = findObj(s, x, ro);
    if (!e || x - e->base + n > e->size || x - e->base + n < n) {
        violate(s, *s.model, "memory", descr(s, x, n)); throw PathEnd();
    }
    if (e->o->how == 'x') unsupported("access to external data " + names[e->o->name]);
    coff = x - e->base;
    if (a.e) {
        Node* o = C.mkBin(OSub, a.e, C.cst(64, e->base));
        Node* inb = C.mkBin(OUlt, o, C.cst(64, e->size - n + 1));
        if (!Ctx::isC(inb)) {
            ModelP m; Res r = feasible(s, C.mkNot(inb), m);
            if (r == UNKNOWN) throw PathEnd();
            if (r == SAT) { StateP k = forkState(s, inb); addPc(*k, C.mkNot(inb)); k->model = m; work.push_back(std::move(k)); addPc(s, inb); }
        }
        if (Ctx::isC(o)) coff = o->val; else off = o;
    }
    return e;
}
static Node* byteNode(Object* o, u64 i) { if (!o->s.empty() && o->s[i]) return o->s[i]; return C.cst(8, o->c[i]); }
static void touchInit(State& s, ObjEnt* e, u64 off, u64 n) {
    Object* o = e->o.get();
    if (o->ini.empty()) return;
    for (u64 i = off; i < off + n; ++i) if (!o->ini[i]) {
        o = writable(s, e);
        if (o->s.empty()) o->s.assign(o->size, nullptr);
        o->s[i] = C.var("undef#" + std::to_string(s.undefCtr++), 8, true);
        o->ini[i] = 1;
    }
}
static Val loadAt(State& s, ObjEnt* e, u64 off, unsigned w) {
    u64 n = (w + 7) / 8;
    touchInit(s, e, off, n);
    Object* o = e->o.get();
    bool sym = false;
    if (!o->s.empty()) for (u64 i = 0; i < n; ++i) if (o->s[off + i]) sym = true;
    if (!sym) { u64 v = 0; memcpy(&v, &o->c[off], n); return CV(v & maskw(w)); }
    Node* r = nullptr;
    for (u64 i = 0; i < n; ++i) { Node* b = byteNode(o, off + i); r = r ? C.mkConcat(b, r) : b; }
    if (r->w != w) r = C.mkTrunc(r, w);
    if (Ctx::isC(r)) return CV(r->val);
    return {0, r};
}
static Node* muxLoad(State& s, ObjEnt* e, Node* off, int bit, u64 lo, unsigned w, u64 ones) {
    u64 n = (w + 7) / 8;
    if (lo + n > e->size) return nullptr;
    if (bit < 0) { Val v = loadAt(s, e, lo, w); return v.e ? v.e : C.cst(w, v.c); }
    Node* a = muxLoad(s, e, off, bit - 1, lo, w, ones);
    if (!((ones >> bit) & 1)) return a;
    Node* b = muxLoad(s, e, off, bit - 1, lo + (1ull << bit), w, ones);
    if (!a) return b; if (!b) return a; if (a == b) return a;
    return C.mkIte(C.mkExtract(off, bit, 1), b, a);
}
// ------------------------------------------------------------------ threads
// Two calls run as threads 1 and 2.  One schedule runs them one after the other,
// others run all of thread 2 at an access of thread 1 to a global that the code may
// write; in each, conflicting accesses without a common lock are races.
static std::vector<u64> tlsBases; static std::vector<ObjP> tlsInit;
static void pushFrame(State& s, Fn* fn, const Vals& args, const Inst* call, int retSlot, unsigned retN);
static void threadSwitch(State& s, int n) {
    for (size_t i = 0; i < tlsBases.size(); ++i) {
        bool ro; ObjEnt* e = findObj(s, tlsBases[i], ro);
        for (auto& v : s.tls) v.resize(tlsBases.size());
        s.tls[s.thread][i] = e->o; e->o = s.tls[n][i] ? s.tls[n][i] : tlsInit[i];
    }
    s.thread = n;
}
static void access(State& s, ObjEnt* e, u64 off, u64 n, bool write, bool atomic) {
    if (!s.thread) return;
    Object* o = e->o.get();
    if (o->ro || o->tls || (o->kind == KGlobal && !o->shared) || (o->kind == KStack && e->base >= s.brk0)) return;
    if (mergeDepth) { if (o->kind == KGlobal) ++nGlobalWrites; return; }    // do not merge what touches shared data
    if (o->kind == KGlobal && s.thread == 1 && !s.preempted && s.preFn && !s.guard) {
        StateP k = forkState(s, nullptr); k->preempted = true;
        threadSwitch(*k, 2); pushFrame(*k, k->preFn, {k->preArg}, nullptr, -1, 0); k->fr.back().inject = true; work.push_back(std::move(k));
    }
    if (s.guard || atomic) return;
    int t = s.thread - 1; std::vector<u64> held; for (auto& l : s.locks) if (l.second == s.thread) held.push_back(l.first);
    std::sort(held.begin(), held.end());
    for (u64 i = 0; i < n; ++i) {
        Acc& a = s.log[e->base + off + i]; uint8_t bits = (uint8_t)(3 << 2 * t);
        if (!(a.m & bits)) a.l[t] = held;
        else { std::vector<u64> c; std::set_intersection(a.l[t].begin(), a.l[t].end(), held.begin(), held.end(), std::back_inserter(c)); a.l[t] = c; }
        a.m |= (uint8_t)((write ? 2 : 1) << 2 * t);
        if ((a.m & 3) && (a.m & 12) && (a.m & 10)) {
            std::vector<u64> c; std::set_intersection(a.l[0].begin(), a.l[0].end(), a.l[1].begin(), a.l[1].end(), std::back_inserter(c));
            if (c.empty()) { violate(s, *s.model, "race", "two threads use " + (o->name >= 0 && o->kind == KGlobal ? names[o->name] : std::string("an object")) + " at the same time and one writes it"); throw PathEnd(); }
        }
    }
}
static bool curAtomic = false;
static Val load(State& s, Val a, unsigned w) {
    Node* off; u64 co; bool ro; u64 n = (w + 7) / 8;
    ObjEnt* e = resolve(s, a, n, off, co, ro);
    if (s.thread && !ro) { if (off) access(s, e, 0, e->size, false, curAtomic); else access(s, e, co, n, false, curAtomic); }
    if (!off) return loadAt(s, e, co, w);
    u64 cand = e->size / ((off->ones & (0 - off->ones)) ? (off->ones & (0 - off->ones)) : 1);
    if (cand > 70000) { u64 x = concretize(s, a, 64); return loadAt(s, e, x - e->base, w); }
    int top = 63 - __builtin_clzll(std::max<u64>(e->size - 1, 1));
    Node* r = muxLoad(s, e, off, top, 0, w, off->ones);
    if (Ctx::isC(r)) return CV(r->val);
    return {0, r};
}
static void storeAt(Object* o, u64 off, Val v, unsigned w) {
    u64 n = (w + 7) / 8;
    if (!o->ini.empty()) for (u64 i = 0; i < n; ++i) o->ini[off + i] = 1;
    if (!v.e) { memcpy(&o->c[off], &v.c, n); if (!o->s.empty()) for (u64 i = 0; i < n; ++i) o->s[off + i] = nullptr; return; }
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    Node* x = (w % 8) ? C.mkZExt(v.e, (unsigned)n * 8) : v.e;
    for (u64 i = 0; i < n; ++i) { Node* b = C.mkExtract(x, (unsigned)i * 8, 8); if (Ctx::isC(b)) { o->c[off + i] = (uint8_t)b->val; o->s[off + i] = nullptr; } else o->s[off + i] = b; }
}
static void store(State& s, Val a, Val v, unsigned w) {
    if (a.e) a = CV(concretize(s, a, 64));
    Node* off; u64 co; bool ro; ObjEnt* e = resolve(s, a, (w + 7) / 8, off, co, ro);
    if (ro || e->o->ro) { violate(s, *s.model, "memory", "write to a constant object"); throw PathEnd(); }
    if (e->o->kind == KGlobal) ++nGlobalWrites;
    if (s.thread) access(s, e, co, (w + 7) / 8, true, curAtomic);
    storeAt(writable(s, e), co, v, w);
}
static u64 alloc(State& s, u64 size, ObjKind k, uint8_t how, bool zero) {
    if (size > (64u << 20)) unsupported("allocation of " + std::to_string(size) + " bytes");
    u64 base = s.brk; s.brk += ((size + 15) & ~15ull) + 64;
    ObjP o = std::make_shared<Object>(); o->size = size; o->c.assign(size, 0); o->kind = k; o->ro = false; o->how = how; o->name = -1;
    if (!zero && size) o->ini.assign(size, 0);
    s.mem.push_back({base, size, o}); if (k == KHeap) s.heapBytes += size;
    return base;
}
// heap blocks allocated since brk was `mark` that no global, or older block, leads to
static u64 leaked(State& s, u64 mark) {
    std::vector<const ObjEnt*> todo; std::set<u64> found;
    for (auto& e : s.mem) if (e.o->kind == KGlobal || (e.o->kind == KHeap && e.base < mark)) todo.push_back(&e);
    while (!todo.empty()) {
        const ObjEnt* e = todo.back(); todo.pop_back(); const Object& o = *e->o;
        for (u64 i = 0; i + 8 <= o.size; i += 8) {
            u64 v = 0; bool con = true;
            for (unsigned j = 0; j < 8; ++j) { if (!o.s.empty() && o.s[i + j]) con = false; v |= (u64)o.c[i + j] << 8 * j; }
            if (!con || v < mark) continue;
            auto it = std::upper_bound(s.mem.begin(), s.mem.end(), v, [](u64 a, const ObjEnt& x) { return a < x.base; });
            if (it == s.mem.begin()) continue; --it;
            if (v <= it->base + it->size && it->o->kind == KHeap && found.insert(it->base).second) todo.push_back(&*it);
        }
    }
    u64 n = 0; for (auto& e : s.mem) if (e.o->kind == KHeap && e.o->how != 'e' && e.base >= mark && !found.count(e.base)) ++n;
    return n;
}
static void release(State& s, u64 base) {
    size_t lo = 0, hi = s.mem.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (s.mem[m].base < base) lo = m + 1; else hi = m; }
    if (lo < s.mem.size() && s.mem[lo].base == base) s.mem.erase(s.mem.begin() + lo);
}
static void copyMem(State& s, Val d, Val sr, Val n, unsigned nw) {
    u64 len = concretize(s, n, nw); if (!len) return; s.extra += len;
    if (d.e) d = CV(concretize(s, d, 64));
    if (sr.e) sr = CV(concretize(s, sr, 64));
    Node* off; u64 so, dof; bool ro, ro2;
    ObjEnt* se = resolve(s, sr, len, off, so, ro);
    ObjEnt* de = resolve(s, d, len, off, dof, ro2);
    if (ro2 || de->o->ro) { violate(s, *s.model, "memory", "write to a constant object"); throw PathEnd(); }
    if (de->o->kind == KGlobal) ++nGlobalWrites;
    if (s.thread) { if (!ro) access(s, se, so, len, false, false); access(s, de, dof, len, true, false); }
    ObjP keep = se->o; Object* so_ = keep.get(); Object* o = writable(s, de);
    if (o == so_) { // same object (never shared): go through a temporary
        Object t = *so_;
        for (u64 i = 0; i < len; ++i) { o->c[dof + i] = t.c[so + i]; if (!o->s.empty()) o->s[dof + i] = t.s[so + i]; if (!o->ini.empty()) o->ini[dof + i] = t.ini[so + i]; }
        return;
    }
    memcpy(&o->c[dof], &so_->c[so], len);
    bool ssym = false; if (!so_->s.empty()) for (u64 i = 0; i < len && !ssym; ++i) if (so_->s[so + i]) ssym = true;
    if (ssym && o->s.empty()) o->s.assign(o->size, nullptr);
    if (!o->s.empty()) for (u64 i = 0; i < len; ++i) o->s[dof + i] = so_->s.empty() ? nullptr : so_->s[so + i];
    bool suni = false; if (!so_->ini.empty()) for (u64 i = 0; i < len && !suni; ++i) if (!so_->ini[so + i]) suni = true;
    if (suni && o->ini.empty()) o->ini.assign(o->size, 1);
    if (!o->ini.empty()) for (u64 i = 0; i < len; ++i) o->ini[dof + i] = so_->ini.empty() ? 1 : so_->ini[so + i];
}
static std::string cstr(State& s, Val p) {
    std::string r;
    if (p.e) p = CV(concretize(s, p, 64));
    for (u64 i = 0; i < 4096; ++i) { Val v = load(s, CV(p.c + i), 8); if (v.e) unsupported("symbolic name in harness api"); if (!v.c) break; r += (char)v.c; }
    return r;
}

// ------------------------------------------------------------------ interpreter
static inline Val get(Frame& f, const Opd& o) { return o.slot >= 0 ? f.slots[o.slot] : CV(o.c); }
static inline Val getk(Frame& f, const Opd& o, unsigned k) { if (o.slot >= 0) return f.slots[o.slot + k]; if (o.multi) return CV((*o.multi)[k]); return CV(o.c); }
static inline Node* NN(Val v, unsigned w) { return v.e ? v.e : C.cst(w, v.c); }
static inline Val VV(Node* n) { if (Ctx::isC(n)) return CV(n->val); return {0, n}; }
static Val bin(Op op, Val a, Val b, unsigned w) { if (!a.e && !b.e) return CV(Ctx::foldBin(op, w, a.c, b.c)); return VV(C.mkBin(op, NN(a, w), NN(b, w))); }
static Val notv(Val a) { if (!a.e) return CV(!a.c); return VV(C.mkNot(a.e)); }
static Val icmp(unsigned p, Val a, Val b, unsigned w) {
    switch (p) {
    case CmpInst::ICMP_EQ: return bin(OEq, a, b, w);
    case CmpInst::ICMP_NE: return notv(bin(OEq, a, b, w));
    case CmpInst::ICMP_ULT: return bin(OUlt, a, b, w);
    case CmpInst::ICMP_UGT: return bin(OUlt, b, a, w);
    case CmpInst::ICMP_ULE: return notv(bin(OUlt, b, a, w));
    case CmpInst::ICMP_UGE: return notv(bin(OUlt, a, b, w));
    case CmpInst::ICMP_SLT: return bin(OSlt, a, b, w);
    case CmpInst::ICMP_SGT: return bin(OSlt, b, a, w);
    case CmpInst::ICMP_SLE: return notv(bin(OSlt, b, a, w));
    case CmpInst::ICMP_SGE: return notv(bin(OSlt, a, b, w));
    }
    unsupported("icmp predicate");
}
static Val ite(Val c, Val a, Val b, unsigned w) { if (!c.e) return (c.c & 1) ? a : b; return VV(C.mkIte(c.e, NN(a, w), NN(b, w))); }

static void jump(Frame& f, const Edge& e) {
    if (!e.phis.empty()) {
        static Vals tmp; tmp.clear();
        for (auto& p : e.phis) for (unsigned k = 0; k < p.n; ++k) tmp.push_back(getk(f, p.src, k));
        size_t i = 0;
        for (auto& p : e.phis) for (unsigned k = 0; k < p.n; ++k) f.slots[p.dst + k] = tmp[i++];
    }
    f.bb = e.to; f.ip = 0;
}
static void pushFrame(State& s, Fn* fn, const Vals& args, const Inst* call, int retSlot, unsigned retN) {
    ensure(fn); ++fn->calls;
    Frame n; n.f = fn; n.slots.assign(fn->nslots, CV(0)); n.call = call; n.retSlot = retSlot; n.retN = retN;
    size_t k = 0;
    for (size_t i = 0; i < fn->argSlot.size(); ++i) for (unsigned j = 0; j < fn->argN[i] && k < args.size(); ++j) n.slots[fn->argSlot[i] + j] = args[k++];
    s.fr.push_back(std::move(n));
    if (s.fr.size() > optMaxDepth) { violate(s, *s.model, "recursion", "call depth exceeds " + std::to_string(optMaxDepth)); throw PathEnd(); }
}
static void finishCall(State& s, const Inst& x, const Vals& r) { // after a builtin/merged call
    Frame& f = s.fr.back();
    for (size_t k = 0; k < r.size() && k < x.n; ++k) f.slots[x.dst + k] = r[k];
    if (!x.e.empty()) jump(f, x.e[0]); else ++f.ip;
}

static void explore(bool nested);
struct MergeKey { Fn* f; std::vector<u64> k; bool operator<(const MergeKey& o) const { return f != o.f ? f < o.f : k < o.k; } };
static std::map<MergeKey, std::pair<Val, u64>> mergeCache;       // result and cost
static Node* treeVal(TreeNode* t, unsigned w, bool& ok) {
    if (!t->cond) { if (!t->done) { ok = false; return C.cst(w, 0); } return NN(t->ret, w); }
    Node* a = treeVal(t->t, w, ok); Node* b = treeVal(t->f, w, ok);
    return C.mkIte(t->cond, a, b);
}
static std::vector<StateP>* nestedDone = nullptr;
static bool mergeCall(State& s, Fn* fn, const Vals& args, Val& out) {
    // relevant path condition: anything connected with the arguments
    VSet vs; for (auto& a : args) if (a.e) vs |= C.vset(a.e);
    MergeKey key; key.f = fn;
    for (auto& a : args) { key.k.push_back(a.e ? 1 : 0); key.k.push_back(a.e ? a.e->id : a.c); }
    std::vector<char> in(s.pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); ++i) if (!in[i] && (C.vset(s.pc[i]) & vs).any()) { in[i] = 1; vs |= C.vset(s.pc[i]); ch = true; } }
    std::vector<u64> ids; for (size_t i = 0; i < s.pc.size(); ++i) if (in[i]) ids.push_back(s.pc[i]->id);
    std::sort(ids.begin(), ids.end()); key.k.insert(key.k.end(), ids.begin(), ids.end());
    bool pureMem = fn->F->doesNotAccessMemory() || fn->name.rfind("merge_", 0) == 0;
    if (pureMem) { auto it = mergeCache.find(key); if (it != mergeCache.end()) { ++nMergeHits; out = it->second.first; s.extra += it->second.second; return true; } }
    StateP sub(new State(s));
    Frame keepTop = s.fr.back(); (void)keepTop;
    sub->fr.clear();
    TreeNode* root = new TreeNode(); sub->leaf = root;
    size_t vbefore = viols.size(); u64 gw = nGlobalWrites;
    std::vector<StateP> savedWork; savedWork.swap(work);
    std::vector<StateP>* savedDone = nestedDone; std::vector<StateP> done; nestedDone = &done;
    u64 savedPaths = nPaths;
    ++mergeDepth;
    bool ok = true;
    try { pushFrame(*sub, fn, args, nullptr, -1, 0); } catch (PathEnd&) { ok = false; }
    if (ok) { work.push_back(std::move(sub)); explore(true); }
    --mergeDepth;
    nestedDone = savedDone; work.swap(savedWork); nPaths = savedPaths;
    if (viols.size() != vbefore || stopAll) { // a violation inside: keep it, do not merge
        viols.resize(std::min(viols.size(), vbefore)); stopAll = stopAll && viols.size() >= optMaxViol; ok = false;
    }
    if (nGlobalWrites != gw) ok = false;
    if (ok) for (auto& d : done) {
        if (d->mem.size() != s.mem.size() || d->ins.size() != s.ins.size() || d->obs.size() != s.obs.size()) { ok = false; break; }
        for (size_t i = 0; i < s.mem.size(); ++i) if (d->mem[i].base != s.mem[i].base || d->mem[i].o != s.mem[i].o) { ok = false; break; }
        if (!ok) break;
    }
    Node* v = nullptr;
    if (ok) v = treeVal(root, fn->retW, ok);
    if (!ok) { fn->mergeable = false; return false; }
    ++nMerges;
    out = VV(v);
    u64 most = 0; for (auto& d : done) most = std::max(most, d->steps + d->extra - (s.steps + s.extra));
    s.extra += most;
    if (pureMem) mergeCache[key] = {out, most};
    return true;
}

static std::unordered_map<std::string, u64> typeIds;
static u64 typeId(const std::string& t) { return typeIds.emplace(t, typeIds.size() + 1).first->second; }
static bool doIntrinsic(State& s, const Inst& x, Fn* fn, Vals& a, Vals& r) {
    Frame& f = s.fr.back(); (void)f;
    const std::string& n = fn->name;
    auto st = [&](const char* p) { return n.rfind(p, 0) == 0; };
    if (st("llvm.lifetime.") || st("llvm.dbg.") || st("llvm.assume") || st("llvm.experimental.noalias") || st("llvm.donothing") || st("llvm.stackrestore") || st("llvm.var.annotation") || st("llvm.prefetch") || st("llvm.invariant.end")) return true;
    if (st("llvm.stacksave") || st("llvm.invariant.start")) { r.push_back(CV(0)); return true; }
    if (st("llvm.memcpy") || st("llvm.memmove")) { copyMem(s, a[0], a[1], a[2], x.argW[2]); return true; }
    if (st("llvm.memset")) {
        u64 len = concretize(s, a[2], x.argW[2]); if (!len) return true;
        Val d = a[0]; if (d.e) d = CV(concretize(s, d, 64));
        Node* off; u64 co; bool ro; ObjEnt* e = resolve(s, d, len, off, co, ro);
        if (ro || e->o->ro) { violate(s, *s.model, "memory", "write to a constant object"); throw PathEnd(); }
        if (e->o->kind == KGlobal) ++nGlobalWrites;
        if (s.thread) access(s, e, co, len, true, false);
        Object* o = writable(s, e); for (u64 i = 0; i < len; ++i) storeAt(o, co + i, a[1], 8);
        return true;
    }
    if (st("llvm.expect") || st("llvm.annotation") || st("llvm.ptr.annotation") || st("llvm.launder.invariant") || st("llvm.strip.invariant")) { r.push_back(a[0]); return true; }
    if (st("llvm.eh.typeid.for")) { auto* g = dyn_cast<GlobalVariable>(cast<CallBase>(x.I)->getArgOperand(0)->stripPointerCasts()); if (!g) return false; r.push_back(CV(typeId(g->getName().str()))); return true; }
    if (st("llvm.threadlocal.address")) { r.push_back(a[0]); return true; }
    if (st("llvm.is.constant")) { r.push_back(CV(a[0].e ? 0 : 1)); return true; }
    if (st("llvm.objectsize")) { r.push_back(CV((a[1].c & 1) ? 0 : ~0ull)); return true; }
    if (st("llvm.trap") || st("llvm.ubsantrap") || st("llvm.debugtrap")) {
        std::string k = "undefined behaviour trap"; if (st("llvm.ubsantrap") && !a.empty()) k += " (check kind " + std::to_string(a[0].c) + ")";
        violate(s, *s.model, "ub", k); throw PathEnd();
    }
    unsigned w = x.w;
    if (st("llvm.umin") || st("llvm.umax") || st("llvm.smin") || st("llvm.smax")) {
        bool sg = n[5] == 's'; bool mn = n[7] == 'i';
        Val lt = bin(sg ? OSlt : OUlt, a[0], a[1], w);
        r.push_back(mn ? ite(lt, a[0], a[1], w) : ite(lt, a[1], a[0], w)); return true;
    }
    if (st("llvm.abs")) { Val ng = bin(OSlt, a[0], CV(0), w); r.push_back(ite(ng, bin(OSub, CV(0), a[0], w), a[0], w)); return true; }
    if (st("llvm.usub.sat")) { Val lt = bin(OUlt, a[0], a[1], w); r.push_back(ite(lt, CV(0), bin(OSub, a[0], a[1], w), w)); return true; }
    if (st("llvm.uadd.sat")) { Val sm = bin(OAdd, a[0], a[1], w); r.push_back(ite(bin(OUlt, sm, a[0], w), CV(maskw(w)), sm, w)); return true; }
    if (st("llvm.fshl") || st("llvm.fshr")) {
        bool l = n[8] == 'l'; u64 sh = concretize(s, a[2], w) % w;
        if (!sh) { r.push_back(l ? a[0] : a[1]); return true; }
        u64 ls = l ? sh : w - sh;
        r.push_back(bin(OOr, bin(OShl, a[0], CV(ls), w), bin(OLShr, a[1], CV(w - ls), w), w)); return true;
    }
    if (st("llvm.bswap")) { Val o = CV(0); for (unsigned i = 0; i < w; i += 8) { Val b = bin(OAnd, bin(OLShr, a[0], CV(i), w), CV(0xff), w); o = bin(OOr, o, bin(OShl, b, CV(w - 8 - i), w), w); } r.push_back(o); return true; }
    if (st("llvm.bitreverse")) { Val o = CV(0); for (unsigned i = 0; i < w; ++i) { Val b = bin(OAnd, bin(OLShr, a[0], CV(i), w), CV(1), w); o = bin(OOr, o, bin(OShl, b, CV(w - 1 - i), w), w); } r.push_back(o); return true; }
    if (st("llvm.ctpop")) { Val o = CV(0); for (unsigned i = 0; i < w; ++i) o = bin(OAdd, o, bin(OAnd, bin(OLShr, a[0], CV(i), w), CV(1), w), w); r.push_back(o); return true; }
    if (st("llvm.ctlz") || st("llvm.cttz")) {
        bool lead = n[7] == 'l'; Val o = CV(w);
        for (unsigned j = 0; j < w; ++j) { unsigned bit = lead ? j : w - 1 - j; Val b = bin(OAnd, bin(OLShr, a[0], CV(bit), w), CV(1), w); o = ite(bin(OEq, b, CV(1), w), CV(lead ? w - 1 - bit : bit), o, w); }
        r.push_back(o); return true;
    }
    if (n.find(".with.overflow.") != std::string::npos) {
        unsigned aw = x.argW[0]; char k = n[5]; std::string o = n.substr(6, 3);
        Op op = o == "add" ? OAdd : o == "sub" ? OSub : OMul; bool sg = k == 's';
        Val v = bin(op, a[0], a[1], aw); Val ov;
        if (!a[0].e && !a[1].e) {
            __int128 A = sg ? (__int128)sx(a[0].c, aw) : (__int128)a[0].c, B = sg ? (__int128)sx(a[1].c, aw) : (__int128)a[1].c;
            __int128 R = op == OAdd ? A + B : op == OSub ? A - B : A * B;
            if (!sg && op == OMul) { unsigned __int128 UR = (unsigned __int128)a[0].c * a[1].c; ov = CV((UR >> aw) != 0); }
            else ov = CV(sg ? (R != (__int128)sx((u64)R & maskw(aw), aw)) : (R < 0 || (R >> aw) != 0));
        } else if (aw * 2 <= 64 || op != OMul) {
            if (!sg && op == OAdd) ov = bin(OUlt, v, a[0], aw);
            else if (!sg && op == OSub) ov = bin(OUlt, a[0], a[1], aw);
            else if (sg && op == OAdd) { Val sa = bin(OSlt, a[0], CV(0), aw), sb = bin(OSlt, a[1], CV(0), aw), sv = bin(OSlt, v, CV(0), aw); ov = bin(OAnd, notv(bin(OXor, sa, sb, 1)), bin(OXor, sa, sv, 1), 1); }
            else if (sg && op == OSub) { Val sa = bin(OSlt, a[0], CV(0), aw), sb = bin(OSlt, a[1], CV(0), aw), sv = bin(OSlt, v, CV(0), aw); ov = bin(OAnd, bin(OXor, sa, sb, 1), bin(OXor, sa, sv, 1), 1); }
            else { Node* A = sg ? C.mkSExt(NN(a[0], aw), aw * 2) : C.mkZExt(NN(a[0], aw), aw * 2); Node* B = sg ? C.mkSExt(NN(a[1], aw), aw * 2) : C.mkZExt(NN(a[1], aw), aw * 2); Node* R = C.mkBin(OMul, A, B); Node* lo = C.mkTrunc(R, aw); Node* X = sg ? C.mkSExt(lo, aw * 2) : C.mkZExt(lo, aw * 2); ov = notv(VV(C.mkBin(OEq, X, R))); }
        } else { u64 p = concretize(s, a[0], aw), q = concretize(s, a[1], aw); Vals a2{CV(p), CV(q)}; return doIntrinsic(s, x, fn, a2, r); }
        r.push_back(v); r.push_back(ov); return true;
    }
    return false;
}

// ------------------------------------------------------------------ exceptions
static std::string thrownBy(const std::string& fn) {
    static const char* const t[][2] = {{"out_of_range", "_ZTISt12out_of_range"}, {"length_error", "_ZTISt12length_error"}, {"logic_error", "_ZTISt11logic_error"}, {"invalid_argument", "_ZTISt16invalid_argument"}, {"domain_error", "_ZTISt12domain_error"}, {"runtime_error", "_ZTISt13runtime_error"}, {"range_error", "_ZTISt11range_error"}, {"overflow_error", "_ZTISt14overflow_error"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"bad_array_new", "_ZTISt20bad_array_new_length"}, {"bad_function_call", "_ZTISt17bad_function_call"}};
    for (auto& e : t) if (fn.find(e[0]) != std::string::npos) return e[1];
    return "_ZTISt9exception";
}
static bool derives(const std::string& t, const std::string& b) {
    if (t == b) return true;
    static const std::unordered_map<std::string, std::string> base = {{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
    auto it = base.find(t); if (it != base.end()) return derives(it->second, b);
    auto* g = M->getNamedGlobal(t); if (!g || !g->hasInitializer()) return false;
    auto* c = dyn_cast<ConstantStruct>(g->getInitializer()); if (!c) return false;
    for (unsigned i = 2; i < c->getNumOperands(); ++i) if (auto* v = dyn_cast<GlobalVariable>(c->getOperand(i)->stripPointerCasts())) if (derives(v->getName().str(), b)) return true;
    return false;
}
// what the landing pad of this call does with the exception: 0 nothing, 1 clean up, 2 catch
static int landing(const Inst* x, const std::string& type, u64& sel) {
    sel = 0; auto* iv = x ? dyn_cast<InvokeInst>(x->I) : nullptr; if (!iv) return 0;
    auto* lp = iv->getLandingPadInst();
    for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
        if (lp->isFilter(i)) unsupported("exception specification");
        auto* g = dyn_cast<GlobalVariable>(lp->getClause(i)->stripPointerCasts());
        if (!g || derives(type, g->getName().str())) { sel = g ? typeId(g->getName().str()) : ~0u >> 1; return 2; }
    }
    return lp->isCleanup() ? 1 : 0;
}
static void unwindTo(State& s, const State::Exc& e, const Inst* x, const std::string& msg) {
    u64 sel; bool handled = false; const Inst* c = x;
    for (size_t i = s.fr.size(); i-- > 0;) { if (landing(c, e.type, sel) == 2) { handled = true; break; } if (s.fr[i].inject) break; c = s.fr[i].call; }
    if (!handled) { violate(s, *s.model, "exception", msg); throw PathEnd(); }
    s.exc = e; c = x;
    for (;;) {
        if (landing(c, e.type, sel)) { s.excSel = sel; jump(s.fr.back(), c->e[1]); return; }
        Frame& f = s.fr.back(); for (u64 a : f.allocas) release(s, a);
        c = f.call; s.fr.pop_back();
    }
}

static void recordReach(State& s, const std::string& nm) {
    auto it = reachIdx.find(nm); int k;
    if (it == reachIdx.end()) { k = (int)reachNames.size(); reachNames.push_back(nm); reachCnt.push_back(0); reachIdx[nm] = k; } else k = it->second;
    ++reachCnt[k]; (void)s;
}
static void doCall(State& s, const Inst& x) {
    Frame& f = s.fr.back();
    Fn* fn = x.callee;
    Vals a;
    for (size_t i = 0; i < x.argW.size(); ++i) {
        unsigned n = 1; const auto* arg = cast<CallBase>(x.I)->getArgOperand((unsigned)i); Type* t = arg->getType();
        if (t->isMetadataTy()) { a.push_back(CV(0)); continue; }
        n = (x.argW[i]) ? 1 : slotsOf(t);
        for (unsigned k = 0; k < n; ++k) a.push_back(getk(f, x.o[i], k));
    }
    if (!fn) {
        Val p = get(f, x.o.back()); u64 t = concretize(s, p, 64);
        auto it = fnAt.find(t);
        if (it == fnAt.end()) { violate(s, *s.model, "memory", "call through an invalid function pointer"); throw PathEnd(); }
        fn = it->second;
    }
    Vals r;
    if (fn->F->isIntrinsic()) { if (!doIntrinsic(s, x, fn, a, r)) unsupported("intrinsic " + fn->name); finishCall(s, x, r); return; }
    switch (fn->builtin) {
    case 0: break;
    case BI_new: case BI_newarr: case BI_malloc: {
        u64 n = concretize(s, a[0], 64);
        if (s.failIn && --s.failIn == 0) {
            s.failed = true;
            if (fn->builtin == BI_malloc || a.size() > 1) { r.push_back(CV(0)); finishCall(s, x, r); return; }
            State::Exc e; e.type = "_ZTISt9bad_alloc"; e.obj = alloc(s, 64, KHeap, 'e', true); unwindTo(s, e, &x, "bad_alloc thrown by " + fn->dem); return;
        }
        if (n > (1ull << 40)) { violate(s, *s.model, "exception", "allocation of an absurd size"); throw PathEnd(); }
        r.push_back(CV(alloc(s, n, KHeap, fn->builtin == BI_new ? 'n' : fn->builtin == BI_newarr ? 'a' : 'm', false))); finishCall(s, x, r); return;
    }
    case BI_ctors: finishCall(s, x, r); for (size_t i = lateCtors.size(); i-- > 0;) pushFrame(s, getFn(lateCtors[i]), {}, nullptr, -1, 0); return;
    case BI_fail: s.failIn = concretize(s, a[0], 64); r.push_back(CV(s.failed)); s.failed = false; finishCall(s, x, r); return;
    case BI_calloc: if (s.failIn && --s.failIn == 0) { s.failed = true; r.push_back(CV(0)); finishCall(s, x, r); return; } else { u64 n = concretize(s, a[0], 64) * concretize(s, a[1], 64); r.push_back(CV(alloc(s, n, KHeap, 'm', true))); finishCall(s, x, r); return; }
    case BI_realloc: {
        u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
        if (n > (1ull << 40)) { violate(s, *s.model, "exception", "allocation of an absurd size"); throw PathEnd(); }
        u64 old = 0;
        if (p) {
            bool ro; ObjEnt* e = findObj(s, p, ro);
            if (!e || ro || e->base != p || e->o->kind != KHeap || e->o->how != 'm') { violate(s, *s.model, "memory", "realloc of memory that is not an allocated block"); throw PathEnd(); }
            old = e->size;
        }
        if (s.failIn && --s.failIn == 0) { s.failed = true; r.push_back(CV(0)); finishCall(s, x, r); return; }
        u64 q = alloc(s, n, KHeap, 'm', false);
        if (p) { if (old && n) copyMem(s, CV(q), CV(p), CV(std::min(old, n)), 64); release(s, p); }
        r.push_back(CV(q)); finishCall(s, x, r); return;
    }
    case BI_thread: { // sym_thread(n): 1 starts, 0 ends
        int n = (int)concretize(s, a[0], 64); if (s.thread == 0 && n) { s.brk0 = s.brk; s.log.clear(); s.preempted = false; }
        threadSwitch(s, n); if (!n) s.preFn = nullptr; finishCall(s, x, r); return;
    }
    case BI_preempt: { u64 t = concretize(s, a[0], 64); auto it = fnAt.find(t); if (it == fnAt.end()) unsupported("sym_preempt"); s.preFn = it->second; s.preArg = a[1]; finishCall(s, x, r); return; }
    case BI_preempted: r.push_back(CV(s.preempted ? 1 : 0)); finishCall(s, x, r); return;
    case BI_lock: {
        u64 m = concretize(s, a[0], 64);
        for (auto& l : s.locks) if (l.first == m) {
            if (l.second != s.thread && s.preempted && s.thread == 2) throw PathEnd();     // the schedule is not possible
            violate(s, *s.model, "deadlock", "a mutex is locked again"); throw PathEnd();
        }
        s.locks.push_back({m, s.thread}); r.push_back(CV(0)); finishCall(s, x, r); return;
    }
    case BI_unlock: { u64 m = concretize(s, a[0], 64); for (size_t i = 0; i < s.locks.size(); ++i) if (s.locks[i].first == m) { s.locks.erase(s.locks.begin() + i); break; } r.push_back(CV(0)); finishCall(s, x, r); return; }
    case BI_region: ++s.guard; finishCall(s, x, r); return;
    case BI_guard_rel: if (s.guard) --s.guard; finishCall(s, x, r); return;
    case BI_delete: case BI_deletearr: case BI_free: {
        u64 p = concretize(s, a[0], 64);
        if (p) {
            bool ro; ObjEnt* e = findObj(s, p, ro);
            char how = fn->builtin == BI_delete ? 'n' : fn->builtin == BI_deletearr ? 'a' : 'm';
            if (!e || ro || e->base != p || e->o->kind != KHeap) { violate(s, *s.model, "memory", "free of memory that is not an allocated block"); throw PathEnd(); }
            if (e->o->how != how) { violate(s, *s.model, "memory", "mismatched allocation and deallocation functions"); throw PathEnd(); }
            if (s.thread && e->size) access(s, e, 0, e->size, true, false);
            release(s, p);
        }
        finishCall(s, x, r); return;
    }
    case BI_nop: if (x.n) r.push_back(CV(0)); finishCall(s, x, r); return;
    case BI_guard_acq: { Val g = load(s, a[0], 8); if (g.e) unsupported("symbolic guard"); if (!g.c) { ++s.guard; store(s, a[0], CV(1), 8); } r.push_back(CV(g.c ? 0 : 1)); finishCall(s, x, r); return; }
    case BI_throw: {
        State::Exc e; e.type = thrownBy(fn->name); e.obj = alloc(s, 64, KHeap, 'e', true);
        unwindTo(s, e, &x, "exception thrown by " + fn->dem); return;
    }
    case BI_exalloc: r.push_back(CV(alloc(s, concretize(s, a[0], 64) + 16, KHeap, 'e', false))); finishCall(s, x, r); return;
    case BI_exfree: finishCall(s, x, r); return;
    case BI_exptr: r.push_back(a[0]); finishCall(s, x, r); return;
    case BI_cxathrow: {
        State::Exc e; e.obj = concretize(s, a[0], 64); e.dtor = concretize(s, a[2], 64);
        auto* g = dyn_cast<GlobalVariable>(cast<CallBase>(x.I)->getArgOperand(1)->stripPointerCasts()); if (!g) unsupported("exception type");
        e.type = g->getName().str(); unwindTo(s, e, &x, "exception thrown by " + fn->dem); return;
    }
    case BI_rethrow: {
        if (s.caught.empty()) { violate(s, *s.model, "abort", "rethrow without an exception"); throw PathEnd(); }
        State::Exc e = s.caught.back(); s.caught.back().again = true; e.again = false; unwindTo(s, e, &x, "exception thrown again"); return;
    }
    case BI_catch: s.caught.push_back(s.exc); r.push_back(CV(s.exc.obj)); finishCall(s, x, r); return;
    case BI_endcatch: {
        if (s.caught.empty()) unsupported("end of catch");
        State::Exc e = s.caught.back(); s.caught.pop_back(); finishCall(s, x, r);
        if (!e.again && e.dtor) { auto it = fnAt.find(e.dtor); if (it != fnAt.end() && !it->second->F->isDeclaration()) pushFrame(s, it->second, Vals{CV(e.obj)}, nullptr, -1, 0); }
        return;
    }
    case BI_abort: violate(s, *s.model, "abort", fn->dem + " called"); throw PathEnd();
    case BI_memcpy: case BI_memmove: copyMem(s, a[0], a[1], a[2], 64); r.push_back(a[0]); finishCall(s, x, r); return;
    case BI_memset: {
        u64 len = concretize(s, a[2], 64); Val d = a[0]; if (d.e) d = CV(concretize(s, d, 64));
        s.extra += len; if (len) { Node* off; u64 co; bool ro; ObjEnt* e = resolve(s, d, len, off, co, ro); if (ro || e->o->ro) { violate(s, *s.model, "memory", "write to a constant object"); throw PathEnd(); }
            if (e->o->kind == KGlobal) ++nGlobalWrites;
            if (s.thread) access(s, e, co, len, true, false);
            Val b = a[1].e ? VV(C.mkTrunc(a[1].e, 8)) : CV(a[1].c & 0xff); Object* o = writable(s, e); for (u64 i = 0; i < len; ++i) storeAt(o, co + i, b, 8); }
        r.push_back(a[0]); finishCall(s, x, r); return;
    }
    case BI_sym: { // sym_units(void* p, size_t unitBytes, size_t count, const char* name)
        u64 p = concretize(s, a[0], 64), ub = concretize(s, a[1], 64), n = concretize(s, a[2], 64); std::string nm = cstr(s, a[3]);
        InRec in; in.name = nm; in.w = (unsigned)ub * 8; int occ = 0; for (auto& q : s.ins) if (q.name == nm) ++occ;
        std::string pre = nm + (occ ? "~" + std::to_string(occ) : "") + ":" + std::to_string(in.w);
        Node* off; u64 co; bool ro;
        if (n) { ObjEnt* e = resolve(s, CV(p), ub * n, off, co, ro); Object* o = writable(s, e);
            for (u64 i = 0; i < n; ++i) { Node* v = C.var(pre + "[" + std::to_string(i) + "]", (unsigned)ub * 8); in.vars.push_back(v); storeAt(o, co + i * ub, {0, v}, (unsigned)ub * 8); } }
        s.ins.push_back(in);
        if (s.model->v.size() < C.vars.size()) { auto m = std::make_shared<Model>(*s.model); m->v.resize(C.vars.size(), 0); m->stamp = ++C.stampCtr; s.model = m; }
        finishCall(s, x, r); return;
    }
    case BI_assume: {
        Val c = a[0]; unsigned w = x.argW[0]; if (w != 1) c = notv(bin(OEq, c, CV(0), w));
        if (!c.e) { if (!c.c) { ++nAssumeDead; throw PathEnd(); } finishCall(s, x, r); return; }
        ModelP m; Res q = feasible(s, c.e, m);
        if (q != SAT) { ++nAssumeDead; throw PathEnd(); }
        s.model = m; addPc(s, c.e); finishCall(s, x, r); return;
    }
    case BI_check: { // sym_check_(bool, const char*)
        Val c = a[0]; unsigned w = x.argW[0]; if (w != 1) c = notv(bin(OEq, c, CV(0), w));
        std::string nm = cstr(s, a[1]);
        { auto it = checkIdx.find(nm); int k; if (it == checkIdx.end()) { k = (int)checkNames.size(); checkNames.push_back(nm); checkCnt.push_back(0); checkIdx[nm] = k; } else k = it->second; ++checkCnt[k]; }
        ++nChecks;
        if (!c.e) { if (!c.c) { violate(s, *s.model, "check", nm); throw PathEnd(); } finishCall(s, x, r); return; }
        ++nChecksSolver;
        ModelP m; Res q = feasible(s, C.mkNot(c.e), m);
        if (q == UNKNOWN) throw PathEnd();
        if (q == SAT) {
            violate(s, *m, "check", nm);
            Res q2 = feasible(s, c.e, m); if (q2 != SAT) throw PathEnd();
            s.model = m; addPc(s, c.e);
        }
        finishCall(s, x, r); return;
    }
    case BI_reach: recordReach(s, cstr(s, a[0])); finishCall(s, x, r); return;
    case BI_observe: s.obs.push_back({a[0], 64}); finishCall(s, x, r); return;
    case BI_param: { std::string nm = cstr(s, a[0]); auto it = params.find(nm); r.push_back(it == params.end() ? a[1] : CV(it->second)); finishCall(s, x, r); return; }
    case BI_concretize: r.push_back(CV(concretize(s, a[0], 64))); finishCall(s, x, r); return;
    case BI_snap: { auto p = std::make_shared<State::Snap>(); p->mem = s.mem; for (int i = 0; i < 3; ++i) p->tls[i] = s.tls[i]; s.snaps.push_back(p); finishCall(s, x, r); return; }
    case BI_unsnap: {   // sym_restore(out, n): everything but these bytes is as it was
        std::shared_ptr<State::Snap> p = s.snaps.back(); s.snaps.pop_back();
        bool ro; ObjEnt* now = findObj(s, a[0].c, ro); if (!now) unsupported("sym_restore"); ObjP keep = now->o; u64 base = now->base;
        s.mem = p->mem; for (int i = 0; i < 3; ++i) s.tls[i] = p->tls[i];
        ObjEnt* e = findObj(s, base, ro); if (!e) unsupported("sym_restore"); e->o = keep;
        finishCall(s, x, r); return;
    }
    case BI_mark: r.push_back(CV(s.brk)); finishCall(s, x, r); return;
    case BI_cost: r.push_back(CV(s.steps + s.extra)); finishCall(s, x, r); return;
    case BI_bytes: r.push_back(CV(s.heapBytes)); finishCall(s, x, r); return;
    case BI_leaked: r.push_back(CV(leaked(s, a[0].c))); finishCall(s, x, r); return;
    }
    if (fn->F->isDeclaration()) unsupported("call to external function " + fn->dem + " [" + fn->name + "]");
    for (u64 bv : x.scale) { // byval arguments: callee gets its own copy
        unsigned i = bv & 0xffff; u64 sz = bv >> 16; u64 p = alloc(s, sz, KStack, 0, false); Val pv = CV(p); copyMem(s, pv, a[i], CV(sz), 64); a[i] = pv; f.allocas.push_back(p);
    }
    if (optMerge && fn->mergeable && fn->intArgsOnly && mergeDepth < 8) {
        bool anySym = false; for (auto& v : a) if (v.e) anySym = true;
        if (anySym) { Val o; if (mergeCall(s, fn, a, o)) { r.push_back(o); finishCall(s, x, r); return; } }
    }
    // ordinary call: the caller resumes after it
    Frame& f2 = s.fr.back();
    int rs = x.n ? x.dst : -1; unsigned rn = x.n;
    if (x.e.empty()) ++f2.ip;     // invoke: the jump happens on return
    pushFrame(s, fn, a, &x, rs, rn);
}

static void step(State& s) {
    Frame& f = s.fr.back();
    const Inst& x = f.f->bb[f.bb].code[f.ip];
    if (x.scope >= 0) scopeHit[x.scope] = 1;
    switch (x.op) {
    case IBin: {
        for (unsigned k = 0; k < x.n; ++k) {
            Val a = getk(f, x.o[0], k), b = getk(f, x.o[1], k);
            if (x.sub >= OUDiv && x.sub <= OSRem) {
                Val z = bin(OEq, b, CV(0), x.w);
                if (z.e ? decide(s, z) : z.c) { violate(s, *s.model, "ub", "division by zero"); throw PathEnd(); }
            }
            f.slots[x.dst + k] = bin((Op)x.sub, a, b, x.w);
        }
        ++f.ip; break;
    }
    case ICmp: for (unsigned k = 0; k < x.n; ++k) f.slots[x.dst + k] = icmp(x.sub, getk(f, x.o[0], k), getk(f, x.o[1], k), x.w2); ++f.ip; break;
    case ISelect: {
        for (unsigned k = 0; k < x.n; ++k) { unsigned w = x.n == 1 && x.w ? x.w : x.lw[k]; f.slots[x.dst + k] = ite(getk(f, x.o[0], x.a > 1 ? k : 0), getk(f, x.o[1], k), getk(f, x.o[2], k), w); }
        ++f.ip; break;
    }
    case IZExt: for (unsigned k = 0; k < x.n; ++k) { Val a = getk(f, x.o[0], k); f.slots[x.dst + k] = a.e ? VV(C.mkZExt(a.e, x.w)) : a; } ++f.ip; break;
    case ISExt: for (unsigned k = 0; k < x.n; ++k) { Val a = getk(f, x.o[0], k); f.slots[x.dst + k] = a.e ? VV(C.mkSExt(a.e, x.w)) : CV((u64)sx(a.c, x.w2) & maskw(x.w)); } ++f.ip; break;
    case ITrunc: for (unsigned k = 0; k < x.n; ++k) { Val a = getk(f, x.o[0], k); f.slots[x.dst + k] = a.e ? VV(C.mkTrunc(a.e, x.w)) : CV(a.c & maskw(x.w)); } ++f.ip; break;
    case IMove: for (unsigned k = 0; k < x.n && !x.o.empty(); ++k) f.slots[x.dst + k] = getk(f, x.o[0], k); ++f.ip; break;
    case ILoad: {
        curAtomic = s.thread && cast<LoadInst>(x.I)->isAtomic();
        Val p = get(f, x.o[0]);
        if (x.lw.size() == 1) { Val v = load(s, p, x.lw[0]); s.fr.back().slots[x.dst] = v; }
        else { Vals t; for (size_t k = 0; k < x.lw.size(); ++k) t.push_back(load(s, bin(OAdd, p, CV(x.scale[k]), 64), x.lw[k])); for (size_t k = 0; k < t.size(); ++k) s.fr.back().slots[x.dst + k] = t[k]; }
        ++s.fr.back().ip; break;
    }
    case IStore: {
        curAtomic = s.thread && cast<StoreInst>(x.I)->isAtomic();
        Val p = get(f, x.o[0]); if (p.e) p = CV(concretize(s, p, 64));
        for (size_t k = 0; k < x.lw.size(); ++k) store(s, bin(OAdd, p, CV(x.scale[k]), 64), getk(f, x.o[1], (unsigned)k), x.lw[k]);
        ++f.ip; break;
    }
    case IGep: {
        Val p = get(f, x.o[0]);
        for (size_t k = 1; k < x.o.size(); ++k) {
            Val i = get(f, x.o[k]); unsigned iw = x.lw[k - 1];
            if (iw < 64) i = i.e ? VV(C.mkSExt(i.e, 64)) : CV((u64)sx(i.c, iw));
            p = bin(OAdd, p, bin(OMul, i, CV(x.scale[k - 1]), 64), 64);
        }
        if (x.imm) p = bin(OAdd, p, CV(x.imm), 64);
        f.slots[x.dst] = p; ++f.ip; break;
    }
    case IAlloca: { u64 n = concretize(s, get(f, x.o[0]), x.w2); u64 p = alloc(s, x.imm * n, KStack, 0, false); f.allocas.push_back(p); f.slots[x.dst] = CV(p); ++f.ip; break; }
    case IBr: jump(f, x.e[0]); break;
    case ICondBr: { bool t = decide(s, get(f, x.o[0])); jump(f, x.e[t ? 0 : 1]); break; }
    case ISwitch: {
        Val v = get(f, x.o[0]);
        if (!v.e) { int k = 0; for (size_t i = 0; i < x.scale.size(); ++i) if (x.scale[i] == v.c) { k = x.lw[i]; break; } jump(f, x.e[k]); break; }
        // current model's target; fork on "any other target"
        u64 cv = C.eval(v.e, s.model->v, s.model->stamp);
        int k = 0; for (size_t i = 0; i < x.scale.size(); ++i) if (x.scale[i] == cv) { k = x.lw[i]; break; }
        Node* c = C.F();
        for (size_t i = 0; i < x.scale.size(); ++i) if (k == 0 ? x.lw[i] != 0 : x.lw[i] == k) c = C.mkBin(OOr, c, C.mkBin(OEq, v.e, C.cst(x.w, x.scale[i])));
        if (k == 0) c = C.mkNot(c);
        bool t = decide(s, VV(c)); (void)t; // true under the current model
        jump(f, x.e[k]); break;
    }
    case IRet: {
        Vals r; for (unsigned k = 0; k < x.n; ++k) r.push_back(getk(f, x.o[0], k));
        for (u64 a : f.allocas) release(s, a);
        const Inst* call = f.call; int rs = f.retSlot; unsigned rn = f.retN;
        if (f.inject) threadSwitch(s, 1);
        s.fr.pop_back();
        if (s.fr.empty()) { s.ret = r; return; }
        Frame& c = s.fr.back();
        if (rs >= 0) for (unsigned k = 0; k < rn && k < r.size(); ++k) c.slots[rs + k] = r[k];
        if (call && !call->e.empty()) jump(c, call->e[0]);
        break;
    }
    case ICall: curAtomic = false; doCall(s, x); break;
    case ILand: f.slots[x.dst] = CV(s.exc.obj); f.slots[x.dst + 1] = CV(s.excSel); ++f.ip; break;
    case IResume: unwindTo(s, State::Exc(s.exc), &x, "exception"); break;
    case IUnreach: violate(s, *s.model, "ub", "unreachable code reached"); throw PathEnd();
    case IExtractV: for (unsigned k = 0; k < x.n; ++k) f.slots[x.dst + k] = getk(f, x.o[0], x.a + k); ++f.ip; break;
    case IInsertV: {
        Vals t; for (unsigned k = 0; k < x.n; ++k) t.push_back(k >= x.a && k < x.a + x.b ? getk(f, x.o[1], k - x.a) : getk(f, x.o[0], k));
        for (unsigned k = 0; k < x.n; ++k) f.slots[x.dst + k] = t[k]; ++f.ip; break;
    }
    case IFp: {
        Val a = get(f, x.o[0]), b = get(f, x.o[1]); if (a.e || b.e) unsupported("symbolic floating point");
        auto run = [&](auto p, auto q) { switch (x.a) { case Instruction::FAdd: return p + q; case Instruction::FSub: return p - q; case Instruction::FMul: return p * q; default: return p / q; } };
        u64 r = 0; if (x.w == 32) { float p, q; uint32_t t = (uint32_t)a.c; memcpy(&p, &t, 4); t = (uint32_t)b.c; memcpy(&q, &t, 4); float z = run(p, q); memcpy(&r, &z, 4); } else { double p, q; memcpy(&p, &a.c, 8); memcpy(&q, &b.c, 8); double z = run(p, q); memcpy(&r, &z, 8); }
        f.slots[x.dst] = CV(r); ++f.ip; break;
    }
    case IFCmp: {
        Val a = get(f, x.o[0]), b = get(f, x.o[1]); if (a.e || b.e) unsupported("symbolic floating point");
        double p, q; if (x.w2 == 32) { float u; uint32_t t = (uint32_t)a.c; memcpy(&u, &t, 4); p = u; t = (uint32_t)b.c; memcpy(&u, &t, 4); q = u; } else { memcpy(&p, &a.c, 8); memcpy(&q, &b.c, 8); }
        bool un = std::isnan(p) || std::isnan(q); unsigned bits = un ? 8 : p < q ? 4 : p > q ? 2 : 1;
        f.slots[x.dst] = CV((x.sub & bits) != 0); ++f.ip; break;
    }
    case IFCast: {
        Val a = get(f, x.o[0]); if (a.e) unsupported("symbolic floating point");
        double p = 0; bool fromF = x.a == Instruction::FPToUI || x.a == Instruction::FPToSI || x.a == Instruction::FPExt || x.a == Instruction::FPTrunc;
        if (fromF) { if (x.w2 == 32) { float u; uint32_t t = (uint32_t)a.c; memcpy(&u, &t, 4); p = u; } else memcpy(&p, &a.c, 8); }
        u64 r = 0;
        if (x.a == Instruction::FPToUI) r = (u64)p & maskw(x.w); else if (x.a == Instruction::FPToSI) r = (u64)(i64)p & maskw(x.w);
        else { double z = fromF ? p : x.a == Instruction::UIToFP ? (double)a.c : (double)sx(a.c, x.w2); if (x.w == 32) { float q = (float)z; if (!fromF) q = x.a == Instruction::UIToFP ? (float)a.c : (float)sx(a.c, x.w2); memcpy(&r, &q, 4); } else memcpy(&r, &z, 8); }
        f.slots[x.dst] = CV(r); ++f.ip; break;
    }
    case ICmpXchg: {
        curAtomic = true;
        Val p = get(f, x.o[0]); Val old = load(s, p, x.w); Val eq = bin(OEq, old, get(f, x.o[1]), x.w);
        bool t = decide(s, eq); if (t) store(s, p, get(f, x.o[2]), x.w);
        f.slots[x.dst] = old; f.slots[x.dst + 1] = CV(t); ++f.ip; break;
    }
    case IRMW: {
        curAtomic = true;
        Val p = get(f, x.o[0]); Val old = load(s, p, x.w); Val v = get(f, x.o[1]); Val nv;
        switch (x.a) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = bin(OAdd, old, v, x.w); break; case AtomicRMWInst::Sub: nv = bin(OSub, old, v, x.w); break; case AtomicRMWInst::And: nv = bin(OAnd, old, v, x.w); break; case AtomicRMWInst::Or: nv = bin(OOr, old, v, x.w); break; default: unsupported("atomicrmw"); }
        store(s, p, nv, x.w); f.slots[x.dst] = old; ++f.ip; break;
    }
    case IUnsup: { std::string t; raw_string_ostream os(t); x.I->print(os); unsupported("instruction " + os.str()); }
    }
}

static void finishPath(State& s) {
    ++nPaths; if (s.steps > maxPathSteps) maxPathSteps = s.steps;
    static u64 rng = 88172645463325252ull; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    u64 slot = samples.size() < optSamples ? samples.size() : rng % (nPaths + 1);   // reservoir
    bool take = slot < optSamples;
    if (take) {
        Sample sm; sm.ins = insOf(s, *s.model);
        for (auto& o : s.obs) sm.obs.push_back({o.first.e ? C.eval(o.first.e, s.model->v, s.model->stamp) : o.first.c, o.second});
        if (samples.size() < optSamples) samples.push_back(sm); else samples[slot] = sm;
    }
}
static void explore(bool nested) {
    while (!work.empty()) {
        if (stopAll) { work.clear(); return; }
        StateP s = std::move(work.back()); work.pop_back();
        curState = s.get();
        u64 cnt = 0;
        try {
            for (;;) {
                step(*s); ++s->steps; ++cnt;
                if (s->fr.empty()) break;
                if ((cnt & 0xfff) == 0) {
                    if (elapsed() > optTime) { incomplete = "time budget exhausted"; stopAll = true; throw PathEnd(); }
                    if (s->steps > optMaxSteps) { violate(*s, *s->model, "termination", "no termination within " + std::to_string(optMaxSteps) + " instructions"); throw PathEnd(); }
                }
            }
            nSteps += cnt;
            if (nested) { s->leaf->done = true; s->leaf->ret = s->ret.empty() ? CV(0) : s->ret[0]; nestedDone->push_back(std::move(s)); }
            else finishPath(*s);
        } catch (PathEnd&) { nSteps += cnt; if (nested && s->leaf) s->leaf->dead = true; }
        curState = nullptr;
        if (!nested && nPaths >= optMaxPaths) { incomplete = "path budget exhausted"; work.clear(); return; }
        if (elapsed() > optTime) { incomplete = "time budget exhausted"; stopAll = true; }
    }
}

// ------------------------------------------------------------------ output
static std::string jesc(const std::string& s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r; }
static std::string outFile;
static void jins(FILE* f, const std::vector<std::pair<InRec, std::vector<u64>>>& ins) {
    fprintf(f, "[");
    for (size_t i = 0; i < ins.size(); ++i) { fprintf(f, "%s{\"name\":\"%s\",\"w\":%u,\"v\":[", i ? "," : "", jesc(ins[i].first.name).c_str(), ins[i].first.w); for (size_t k = 0; k < ins[i].second.size(); ++k) fprintf(f, "%s%llu", k ? "," : "", (unsigned long long)ins[i].second[k]); fprintf(f, "]}"); }
    fprintf(f, "]");
}
static void writeOut(const char* status, const std::string& err) {
    FILE* f = outFile.empty() ? stdout : fopen(outFile.c_str(), "w"); if (!f) { perror("out"); exit(3); }
    fprintf(f, "{\"status\":\"%s\",\"error\":\"%s\",\"paths\":%llu,\"forks\":%llu,\"steps\":%llu,\"max_path_steps\":%llu,\"assume_pruned\":%llu,\"merges\":%llu,\"merge_hits\":%llu,\"checks\":%llu,\"checks_to_solver\":%llu,\"global_writes\":%llu,\"undef_branch\":%s,\"wall\":%.3f",
        status, jesc(err).c_str(), (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nSteps, (unsigned long long)maxPathSteps, (unsigned long long)nAssumeDead, (unsigned long long)nMerges, (unsigned long long)nMergeHits, (unsigned long long)nChecks, (unsigned long long)nChecksSolver, (unsigned long long)nGlobalWrites, undefUsed ? "true" : "false", elapsed());
    if (S) fprintf(f, ",\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"trivial\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f", (unsigned long long)S->queries, (unsigned long long)S->satN, (unsigned long long)S->unsatN, (unsigned long long)S->unknownN, (unsigned long long)S->cacheHits, (unsigned long long)S->trivially, S->time, S->maxTime);
    fprintf(f, ",\"reach\":{"); for (size_t i = 0; i < reachNames.size(); ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", jesc(reachNames[i]).c_str(), (unsigned long long)reachCnt[i]);
    fprintf(f, "},\"assertions\":{"); for (size_t i = 0; i < checkNames.size(); ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", jesc(checkNames[i]).c_str(), (unsigned long long)checkCnt[i]);
    fprintf(f, "},\"functions\":["); std::set<std::string> fs; for (size_t i = 0; i < scopes.size(); ++i) if (scopeHit[i]) { std::string n = scopes[i]->getLinkageName().empty() ? scopes[i]->getName().str() : llvm::demangle(scopes[i]->getLinkageName().str()); fs.insert(scopes[i]->getFilename().str() + "|" + n); }
    bool first = true; for (auto& n : fs) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(n).c_str()); first = false; }
    fprintf(f, "],\"violations\":["); for (size_t i = 0; i < viols.size(); ++i) { fprintf(f, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"undef\":%s,\"inputs\":", i ? "," : "", viols[i].kind.c_str(), jesc(viols[i].msg).c_str(), jesc(viols[i].where).c_str(), viols[i].undefDep ? "true" : "false"); jins(f, viols[i].ins); fprintf(f, "}"); }
    fprintf(f, "],\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) { fprintf(f, "%s{\"inputs\":", i ? "," : ""); jins(f, samples[i].ins); fprintf(f, ",\"obs\":["); for (size_t k = 0; k < samples[i].obs.size(); ++k) fprintf(f, "%s%llu", k ? "," : "", (unsigned long long)samples[i].obs[k].first); fprintf(f, "]}"); }
    fprintf(f, "]}\n"); if (f != stdout) fclose(f);
}

// ------------------------------------------------------------------ setup
// can the code write this global (or does its address go where that cannot be seen)?
static bool mayWrite(const Value* v, std::set<const Value*>& seen) {
    if (!seen.insert(v).second) return false;
    for (const User* u : v->users()) {
        if (isa<LoadInst>(u) || isa<ICmpInst>(u)) continue;
        if (isa<GEPOperator>(u) || isa<BitCastOperator>(u) || isa<PHINode>(u) || isa<SelectInst>(u) || isa<PtrToIntOperator>(u)) { if (isa<PtrToIntOperator>(u) || mayWrite(u, seen)) return true; continue; }
        if (auto* cb = dyn_cast<CallBase>(u)) {
            if (auto* f = cb->getCalledFunction()) if (f->getName().starts_with("llvm.memcpy") || f->getName().starts_with("llvm.memmove")) { if (cb->getArgOperand(0) == v) return true; continue; }
            for (unsigned i = 0; i < cb->arg_size(); ++i) if (cb->getArgOperand(i) == v && !(cb->onlyReadsMemory(i) && cb->doesNotCapture(i))) return true;
            continue;
        }
        return true;
    }
    return false;
}
static void layoutGlobals(State& s) {
    u64 ro = 0x1000000, rw = RWBASE;
    for (auto& g : M->globals()) {
        if (g.getName().starts_with("llvm.")) continue;
        if (g.isDeclaration()) {
            // external data: typeinfo/vtables only, never read on a normal path
            u64 base = ro; ro += 128; gaddr[&g] = base; ObjP o = std::make_shared<Object>(); o->size = 64; o->c.assign(64, 0); o->kind = KGlobal; o->ro = true; o->how = 'x'; o->name = (int)names.size(); names.push_back(g.getName().str()); roObjs.push_back({base, 64, o}); continue;
        }
        u64 sz = DL->getTypeAllocSize(g.getValueType()); u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16);
        u64& p = g.isConstant() ? ro : rw; p = (p + al - 1) / al * al;
        gaddr[&g] = p; p += sz + 64;
        if (ro >= RWBASE) unsupported("too much constant data");
    }
    for (auto& g : M->globals()) {
        if (g.getName().starts_with("llvm.") || g.isDeclaration()) continue;
        u64 sz = DL->getTypeAllocSize(g.getValueType());
        ObjP o = std::make_shared<Object>(); o->size = sz; o->c.assign(sz, 0); o->kind = KGlobal; o->ro = g.isConstant(); o->how = 0; o->name = (int)names.size(); names.push_back(g.getName().str());
        initBytes(g.getInitializer(), o->c, 0);
        if (!g.isConstant()) { std::set<const Value*> seen; o->tls = g.isThreadLocal(); o->shared = !o->tls && mayWrite(&g, seen); }
        (g.isConstant() ? roObjs : s.mem).push_back({gaddr[&g], sz, o});
    }
    auto cmp = [](const ObjEnt& a, const ObjEnt& b) { return a.base < b.base; };
    std::sort(roObjs.begin(), roObjs.end(), cmp); std::sort(s.mem.begin(), s.mem.end(), cmp);
}

int main(int argc, char** argv) {
    tStart = std::chrono::steady_clock::now();
    std::string bc, entry = "harness"; unsigned qt = 30000; std::string dump; unsigned dumpEvery = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
        if (auto v = val("--entry=")) entry = v; else if (auto v = val("--out=")) outFile = v;
        else if (auto v = val("--param=")) { const char* e = strchr(v, '='); params[std::string(v, e - v)] = strtoull(e + 1, 0, 0); }
        else if (auto v = val("--time=")) optTime = atof(v); else if (auto v = val("--max-paths=")) optMaxPaths = strtoull(v, 0, 0);
        else if (auto v = val("--max-viol=")) optMaxViol = strtoull(v, 0, 0); else if (auto v = val("--max-steps=")) optMaxSteps = strtoull(v, 0, 0);
        else if (auto v = val("--samples=")) optSamples = strtoull(v, 0, 0); else if (auto v = val("--query-ms=")) qt = atoi(v);
        else if (auto v = val("--dump=")) dump = v; else if (auto v = val("--dump-every=")) dumpEvery = atoi(v);
        else if (a == "--no-merge") optMerge = false; else bc = a;
    }
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 512ull << 20; setrlimit(RLIMIT_STACK, &rl);
    SMDiagnostic err; M = parseIRFile(bc, err, LC); if (!M) { err.print("symex", errs()); return 3; }
    DL = &M->getDataLayout();
    Solver solver(C, qt); S = &solver; S->dumpDir = dump; S->dumpEvery = dumpEvery;
    StateP s(new State()); s->brk = DYNBASE; s->model = std::make_shared<Model>(); s->model->stamp = ++C.stampCtr;
    layoutGlobals(*s);
    Function* E = M->getFunction(entry); if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    // constructors run concretely before the entry
    std::vector<std::pair<u64, Function*>> ctors;
    if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
        for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    const std::string own = params.count("early") ? "_GLOBAL__sub_I_" + entry.substr(0, 3) + ".cpp" : "";   // only the harness's, the library's wait for sym_run_ctors
    for (auto& c : ctors) {
        if (!own.empty() && c.second->getName().str() != own) { lateCtors.push_back(c.second); continue; }
        curState = s.get(); pushFrame(*s, getFn(c.second), {}, nullptr, -1, 0);
        try { while (!s->fr.empty()) step(*s); } catch (PathEnd&) { writeOut("internal", "constructor failed"); return 3; }
    }
    nGlobalWrites = 0; 
    for (auto& e : s->mem) if (e.o->tls) { tlsBases.push_back(e.base); tlsInit.push_back(e.o); }
    pushFrame(*s, getFn(E), {}, nullptr, -1, 0);
    work.push_back(std::move(s));
    explore(false);
    writeOut(!viols.empty() ? "violation" : !incomplete.empty() ? "incomplete" : "ok", incomplete);
    return !viols.empty() ? 1 : !incomplete.empty() ? 2 : 0;
}
