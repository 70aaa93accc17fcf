#include "exec.h"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <iostream>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/resource.h>
#include <thread>
#include <unistd.h>

using namespace llvm;
using ex::Model;

static const u64 GLOB_BASE = 0x100000000000ULL, HEAP_BASE = 0x200000000000ULL, STACK_BASE = 0x300000000000ULL, FN_BASE = 0x400000000000ULL,
                 PTR_MIN = GLOB_BASE, PTR_MAX = 0x500000000000ULL;
static const uint8_t FILL = 0xCB;

// ------------------------------------------------------------------ options / results
struct Options {
    std::string out = ".";
    std::map<std::string, i64> params;
    double timeLimit = 600;
    u64 maxPaths = 1000000;
    u64 maxInstr = ~0ULL;
    int feasTimeout = 3000, assertTimeout = 60000;
    int maxViol = 4;
    int maxWitness = 6;
    bool noMerge = false;
    bool trace = false;
    double audit = 0; // seconds for re-proving the rewriting steps
    int lemmaBudget = 0; // number of recognised tables re-proved by the solver
} opt;

struct Violation { std::string kind, msg, where, file; };
struct Stats {
    u64 instrs = 0, paths = 0, pathsAssume = 0, forks = 0, merges = 0, mergeFail = 0, asserts = 0, assertsTrivial = 0, assertsUnknown = 0, unsup = 0, underApprox = 0, symLoads = 0;
    u64 feasUnknown = 0, linearDecided = 0;
    bool timeout = false;
} S;
static std::vector<Violation> viols;
static std::map<std::string, u64> unsupMsgs, labels;
static std::vector<std::string> witnessFiles;
static std::set<std::string> witnessedLabels;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static bool timeUp = false;

static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::map<const Function*, Func*> funcs;
static std::map<u64, Func*> funcByAddr;
static std::map<const GlobalValue*, u64> gaddr;
static std::map<u64, const GlobalValue*> gbyaddr;
static std::vector<std::unique_ptr<Func>> funcStore;
static u64 nextStateId = 1;

// ------------------------------------------------------------------ recorded rewriting steps
// every operation the executor performs on symbolic terms is recorded (once per distinct operands) and later
// discharged by the solver against the bit-level meaning of the operation
struct Step { OpK op; V a, b, c; int w, aw; V r; };
static std::vector<Step> steps;
static u64 stepsSeen = 0;
static bool recordSteps = false;
static void rec(OpK op, V a, V b, V c, int w, int aw, V r) {
    if (!recordSteps || (a.isC() && b.isC() && c.isC()) || steps.size() > 400000) return;
    static std::set<std::tuple<int, Node*, u64, Node*, u64, Node*, u64, int, int>> seen;
    if (!seen.insert(std::make_tuple((int)op, a.n, (u64)a.c, b.n, (u64)b.c, c.n, (u64)c.c, w, aw)).second) return;
    stepsSeen++;
    steps.push_back({op, a, b, c, w, aw, r});
}
namespace exa {
#define BIN2(nm, OP) static V nm(V a, V b, int w) { V r = ex::nm(a, b, w); rec(OP, a, b, K(0), w, 0, r); return r; }
BIN2(add, O_ADD) BIN2(sub, O_SUB) BIN2(mul, O_MUL) BIN2(udiv, O_UDIV) BIN2(urem, O_UREM) BIN2(sdiv, O_SDIV) BIN2(srem, O_SREM)
BIN2(shl, O_SHL) BIN2(lshr, O_LSHR) BIN2(ashr, O_ASHR) BIN2(band, O_AND) BIN2(bor, O_OR) BIN2(bxor, O_XOR)
#define CMP2(nm, OP) static V nm(V a, V b, int w) { V r = ex::nm(a, b, w); rec(OP, a, b, K(0), 1, w, r); return r; }
CMP2(eq, O_EQ) CMP2(ult, O_ULT) CMP2(slt, O_SLT)
static V bnot1(V a) { return ex::bnot1(a); }
static V ite(V c, V a, V b, int w) { V r = ex::ite(c, a, b, w); rec(O_ITE, c, a, b, w, 0, r); return r; }
static V trunc(V a, int f, int t) { V r = ex::trunc(a, f, t); if (f != t) rec(O_TRUNC, a, K(0), K(0), t, f, r); return r; }
static V zext(V a, int f, int t) { V r = ex::zext(a, f, t); if (f != t) rec(O_ZEXT, a, K(0), K(0), t, f, r); return r; }
static V sext(V a, int f, int t) { V r = ex::sext(a, f, t); if (f != t) rec(O_SEXT, a, K(0), K(0), t, f, r); return r; }
static V extract(V a, int from, int lo, int len) {
    V r = ex::extract(a, from, lo, len);
    if (len != from) rec(O_EXTRACT, a, K(lo), K(0), len, from, r);
    return r;
}
static V concat(V h, int wh, V l, int wl) { V r = ex::concat(h, wh, l, wl); rec(O_CONCAT, h, l, K(wl), wh + wl, wh, r); return r; }
} // namespace exa

// ------------------------------------------------------------------ type flattening
static void flat(Type* T, std::vector<Elem>& out, int off = 0) {
    if (T->isIntegerTy()) {
        int w = T->getIntegerBitWidth();
        out.push_back({w, off, (w + 7) / 8});
    } else if (T->isPointerTy()) out.push_back({64, off, 8});
    else if (T->isFloatTy()) out.push_back({32, off, 4});
    else if (T->isDoubleTy()) out.push_back({64, off, 8});
    else if (T->isX86_FP80Ty()) out.push_back({80, off, 10});
    else if (auto* VT = dyn_cast<FixedVectorType>(T)) {
        Type* E = VT->getElementType();
        int w = E->isPointerTy() ? 64 : E->getScalarSizeInBits();
        for (unsigned i = 0; i < VT->getNumElements(); i++) {
            std::vector<Elem> e;
            if (w % 8 == 0) out.push_back({w, off + (int)i * w / 8, w / 8});
            else out.push_back({w, -1, 0}); // bit vectors never live in memory here
        }
    } else if (auto* ST = dyn_cast<StructType>(T)) {
        const StructLayout* L = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); i++) flat(ST->getElementType(i), out, off + (int)L->getElementOffset(i));
    } else if (auto* AT = dyn_cast<ArrayType>(T)) {
        u64 sz = DL->getTypeAllocSize(AT->getElementType());
        for (unsigned i = 0; i < AT->getNumElements(); i++) flat(AT->getElementType(), out, off + (int)(i * sz));
    } else if (T->isVoidTy() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) {
    } else {
        out.push_back({64, off, 8});
    }
}
static int nflat(Type* T) {
    std::vector<Elem> e;
    flat(T, e);
    return e.size();
}
static int flatIndex(Type* T, ArrayRef<unsigned> idx) {
    int n = 0;
    for (unsigned i : idx) {
        if (auto* ST = dyn_cast<StructType>(T)) {
            for (unsigned j = 0; j < i; j++) n += nflat(ST->getElementType(j));
            T = ST->getElementType(i);
        } else if (auto* AT = dyn_cast<ArrayType>(T)) {
            n += i * nflat(AT->getElementType());
            T = AT->getElementType();
        }
    }
    return n;
}

// ------------------------------------------------------------------ constants
static u64 globalAddr(const GlobalValue* G);
static u128 apv(const APInt& a) {
    u128 r = a.getRawData()[0];
    if (a.getBitWidth() > 64) r |= (u128)a.getRawData()[1] << 64;
    return r;
}
static void constFlat(const Constant* C, std::vector<V>& out) {
    Type* T = C->getType();
    if (auto* CI = dyn_cast<ConstantInt>(C)) { out.push_back(K(apv(CI->getValue()))); return; }
    if (auto* CF = dyn_cast<ConstantFP>(C)) { out.push_back(K(apv(CF->getValueAPF().bitcastToAPInt()))); return; }
    if (isa<ConstantPointerNull>(C)) { out.push_back(K(0)); return; }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantTokenNone>(C)) {
        int n = nflat(T);
        for (int i = 0; i < n; i++) out.push_back(K(0));
        return;
    }
    if (auto* GV = dyn_cast<GlobalValue>(C)) { out.push_back(K(globalAddr(GV))); return; }
    if (auto* CD = dyn_cast<ConstantDataSequential>(C)) {
        for (unsigned i = 0; i < CD->getNumElements(); i++) constFlat(CD->getElementAsConstant(i), out);
        return;
    }
    if (isa<ConstantVector>(C) || isa<ConstantStruct>(C) || isa<ConstantArray>(C)) {
        for (unsigned i = 0; i < C->getNumOperands(); i++) constFlat(cast<Constant>(C->getOperand(i)), out);
        return;
    }
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off);
            std::vector<V> b;
            constFlat(CE->getOperand(0), b);
            out.push_back(K((u64)(b[0].c + off.getSExtValue())));
            return;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
            std::vector<V> b;
            constFlat(CE->getOperand(0), b);
            int w = T->isPointerTy() ? 64 : (T->isIntegerTy() ? T->getIntegerBitWidth() : 64);
            out.push_back(K(b[0].c & maskw(w)));
            return;
        }
        case Instruction::Sub: case Instruction::Add: {
            std::vector<V> a, b;
            constFlat(CE->getOperand(0), a);
            constFlat(CE->getOperand(1), b);
            u128 r = CE->getOpcode() == Instruction::Sub ? a[0].c - b[0].c : a[0].c + b[0].c;
            out.push_back(K(r & maskw(T->getIntegerBitWidth())));
            return;
        }
        case Instruction::Trunc: {
            std::vector<V> a;
            constFlat(CE->getOperand(0), a);
            out.push_back(K(a[0].c & maskw(T->getIntegerBitWidth())));
            return;
        }
        default: break;
        }
    }
    if (auto* GA = dyn_cast<GlobalAlias>(C)) { constFlat(GA->getAliasee(), out); return; }
    std::string s;
    raw_string_ostream os(s);
    C->print(os);
    fprintf(stderr, "unsupported constant: %s\n", s.c_str());
    int n = nflat(T);
    for (int i = 0; i < n; i++) out.push_back(K(0));
}
static u64 globalAddr(const GlobalValue* G) {
    if (auto* GA = dyn_cast<GlobalAlias>(G)) {
        std::vector<V> v;
        constFlat(GA->getAliasee(), v);
        return (u64)v[0].c;
    }
    auto it = gaddr.find(G);
    return it == gaddr.end() ? 0 : it->second;
}

// ------------------------------------------------------------------ builtins
enum BI {
    B_NONE = -1, B_NEW, B_DELETE, B_MALLOC, B_CALLOC, B_REALLOC, B_ALIGNED, B_POSIXMEMALIGN, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_NOP, B_RET0, B_RETARG0,
    B_ABORT, B_ASSERTFAIL, B_ALLOCEXC, B_THROW, B_BEGINCATCH, B_ENDCATCH, B_RETHROW, B_FREEEXC, B_SYM, B_CHOICE, B_ASSUME, B_ASSERT, B_ASSERTEQ,
    B_REACH, B_OUT, B_PARAM, B_DYNCAST, B_GUARDACQ, B_TYPEIDFOR, B_EXIT, B_ISSYM, B_STDEXC_WHAT, B_FAIL, B_PRINT, B_MEMCHR, B_LIVEHEAP, B_POISON
};
static int builtinOf(StringRef n) {
    static std::map<std::string, int> m = {
        {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW}, {"_ZnwmSt11align_val_t", B_ALIGNED + 1000}, {"_ZdlPv", B_DELETE}, {"_ZdaPv", B_DELETE},
        {"_ZdlPvm", B_DELETE}, {"_ZdaPvm", B_DELETE}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE}, {"free", B_DELETE}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC},
        {"aligned_alloc", B_ALIGNED}, {"posix_memalign", B_POSIXMEMALIGN}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
        {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"__cxa_atexit", B_RET0}, {"abort", B_ABORT},
        {"_ZSt9terminatev", B_ABORT}, {"__cxa_pure_virtual", B_ABORT}, {"__clang_call_terminate", B_ABORT}, {"__cxa_call_unexpected", B_ABORT}, {"__assert_fail", B_ASSERTFAIL},
        {"__cxa_allocate_exception", B_ALLOCEXC}, {"__cxa_throw", B_THROW}, {"__cxa_begin_catch", B_BEGINCATCH}, {"__cxa_end_catch", B_ENDCATCH},
        {"__cxa_rethrow", B_RETHROW}, {"__cxa_free_exception", B_FREEEXC}, {"sx_sym", B_SYM}, {"sx_choice", B_CHOICE}, {"sx_assume", B_ASSUME},
        {"sx_assert", B_ASSERT}, {"sx_assert_eq", B_ASSERTEQ}, {"sx_reach", B_REACH}, {"sx_out", B_OUT}, {"sx_param", B_PARAM},
        {"__dynamic_cast", B_DYNCAST}, {"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_NOP}, {"__cxa_guard_abort", B_NOP},
        {"exit", B_EXIT}, {"_exit", B_EXIT}, {"sx_is_symbolic", B_ISSYM}, {"sx_fail", B_FAIL}, {"sx_print", B_PRINT}, {"sx_live_heap", B_LIVEHEAP},
        {"sx_poison", B_POISON},
        {"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP}, {"time", B_RET0}, {"clock_gettime", B_RET0},
        {"_ZNSt6localeC1Ev", B_NOP}, {"_ZNSt6localeD1Ev", B_NOP}, {"puts", B_RET0}, {"printf", B_RET0}, {"fprintf", B_RET0}, {"putchar", B_RET0}, {"fwrite", B_RET0}, {"fflush", B_RET0},
    };
    auto it = m.find(n.str());
    if (it != m.end()) return it->second;
    if (n.startswith("_ZSt16__ostream_insert") || n.startswith("_ZNSolsE") || n.startswith("_ZNSo9_M_insert") || n.startswith("_ZStlsISt11char_traits") ||
        n == "_ZNSo3putEc" || n == "_ZNSo5flushEv" || n.startswith("_ZSt4endl") || n.startswith("_ZSt5flush") || n.startswith("_ZStlsI"))
        return B_RETARG0;
    // constructors / destructors of the standard exception classes
    for (const char* cls : {"St9exception", "St9bad_alloc", "St11logic_error", "St13runtime_error", "St12out_of_range", "St12length_error", "St16invalid_argument", "St12domain_error", "St14overflow_error", "St11range_error", "St20bad_array_new_length", "St8bad_cast", "St15underflow_error", "St18bad_variant_access"}) {
        std::string p = std::string("_ZN") + cls;
        if (n.startswith(p + "C") || n.startswith(p + "D")) return B_NOP;
        if (n.startswith(p + "aS")) return B_RETARG0;
        if (n.startswith(std::string("_ZNK") + cls + "4what")) return B_STDEXC_WHAT;
    }
    return B_NONE;
}

// ------------------------------------------------------------------ decoding
static Func* getFunc(Function* F) {
    auto it = funcs.find(F);
    if (it != funcs.end()) return it->second;
    auto f = std::make_unique<Func>();
    f->F = F;
    f->name = F->getName().str();
    f->builtin = builtinOf(F->getName());
    if (!F->isDeclaration() && f->builtin != B_NONE && f->builtin != B_ABORT && f->name != "_ZSt9terminatev") {
        // a definition in the module wins over a builtin, except for the sx_ interface
        if (F->getName().startswith("sx_") == false && f->builtin != B_MEMCPY && f->builtin != B_MEMSET) f->builtin = B_NONE;
    }
    Func* r = f.get();
    funcs[F] = r;
    funcStore.push_back(std::move(f));
    return r;
}

static void decode(Func* f) {
    f->decoded = true;
    Function* F = f->F;
    std::map<const llvm::Value*, int> slot;
    std::map<const llvm::Value*, int> cslot;
    std::map<const BasicBlock*, int> bbi;
    int ns = 0;
    for (auto& A : F->args()) {
        slot[&A] = ns;
        f->argSlot.push_back(ns);
        ns += nflat(A.getType());
    }
    for (auto& B : *F) {
        bbi[&B] = bbi.size();
        for (auto& I : B)
            if (!I.getType()->isVoidTy()) {
                slot[&I] = ns;
                ns += nflat(I.getType());
            }
    }
    f->nslots = ns;
    auto opd = [&](llvm::Value* v) -> int {
        auto it = slot.find(v);
        if (it != slot.end()) return it->second;
        auto ic = cslot.find(v);
        if (ic != cslot.end()) return ic->second;
        int r = -(int)f->pool.size() - 1;
        if (auto* C = dyn_cast<Constant>(v)) constFlat(C, f->pool);
        else {
            int n = nflat(v->getType());
            for (int i = 0; i < std::max(n, 1); i++) f->pool.push_back(K(0));
        }
        // pool operands grow downwards: element i is at r - i
        cslot[v] = r;
        return r;
    };
    auto ew = [&](Type* T) -> int {
        T = T->getScalarType();
        if (T->isPointerTy()) return 64;
        if (T->isFloatTy()) return 32;
        if (T->isDoubleTy()) return 64;
        if (T->isIntegerTy()) return T->getIntegerBitWidth();
        return T->getPrimitiveSizeInBits() ? (int)T->getPrimitiveSizeInBits() : 64;
    };
    f->blocks.resize(bbi.size());
    for (auto& B : *F) {
        int bi = bbi[&B];
        f->blocks[bi].B = &B;
        f->blocks[bi].start = f->code.size();
        for (auto& I : B) {
            if (auto* P = dyn_cast<PHINode>(&I)) {
                for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
                    int pb = bbi[P->getIncomingBlock(i)];
                    auto& mv = f->blocks[bi].phis[pb];
                    bool dup = false;
                    for (auto& x : mv)
                        if (x.dst == slot[P]) dup = true;
                    if (!dup) mv.push_back({slot[P], nflat(P->getType()), opd(P->getIncomingValue(i))});
                }
                continue;
            }
            Inst in;
            in.I = &I;
            in.k = I_UNSUP;
            if (!I.getType()->isVoidTy()) {
                in.dst = slot[&I];
                in.nd = nflat(I.getType());
                if (!I.getType()->isStructTy() && !I.getType()->isArrayTy()) in.w = ew(I.getType());
            }
            switch (I.getOpcode()) {
            case Instruction::Alloca: {
                auto& A = cast<AllocaInst>(I);
                in.k = I_ALLOCA;
                in.a = opd(A.getArraySize());
                in.ys = {(i64)DL->getTypeAllocSize(A.getAllocatedType()), (i64)A.getAlign().value()};
                break;
            }
            case Instruction::Load:
                in.k = I_LOAD;
                in.a = opd(I.getOperand(0));
                flat(I.getType(), in.el);
                break;
            case Instruction::Store:
                in.k = I_STORE;
                in.a = opd(I.getOperand(0));
                in.b = opd(I.getOperand(1));
                flat(I.getOperand(0)->getType(), in.el);
                break;
            case Instruction::GetElementPtr: {
                auto& G = cast<GetElementPtrInst>(I);
                if (G.getType()->isVectorTy()) break;
                in.k = I_GEP;
                in.a = opd(G.getPointerOperand());
                i64 off = 0;
                for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                    llvm::Value* ix = it.getOperand();
                    if (StructType* ST = it.getStructTypeOrNull()) {
                        off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    } else {
                        i64 sz = DL->getTypeAllocSize(it.getIndexedType());
                        if (auto* CI = dyn_cast<ConstantInt>(ix)) off += CI->getSExtValue() * sz;
                        else {
                            in.xs.push_back(opd(ix));
                            in.ys.push_back(sz);
                            in.ys.push_back(ix->getType()->getIntegerBitWidth());
                        }
                    }
                }
                in.c = 0;
                in.el.push_back({0, 0, 0});
                in.ys.push_back(off);
                break;
            }
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
            case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            case Instruction::And: case Instruction::Or: case Instruction::Xor:
                in.k = I_BIN;
                in.op = I.getOpcode();
                in.a = opd(I.getOperand(0));
                in.b = opd(I.getOperand(1));
                break;
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg: case Instruction::FCmp:
            case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
                in.k = I_FP;
                in.op = I.getOpcode();
                in.a = opd(I.getOperand(0));
                if (I.getNumOperands() > 1) in.b = opd(I.getOperand(1));
                in.w2 = ew(I.getOperand(0)->getType());
                if (I.getType()->isVectorTy()) in.k = I_UNSUP;
                break;
            case Instruction::ICmp:
                in.k = I_ICMP;
                in.op = cast<ICmpInst>(I).getPredicate();
                in.a = opd(I.getOperand(0));
                in.b = opd(I.getOperand(1));
                in.w = ew(I.getOperand(0)->getType());
                break;
            case Instruction::Select:
                in.k = I_SELECT;
                in.a = opd(I.getOperand(0));
                in.b = opd(I.getOperand(1));
                in.c = opd(I.getOperand(2));
                flat(I.getType(), in.el);
                in.op = I.getOperand(0)->getType()->isVectorTy();
                break;
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
                in.k = I_CAST;
                in.op = I.getOpcode();
                in.a = opd(I.getOperand(0));
                in.w2 = ew(I.getOperand(0)->getType());
                break;
            case Instruction::BitCast: case Instruction::AddrSpaceCast:
                in.k = I_BITCAST;
                in.a = opd(I.getOperand(0));
                in.w2 = ew(I.getOperand(0)->getType());
                in.op = nflat(I.getOperand(0)->getType());
                break;
            case Instruction::Freeze:
                in.k = I_COPY;
                in.a = opd(I.getOperand(0));
                break;
            case Instruction::Br: {
                auto& Br = cast<BranchInst>(I);
                if (Br.isConditional()) {
                    in.k = I_CONDBR;
                    in.a = opd(Br.getCondition());
                    in.bb1 = bbi[Br.getSuccessor(0)];
                    in.bb2 = bbi[Br.getSuccessor(1)];
                } else {
                    in.k = I_BR;
                    in.bb1 = bbi[Br.getSuccessor(0)];
                }
                break;
            }
            case Instruction::Switch: {
                auto& Sw = cast<SwitchInst>(I);
                in.k = I_SWITCH;
                in.a = opd(Sw.getCondition());
                in.w = ew(Sw.getCondition()->getType());
                in.bb1 = bbi[Sw.getDefaultDest()];
                for (auto& c : Sw.cases()) {
                    in.ys.push_back((i64)(u64)apv(c.getCaseValue()->getValue()));
                    in.xs.push_back(bbi[c.getCaseSuccessor()]);
                }
                break;
            }
            case Instruction::Ret:
                in.k = I_RET;
                if (I.getNumOperands()) {
                    in.a = opd(I.getOperand(0));
                    in.nd = nflat(I.getOperand(0)->getType());
                } else
                    in.nd = 0;
                break;
            case Instruction::Unreachable: in.k = I_UNREACH; break;
            case Instruction::ExtractValue: {
                auto& E = cast<ExtractValueInst>(I);
                in.k = I_COPY;
                int base = opd(E.getAggregateOperand());
                int k = flatIndex(E.getAggregateOperand()->getType(), E.getIndices());
                in.a = base >= 0 ? base + k : base - k;
                break;
            }
            case Instruction::InsertValue: {
                auto& E = cast<InsertValueInst>(I);
                in.k = I_INSELT;
                in.a = opd(E.getAggregateOperand());
                in.b = opd(E.getInsertedValueOperand());
                in.xs = {flatIndex(E.getAggregateOperand()->getType(), E.getIndices()), nflat(E.getInsertedValueOperand()->getType())};
                break;
            }
            case Instruction::ExtractElement:
                in.k = I_EXTELT;
                in.a = opd(I.getOperand(0));
                in.b = opd(I.getOperand(1));
                in.op = nflat(I.getOperand(0)->getType());
                break;
            case Instruction::InsertElement:
                in.k = I_INSELT;
                in.a = opd(I.getOperand(0));
                in.b = opd(I.getOperand(1));
                in.c = opd(I.getOperand(2));
                in.xs = {-1, 1};
                break;
            case Instruction::ShuffleVector: {
                auto& Sh = cast<ShuffleVectorInst>(I);
                in.k = I_SHUF;
                in.a = opd(I.getOperand(0));
                in.b = opd(I.getOperand(1));
                in.op = nflat(I.getOperand(0)->getType());
                for (int m : Sh.getShuffleMask()) in.xs.push_back(m);
                break;
            }
            case Instruction::LandingPad: {
                auto& L = cast<LandingPadInst>(I);
                in.k = I_LANDING;
                in.op = L.isCleanup();
                for (unsigned i = 0; i < L.getNumClauses(); i++)
                    if (L.isCatch(i)) {
                        std::vector<V> v;
                        constFlat(L.getClause(i), v);
                        in.ys.push_back((i64)(u64)v[0].c);
                    }
                break;
            }
            case Instruction::Resume: in.k = I_RESUME; in.a = opd(I.getOperand(0)); break;
            case Instruction::Fence: in.k = I_NOP; break;
            case Instruction::AtomicRMW:
                in.k = I_ATOMIC;
                in.op = cast<AtomicRMWInst>(I).getOperation();
                in.a = opd(I.getOperand(0));
                in.b = opd(I.getOperand(1));
                break;
            case Instruction::AtomicCmpXchg:
                in.k = I_CMPXCHG;
                in.a = opd(I.getOperand(0));
                in.b = opd(I.getOperand(1));
                in.c = opd(I.getOperand(2));
                in.w = ew(I.getOperand(1)->getType());
                break;
            case Instruction::Call: case Instruction::Invoke: {
                auto& CB = cast<CallBase>(I);
                in.k = I_CALL;
                in.callee = nullptr;
                if (auto* II = dyn_cast<InvokeInst>(&I)) {
                    in.bb1 = bbi[II->getNormalDest()];
                    in.bb2 = bbi[II->getUnwindDest()];
                }
                if (CB.isInlineAsm()) {
                    in.k = CB.getType()->isVoidTy() ? I_NOP : I_UNSUP;
                    auto* IA = cast<InlineAsm>(CB.getCalledOperand()->stripPointerCasts());
                    Function* R = M->getFunction("sx_rdtsc");
                    if (in.k == I_UNSUP && R && IA->getAsmString().find("rdtsc") != std::string::npos) {
                        in.k = I_CALL;
                        in.callee = getFunc(R);
                    }
                    break;
                }
                llvm::Value* cv = CB.getCalledOperand()->stripPointerCasts();
                if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
                if (auto* CF = dyn_cast<Function>(cv)) {
                    if (CF->isIntrinsic()) {
                        in.intrin = CF->getIntrinsicID();
                        in.callee = nullptr;
                        StringRef nm = CF->getName();
                        if (nm.startswith("llvm.dbg") || nm.startswith("llvm.lifetime") || nm.startswith("llvm.experimental.noalias") || nm.startswith("llvm.assume") ||
                            nm.startswith("llvm.invariant") || nm.startswith("llvm.prefetch") || nm.startswith("llvm.donothing") || nm.startswith("llvm.var.annotation"))
                            in.k = I_NOP;
                    } else
                        in.callee = getFunc(CF);
                } else
                    in.a = opd(CB.getCalledOperand());
                if (in.k == I_NOP) break;
                for (auto& A : CB.args()) {
                    if (A->getType()->isMetadataTy()) { in.xs.push_back(0); in.ys.push_back(0); in.ys.push_back(0); continue; }
                    in.xs.push_back(opd(A));
                    in.ys.push_back(nflat(A->getType()));
                    in.ys.push_back(A->getType()->isAggregateType() ? 0 : ew(A->getType()));
                }
                break;
            }
            default: break;
            }
            f->code.push_back(std::move(in));
        }
    }
    // post-dominators over blocks that can reach a return
    int n = f->blocks.size();
    std::vector<std::vector<int>> succ(n), pred(n);
    std::vector<bool> isRet(n, false), good(n, false);
    for (auto& B : *F) {
        int bi = bbi[&B];
        for (auto* Sx : successors(&B)) {
            if (auto* II = dyn_cast<InvokeInst>(B.getTerminator()))
                if (Sx == II->getUnwindDest()) continue;
            succ[bi].push_back(bbi[Sx]);
            pred[bbi[Sx]].push_back(bi);
        }
        if (isa<ReturnInst>(B.getTerminator())) isRet[bi] = true;
    }
    std::vector<int> work;
    for (int i = 0; i < n; i++)
        if (isRet[i]) { good[i] = true; work.push_back(i); }
    while (!work.empty()) {
        int b = work.back();
        work.pop_back();
        for (int p : pred[b])
            if (!good[p]) { good[p] = true; work.push_back(p); }
    }
    // Cooper-Harvey-Kennedy on the reverse graph with a virtual exit (index n)
    std::vector<int> order, num(n + 1, -1), idom(n + 1, -1);
    {
        std::vector<int> st;
        std::vector<bool> seen(n, false);
        std::function<void(int)> dfs; // iterative post-order
        std::vector<std::pair<int, size_t>> stk;
        for (int r = 0; r < n; r++) {
            if (!isRet[r] || seen[r]) continue;
            seen[r] = true;
            stk.push_back({r, 0});
            while (!stk.empty()) {
                auto& t = stk.back();
                if (t.second < pred[t.first].size()) {
                    int p = pred[t.first][t.second++];
                    if (good[p] && !seen[p]) { seen[p] = true; stk.push_back({p, 0}); }
                } else {
                    num[t.first] = order.size();
                    order.push_back(t.first);
                    stk.pop_back();
                }
            }
        }
        num[n] = order.size();
    }
    idom[n] = n;
    bool ch = true;
    auto inter = [&](int a, int b) {
        while (a != b) {
            while (num[a] < num[b]) a = idom[a];
            while (num[b] < num[a]) b = idom[b];
        }
        return a;
    };
    while (ch) {
        ch = false;
        for (int i = (int)order.size() - 1; i >= 0; i--) {
            int b = order[i];
            int nd = isRet[b] ? n : -1;
            for (int s : succ[b]) {
                if (!good[s] || idom[s] == -1) continue;
                nd = nd == -1 ? s : inter(nd, s);
            }
            if (nd != -1 && idom[b] != nd) { idom[b] = nd; ch = true; }
        }
    }
    for (int i = 0; i < n; i++) f->blocks[i].ipdom = (idom[i] == -1 || idom[i] == n) ? -1 : idom[i];
}

static void slotsUsed(Func* f, Inst& in, std::vector<std::pair<int, int>>& u) {
    // conservative: every operand slot of the LLVM instruction
    (void)f;
    auto add = [&](int s, int n) { if (s >= 0) u.push_back({s, n}); };
    switch (in.k) {
    case I_CALL:
        for (size_t i = 0; i < in.xs.size(); i++) add(in.xs[i], (int)in.ys[2 * i]);
        if (!in.callee && !in.intrin) add(in.a, 1);
        break;
    case I_GEP:
        add(in.a, 1);
        for (int x : in.xs) add(x, 1);
        break;
    case I_STORE: add(in.a, in.el.size()); add(in.b, 1); break;
    case I_LOAD: case I_ALLOCA: case I_CONDBR: case I_SWITCH: add(in.a, 1); break;
    case I_RESUME: add(in.a, 2); break;
    case I_RET: add(in.a, in.nd); break;
    case I_BIN: case I_ICMP: add(in.a, in.nd); add(in.b, in.nd); break;
    case I_SELECT: add(in.a, in.op ? in.nd : 1); add(in.b, in.nd); add(in.c, in.nd); break;
    case I_CAST: add(in.a, in.nd); break;
    case I_BITCAST: add(in.a, in.op); break;
    case I_COPY: add(in.a, in.nd); break;
    case I_FP: add(in.a, 1); add(in.b, 1); break;
    case I_SHUF: add(in.a, in.op); add(in.b, in.op); break;
    case I_EXTELT: add(in.a, in.op); add(in.b, 1); break;
    case I_INSELT: add(in.a, in.nd); add(in.b, in.xs[1]); add(in.c, 1); break;
    case I_ATOMIC: add(in.a, 1); add(in.b, 1); break;
    case I_CMPXCHG: add(in.a, 1); add(in.b, 1); add(in.c, 1); break;
    default: break;
    }
}

static void liveness(Func* f) {
    if (f->liveDone) return;
    f->liveDone = true;
    int n = f->blocks.size(), ns = f->nslots;
    std::vector<std::vector<bool>> use(n, std::vector<bool>(ns)), def(n, std::vector<bool>(ns));
    std::vector<std::vector<int>> succ(n);
    for (int b = 0; b < n; b++) {
        int e = b + 1 < n ? f->blocks[b + 1].start : (int)f->code.size();
        for (int i = f->blocks[b].start; i < e; i++) {
            std::vector<std::pair<int, int>> u;
            slotsUsed(f, f->code[i], u);
            for (auto& p : u)
                for (int k = 0; k < p.second && p.first + k < ns; k++)
                    if (!def[b][p.first + k]) use[b][p.first + k] = true;
            if (f->code[i].dst >= 0)
                for (int k = 0; k < f->code[i].nd; k++) def[b][f->code[i].dst + k] = true;
        }
        for (auto* Sx : successors(const_cast<BasicBlock*>(f->blocks[b].B)))
            for (int j = 0; j < n; j++)
                if (f->blocks[j].B == Sx) succ[b].push_back(j);
        f->blocks[b].live.assign(ns, false);
    }
    bool ch = true;
    while (ch) {
        ch = false;
        for (int b = n - 1; b >= 0; b--) {
            std::vector<bool> out(ns);
            for (int s : succ[b]) {
                std::vector<bool> in = f->blocks[s].live;
                auto it = f->blocks[s].phis.find(b);
                if (it != f->blocks[s].phis.end()) {
                    for (auto& m : it->second)
                        for (int k = 0; k < m.n; k++) in[m.dst + k] = false;
                    for (auto& m : it->second)
                        if (m.src >= 0)
                            for (int k = 0; k < m.n; k++) in[m.src + k] = true;
                }
                for (int k = 0; k < ns; k++)
                    if (in[k]) out[k] = true;
            }
            for (int k = 0; k < ns; k++) {
                bool l = use[b][k] || (out[k] && !def[b][k]);
                if (l && !f->blocks[b].live[k]) { f->blocks[b].live[k] = true; ch = true; }
            }
        }
    }
}

// ------------------------------------------------------------------ engine
struct Target { int depth; int bb; }; // bb == -1: until the frame at this depth returns
enum StepRes { SR_ARRIVED, SR_ENDED, SR_FORK };

static std::vector<State*> runUntil(State* s, Target t);

static Frame& top(State& s) {
    FrameRef& r = s.st.back();
    if (r.p->ref > 1) {
        Frame* n = new Frame(*r.p);
        n->ref = 0;
        r = FrameRef(n);
    }
    return *r.p;
}
static State* cloneState(State& s) {
    State* n = new State(s);
    n->id = nextStateId++;
    return n;
}

static std::string where(State& s) {
    std::string r;
    int shown = 0;
    for (int i = (int)s.st.size() - 1; i >= 0 && shown < 4; i--) {
        Frame& f = *s.st[i].p;
        if (f.pc < 0 || f.pc >= (int)f.f->code.size()) continue;
        const Instruction* I = f.f->code[f.pc].I;
        const DILocation* L = I->getDebugLoc().get();
        while (L && shown < 4) {
            std::string fn = L->getFilename().str();
            size_t p = fn.rfind('/');
            if (p != std::string::npos) fn = fn.substr(p + 1);
            std::string sp;
            if (auto* SPr = L->getScope()->getSubprogram()) sp = SPr->getName().str();
            r += (r.empty() ? "" : " < ") + fn + ":" + std::to_string(L->getLine()) + "(" + sp + ")";
            shown++;
            L = L->getInlinedAt();
        }
    }
    return r;
}

static V simp(State& s, V v, int w, bool keepBits = false) {
    if (!v.n) return v;
    if (!s.known.empty()) {
        auto it = s.known.find(v.n);
        if (it != s.known.end()) return K(it->second & maskw(w));
    }
    if (!s.allowed.empty()) return ex::refine(s.allowed, v, w, keepBits);
    return v;
}

// --- constraints
static std::vector<V> slice(State& s, const std::vector<V>& extra) {
    std::set<Node*> syms;
    for (auto& v : extra)
        if (v.n) syms.insert(v.n->syms.begin(), v.n->syms.end());
    std::vector<V> r = extra;
    std::vector<bool> in(s.pc.size(), false);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < s.pc.size(); i++) {
            if (in[i] || !s.pc[i].n) continue;
            bool hit = false;
            for (Node* n : s.pc[i].n->syms)
                if (syms.count(n)) { hit = true; break; }
            if (!hit) continue;
            in[i] = true;
            ch = true;
            r.push_back(s.pc[i]);
            syms.insert(s.pc[i].n->syms.begin(), s.pc[i].n->syms.end());
        }
    }
    return r;
}

static bool addConstraint(State& s, V c) {
    if (getenv("SX_DUMPC")) fprintf(stderr, "constraint %s\n", ex::str(c, 4).c_str());
    if (c.isC()) return c.c != 0;
    if (c.n->k == KOp && c.n->op == O_AND && c.n->w == 1) return addConstraint(s, c.n->args[0]) && addConstraint(s, c.n->args[1]);
    Form* f;
    Shape* sh;
    if (ex::unary(c, 1, f, sh)) {
        Shape*& a = s.allowed[f];
        a = ex::andShapes(a, sh);
        if (ex::shapeEmpty(a)) return false;
        if (f->t.size() == 1 && f->t[0].second == 1 && f->t[0].first->k == KXLin && a->lo >= 0) { // bits that are fixed
            u128 o = 0, n = ~u128(0);
            for (size_t i = 0; i < a->v.size(); i++)
                if (a->v[i]) { o |= (u128)a->lo + i; n &= (u128)a->lo + i; }
            std::vector<V> parts = ex::splitBits(V(f->t[0].first), ~(o ^ n), n);
            if (!parts.empty()) {
                s.pc.push_back(c);
                for (auto& q : parts) {
                    Form* g;
                    Shape* gs;
                    if (q.n && ex::unary(q, 1, g, gs)) {
                        auto it = s.allowed.find(g);
                        if (g == f || (it != s.allowed.end() && ex::andShapes(it->second, gs) == it->second)) continue;
                    }
                    if (!addConstraint(s, q)) return false;
                }
                return true;
            }
        }
        if (f->t.size() > 1 && f->t.size() <= 16) { // bounds of a sum that fix its terms
            size_t i = 0, j = a->v.size() - 1;
            while (!a->v[i]) i++;
            while (!a->v[j]) j--;
            i128 lo = a->lo + (i128)i, hi = a->lo + (i128)j;
            std::vector<std::pair<Node*, u128>> fix;
            for (auto& t : f->t) {
                Node* n = t.first;
                if (n->k == KSym || n->hi == n->lo) continue;
                i128 k = t.second, x = k * (i128)n->lo, y = k * (i128)n->hi;
                if (x > y) std::swap(x, y);
                i128 mn = std::max(x, lo - (f->hi - y)), mx = std::min(y, hi - (f->lo - x));
                if (mn > mx) return false;
                if (mx - mn < (k < 0 ? -k : k)) { // one multiple of k at most
                    i128 v = mn / k;
                    if (v * k < mn || v * k > mx) v = mx / k;
                    if (v * k < mn || v * k > mx) return false;
                    if (mx / k != v && mn / k != v) continue;
                    fix.push_back({n, (u128)v});
                }
            }
            s.pc.push_back(c);
            for (auto& q : fix) {
                V e = ex::eq(V(q.first), K(q.second), q.first->w);
                if (e.isC()) { if (!e.c) return false; continue; }
                Form* g;
                Shape* gs;
                if (ex::unary(e, 1, g, gs) && g == f) continue;
                if (ex::unary(e, 1, g, gs)) {
                    auto it = s.allowed.find(g);
                    if (it != s.allowed.end() && ex::andShapes(it->second, gs) == it->second) continue;
                }
                if (!addConstraint(s, e)) return false;
            }
            return true;
        }
    } else if (c.n->k == KOp && c.n->op == O_EQ && c.n->args[1].isC() && c.n->args[0].n) {
        s.known[c.n->args[0].n] = c.n->args[1].c;
        if (c.n->args[1].c == 0) {
            std::vector<V> parts = ex::splitBits(c.n->args[0], ~u128(0), 0);
            if (!parts.empty()) {
                s.pc.push_back(c);
                for (auto& q : parts)
                    if (!addConstraint(s, q)) return false;
                return true;
            }
        }
    }
    s.pc.push_back(c);
    return true;
}

static std::vector<Model> recent;
static void rememberModel(const Model& m) {
    recent.push_back(m);
    if (recent.size() > 24) recent.erase(recent.begin());
}

static u64 rng = 88172645463325252ULL;
static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

// cheap search for a model: random values for the symbols, then repair of modular / single-pivot constraints
static bool quickModel(const std::vector<V>& cs, Model& out) {
    auto sat = [&](Model& m) {
        std::unordered_map<Node*, u128> memo;
        for (auto& v : cs)
            if (!ex::eval(v, m, memo)) return false;
        return true;
    };
    for (auto it = recent.rbegin(); it != recent.rend(); ++it)
        if (sat(*it)) { out = *it; return true; }
    std::set<Node*> syms;
    for (auto& v : cs)
        if (v.n) syms.insert(v.n->syms.begin(), v.n->syms.end());
    if (syms.empty() || syms.size() > 64) return false;
    std::vector<Node*> sv(syms.begin(), syms.end());
    for (int attempt = 0; attempt < 24; attempt++) {
        Model m = (attempt & 1) && !recent.empty() ? recent[rnd() % recent.size()] : Model();
        for (Node* n : sv)
            if (!m.count(n) || attempt % 3 == 0 || m[n] < n->lo || m[n] > n->hi) {
                u128 span = n->hi - n->lo;
                u128 r = ((u128)rnd() << 64) | rnd();
                m[n] = n->lo + (span == ~u128(0) ? r : r % (span + 1));
            }
        std::set<Node*> fixedSyms;
        // repair each violated single-pivot constraint by solving for one symbol
        for (int round = 0; round < 4; round++) {
            bool all = true;
            for (auto& v : cs) {
                std::unordered_map<Node*, u128> memo;
                if (ex::eval(v, m, memo)) continue;
                all = false;
                Form* f;
                Shape* sh;
                if (!v.n || !ex::unary(v, 1, f, sh)) continue;
                // choose a target pivot value
                u64 N = sh->v.size(), st = rnd() % N, i = 0;
                while (i < N && !sh->v[(st + i) % N]) i++;
                if (i == N) return false;
                i128 target = (i128)((st + i) % N) + sh->lo;
                Node* a = f->t.size() == 1 ? f->t[0].first : nullptr;
                if (a && f->t[0].second == 1 && a->k == KSym) { m[a] = (u128)target; fixedSyms.insert(a); }
                else if (a && a->k == KMod && f->t[0].second == 1) {
                    // sum c_i x_i + c0 = target mod p : pick an unfixed symbol
                    size_t st2 = rnd() % a->mt.size();
                    for (size_t q = 0; q < a->mt.size(); q++) {
                        auto& t = a->mt[(st2 + q) % a->mt.size()];
                        if (t.first->k != KSym || fixedSyms.count(t.first)) continue;
                        std::unordered_map<Node*, u128> mm;
                        i128 p = (i128)a->p, cur = a->c0 % p;
                        for (auto& y : a->mt)
                            if (y.first != t.first) cur = (cur + (y.second * (i128)(ex::eval(V(y.first), m, mm) % a->p)) % p) % p;
                        i128 rhs = ((target - cur) % p + p) % p;
                        // inverse of t.second mod p
                        i128 r0 = p, r1 = t.second % p, s0 = 0, s1 = 1;
                        while (r1) { i128 qn = r0 / r1, tr = r0 - qn * r1; r0 = r1; r1 = tr; i128 ts = s0 - qn * s1; s0 = s1; s1 = ts; }
                        if (r0 != 1) continue;
                        i128 inv = (s0 % p + p) % p;
                        u128 x = (u128)((rhs * inv) % p);
                        if (x < t.first->lo || x > t.first->hi) continue;
                        m[t.first] = x;
                        fixedSyms.insert(t.first);
                        break;
                    }
                } else if (f->t.size() > 1) {
                    // integer form: adjust one symbol with unit coefficient
                    std::unordered_map<Node*, u128> mm;
                    i128 cur = ex::evalForm(f, m, mm);
                    size_t st2 = rnd() % f->t.size();
                    for (size_t q = 0; q < f->t.size(); q++) {
                        auto& t = f->t[(st2 + q) % f->t.size()];
                        if (t.first->k != KSym || (t.second != 1 && t.second != -1)) continue;
                        i128 nv = (i128)m[t.first] + (target - cur) * t.second;
                        if (nv < (i128)t.first->lo || nv > (i128)t.first->hi) continue;
                        m[t.first] = (u128)nv;
                        break;
                    }
                }
            }
            if (all) break;
        }
        if (sat(m)) { out = m; rememberModel(m); return true; }
    }
    return false;
}

static i128 invMod(i128 a, i128 p) {
    i128 r0 = p, r1 = ((a % p) + p) % p, s0 = 0, s1 = 1;
    while (r1) { i128 qn = r0 / r1, tr = r0 - qn * r1; r0 = r1; r1 = tr; i128 ts = s0 - qn * s1; s0 = s1; s1 = ts; }
    return r0 == 1 ? (s0 % p + p) % p : 0;
}
// Conjunctions whose equalities are linear over the symbols modulo one prime: elimination, then a walk over the
// free symbols (complete when their ranges are small).  R_UNKNOWN: not of that shape, or the walk was cut.
static Res linearModel(const std::vector<V>& cs, Model& out) {
    std::map<Form*, Shape*> sh;
    u128 p = 0;
    for (auto& v : cs) {
        Form* f;
        Shape* s;
        if (!v.n) { if (!v.c) return R_UNSAT; continue; }
        if (!ex::unary(v, 1, f, s)) continue;
        Shape*& a = sh[f];
        a = ex::andShapes(a, s);
        if (ex::shapeEmpty(a)) return R_UNSAT;
    }
    std::set<Node*> symset;
    for (auto& v : cs)
        if (v.n) symset.insert(v.n->syms.begin(), v.n->syms.end());
    std::vector<Node*> sy(symset.begin(), symset.end());
    std::map<Node*, int> idx;
    for (size_t i = 0; i < sy.size(); i++) idx[sy[i]] = i;
    if (sy.size() > 200) return R_UNKNOWN;
    std::vector<std::vector<i128>> rows;
    for (auto& x : sh) {
        Form* f = x.first;
        if (f->t.size() != 1 || f->t[0].second != 1) continue;
        Node* a = f->t[0].first;
        if (a->k != KMod) continue;
        i64 val = -1;
        int cnt = 0;
        for (size_t i = 0; i < x.second->v.size() && cnt < 2; i++)
            if (x.second->v[i]) { cnt++; val = (i64)i + x.second->lo; }
        if (cnt != 1) continue;
        if (p && p != a->p) return R_UNKNOWN;
        p = a->p;
        std::vector<i128> row(sy.size() + 1, 0);
        bool ok = true;
        for (auto& t : a->mt) {
            if (t.first->k != KSym || t.first->hi >= a->p) { ok = false; break; }
            row[idx[t.first]] = ((t.second % (i128)p) + (i128)p) % (i128)p;
        }
        if (!ok) continue;
        row[sy.size()] = (((i128)val - a->c0) % (i128)p + (i128)p) % (i128)p;
        rows.push_back(row);
    }
    if (rows.empty()) return R_UNKNOWN;
    if (p >> 62) return R_UNKNOWN;
    i128 P = (i128)p;
    size_t n = sy.size();
    std::vector<int> piv;
    size_t r = 0;
    for (size_t c = 0; c < n && r < rows.size(); c++) {
        size_t q = r;
        while (q < rows.size() && !rows[q][c]) q++;
        if (q == rows.size()) continue;
        i128 iv = invMod(rows[q][c], P);
        if (!iv) return R_UNKNOWN;
        std::swap(rows[q], rows[r]);
        for (auto& x : rows[r]) x = x * iv % P;
        for (size_t k = 0; k < rows.size(); k++)
            if (k != r && rows[k][c]) {
                i128 m = rows[k][c];
                for (size_t j = 0; j <= n; j++) rows[k][j] = ((rows[k][j] - m * rows[r][j]) % P + P) % P;
            }
        piv.push_back(c);
        r++;
    }
    for (size_t k = r; k < rows.size(); k++)
        if (rows[k][n]) return R_UNSAT;
    std::vector<int> fre;
    {
        std::set<int> ps(piv.begin(), piv.end());
        // only symbols that occur in the equations matter for the walk; the others are sampled
        for (size_t c = 0; c < n; c++)
            if (!ps.count(c)) fre.push_back(c);
    }
    double space = 1;
    for (int c : fre) space *= (double)(sy[c]->hi - sy[c]->lo + 1);
    bool full = space <= 200000;
    std::vector<u128> val(n, 0);
    for (int c : fre) val[c] = sy[c]->lo;
    u64 limit = full ? (u64)space : 4000;
    int evals = 0;
    for (u64 it = 0; it < limit; it++) {
        if (!full)
            for (int c : fre) { u128 span = sy[c]->hi - sy[c]->lo; val[c] = sy[c]->lo + (u128)rnd() % (span + 1); }
        bool ok = true;
        for (size_t k = 0; k < r && ok; k++) {
            i128 x = rows[k][n];
            for (int c : fre)
                if (rows[k][c]) x = (x - rows[k][c] * (i128)val[c]) % P;
            x = (x % P + P) % P;
            if ((u128)x < sy[piv[k]]->lo || (u128)x > sy[piv[k]]->hi) ok = false;
            val[piv[k]] = (u128)x;
        }
        if (ok) {
            Model m;
            for (size_t c = 0; c < n; c++) m[sy[c]] = val[c];
            std::unordered_map<Node*, u128> memo;
            bool all = true;
            for (auto& v : cs)
                if (!ex::eval(v, m, memo)) { all = false; break; }
            if (all) { out = m; rememberModel(m); return R_SAT; }
            if (++evals > 20000) return R_UNKNOWN;
        }
        if (full)
            for (size_t q = 0; q < fre.size(); q++) {
                if (++val[fre[q]] <= sy[fre[q]]->hi) break;
                val[fre[q]] = sy[fre[q]]->lo;
            }
    }
    return full ? R_UNSAT : R_UNKNOWN;
}

// Conjunctions over GF(2)-linear nodes: elimination over the bits of the atoms, then sampling of the solutions
// (complete when few bits are free).
static Res gf2Model(const std::vector<V>& cs, Model& out) {
    std::map<Form*, Shape*> sh;
    std::vector<V> one; // width-1 GF(2)-linear constraints
    for (auto& v : cs) {
        Form* f;
        Shape* s;
        if (!v.n) { if (!v.c) return R_UNSAT; continue; }
        if (v.n->k == KXLin) { one.push_back(v); continue; }
        if (!ex::unary(v, 1, f, s)) continue;
        Shape*& a = sh[f];
        a = ex::andShapes(a, s);
        if (ex::shapeEmpty(a)) return R_UNSAT;
    }
    std::map<Node*, int> off;
    std::vector<Node*> atoms;
    int nb = 0;
    auto atom = [&](Node* a) { if (!off.count(a)) { off[a] = nb; nb += a->w; atoms.push_back(a); } };
    std::vector<std::pair<Node*, Shape*>> pv;
    for (auto& x : sh) {
        Form* f = x.first;
        if (f->t.size() != 1 || f->t[0].second != 1 || f->lo != 0) continue;
        Node* P = f->t[0].first;
        if (P->k == KXLin) for (auto& y : P->xt) atom(y.a);
        else if (P->k == KSym && P->w <= 16) atom(P);
        else continue;
        pv.push_back({P, x.second});
    }
    for (auto& v : one) for (auto& y : v.n->xt) atom(y.a);
    if (!nb || nb > 1024) return R_UNKNOWN;
    int words = nb / 64 + 1; // bit nb: the constant
    typedef std::vector<u64> Row;
    auto row = [&](Node* P, int bit) {
        Row r(words, 0);
        if (P->k == KSym) { int k = off[P] + bit; r[k / 64] ^= 1ULL << (k % 64); return r; }
        for (auto& x : P->xt)
            for (size_t j = 0; j < x.col.size(); j++)
                if ((x.col[j] >> bit) & 1) { int k = off[x.a] + (int)j; r[k / 64] ^= 1ULL << (k % 64); }
        if ((P->xc >> bit) & 1) r[nb / 64] ^= 1ULL << (nb % 64);
        return r;
    };
    std::vector<Row> basis;
    std::vector<int> lead;
    auto reduce = [&](Row& r) {
        for (size_t i = 0; i < basis.size(); i++)
            if ((r[lead[i] / 64] >> (lead[i] % 64)) & 1)
                for (int k = 0; k < words; k++) r[k] ^= basis[i][k];
    };
    auto leadOf = [&](const Row& r) {
        for (int k = 0; k < words; k++)
            if (r[k]) { int l = k * 64 + __builtin_ctzll(r[k]); return l; }
        return -1;
    };
    bool incons = false;
    auto addEq = [&](Row r) { // row == 0
        reduce(r);
        int l = leadOf(r);
        if (l < 0) return;
        if (l == nb) { incons = true; return; }
        for (size_t i = 0; i < basis.size(); i++)
            if ((basis[i][l / 64] >> (l % 64)) & 1)
                for (int k = 0; k < words; k++) basis[i][k] ^= r[k];
        basis.push_back(r);
        lead.push_back(l);
    };
    for (auto& v : one) {
        Row r = row(v.n, 0);
        r[nb / 64] ^= 1ULL << (nb % 64); // == 1
        addEq(r);
    }
    std::vector<std::pair<Node*, Shape*>> rest;
    for (auto& x : pv) {
        i64 val = -1;
        int cnt = 0;
        for (size_t i = 0; i < x.second->v.size() && cnt < 2; i++)
            if (x.second->v[i]) { cnt++; val = (i64)i + x.second->lo; }
        if (cnt != 1) { rest.push_back(x); continue; }
        for (int b = 0; b < x.first->w; b++) {
            Row r = row(x.first, b);
            if ((val >> b) & 1) r[nb / 64] ^= 1ULL << (nb % 64);
            addEq(r);
        }
    }
    // values of a symbol outside its range are excluded by its own shape or range
    if (incons) return R_UNSAT;
    for (auto& x : rest) { // image of the pivot under the equations must meet its allowed values
        std::vector<u64> gens;
        u64 base = 0;
        std::map<int, u64> byBit;
        for (int b = 0; b < x.first->w; b++) {
            Row r = row(x.first, b);
            reduce(r);
            if ((r[nb / 64] >> (nb % 64)) & 1) base |= 1ULL << b;
            for (int k = 0; k < nb; k++)
                if ((r[k / 64] >> (k % 64)) & 1) byBit[k] |= 1ULL << b;
        }
        std::vector<u64> g;
        for (auto& y : byBit) {
            u64 z = y.second;
            for (u64 q : g) z = std::min(z, z ^ q);
            if (z) g.push_back(z);
        }
        if (g.size() > 16) continue;
        bool any = false;
        for (u64 i = 0; i < (1ULL << g.size()) && !any; i++) {
            u64 z = base;
            for (size_t q = 0; q < g.size(); q++)
                if ((i >> q) & 1) z ^= g[q];
            if (z < x.second->v.size() && x.second->v[z]) any = true;
        }
        if (!any) return R_UNSAT;
    }
    std::set<Node*> symset;
    for (auto& v : cs)
        if (v.n) symset.insert(v.n->syms.begin(), v.n->syms.end());
    for (Node* a : atoms)
        if (a->k != KSym) return R_UNKNOWN;
    std::vector<int> fre;
    {
        std::set<int> ls(lead.begin(), lead.end());
        for (int k = 0; k < nb; k++)
            if (!ls.count(k)) fre.push_back(k);
    }
    bool full = fre.size() <= 16 && symset.size() == atoms.size();
    u64 limit = full ? 1ULL << fre.size() : 3000;
    for (u64 it = 0; it < limit; it++) {
        Row v(words, 0);
        v[nb / 64] |= 1ULL << (nb % 64);
        u64 rr = 0;
        for (size_t q = 0; q < fre.size(); q++) {
            if (!full && q % 64 == 0) rr = rnd();
            u64 bit = full ? (it >> q) & 1 : (rr >> (q % 64)) & 1;
            if (bit) v[fre[q] / 64] |= 1ULL << (fre[q] % 64);
        }
        for (size_t i = 0; i < basis.size(); i++) {
            int par = 0;
            for (int k = 0; k < words; k++) par ^= __builtin_popcountll(basis[i][k] & v[k]) & 1;
            if (par) v[lead[i] / 64] ^= 1ULL << (lead[i] % 64);
        }
        Model m;
        bool ok = true;
        for (Node* a : atoms) {
            u128 x = 0;
            for (int j = 0; j < a->w; j++) { int k = off[a] + j; if ((v[k / 64] >> (k % 64)) & 1) x |= (u128)1 << j; }
            if (x < a->lo || x > a->hi) { ok = false; break; }
            m[a] = x;
        }
        if (!ok) continue;
        for (Node* a : symset)
            if (!m.count(a)) { u128 span = a->hi - a->lo; m[a] = a->lo + (span == ~u128(0) ? rnd() : (u128)rnd() % (span + 1)); }
        std::unordered_map<Node*, u128> memo;
        bool all = true;
        for (auto& c : cs)
            if (!ex::eval(c, m, memo)) { all = false; break; }
        if (all) { out = m; rememberModel(m); return R_SAT; }
    }
    return full ? R_UNSAT : R_UNKNOWN;
}

// Constraints that are functions of one small pivot, or of one small symbol: tabulated; true when no value is left.
static bool residual(const std::vector<V>& cs) {
    std::map<Form*, Shape*> al;
    std::vector<V> rest;
    auto meet = [&](Form* f, Shape* s) {
        Shape*& a = al[f];
        a = ex::andShapes(a, s);
        return ex::shapeEmpty(a);
    };
    for (auto& v : cs) {
        Form* f;
        Shape* s;
        if (!v.n || !ex::unary(v, 1, f, s)) continue;
        if (meet(f, s)) return true;
        // tables over the same atom inside the pivot
        Node* g = nullptr;
        bool ok = v.n->k == KUn;
        if (ok)
            for (auto& t : f->t) {
                Node* b = t.first->k == KUn ? (t.first->f->t.size() == 1 && t.first->f->t[0].second == 1 ? t.first->f->t[0].first : nullptr) : t.first;
                if (!b || (g && b != g)) ok = false;
                g = b;
            }
        if (!ok || !g) continue;
        Form* gf = ex::atomForm(g);
        if (gf->big || gf->hi - gf->lo >= ex::LIM || f->t.size() < 2) continue;
        std::vector<u64> tv((u64)(gf->hi - gf->lo + 1));
        for (size_t i = 0; i < tv.size(); i++) {
            i128 val = 0, at = (i128)i + gf->lo;
            for (auto& t : f->t) val += t.second * (t.first->k == KUn ? (i128)t.first->s->v[(u64)(at - t.first->s->lo)] : at);
            tv[i] = val >= s->lo && val <= s->hi ? s->v[(u64)(val - s->lo)] : 0;
        }
        if (meet(gf, ex::mkShape((i64)gf->lo, (i64)gf->hi, 1, std::move(tv)))) return true;
    }
    // one symbol
    std::map<Node*, std::vector<V>> by;
    for (auto& v : cs)
        if (v.n && v.n->syms.size() == 1 && v.n->syms[0]->hi - v.n->syms[0]->lo < (u128)65537) by[v.n->syms[0]].push_back(v);
    for (auto& e : by) {
        bool any = false;
        for (u128 z = e.first->lo; z <= e.first->hi && !any; z++) {
            Model m;
            m[e.first] = z;
            std::unordered_map<Node*, u128> memo;
            any = true;
            for (auto& v : e.second)
                if (!ex::eval(v, m, memo)) { any = false; break; }
        }
        if (!any) return true;
    }
    return false;
}

// Equalities that determine one symbol (a pivot with one allowed value) are solved and substituted, the other
// constraints renormalised: decides conjunctions whose constraints collapse.  Never R_SAT.
static Res elimEq(std::vector<V> cs) {
    for (int round = 0; round < 24; round++) {
        std::map<Form*, Shape*> sh;
        std::vector<V> rest;
        for (auto& v : cs) {
            if (!v.n) { if (!v.c) return R_UNSAT; continue; }
            Form* f;
            Shape* s;
            if (!ex::unary(v, 1, f, s)) { rest.push_back(v); continue; }
            Shape*& a = sh[f];
            a = ex::andShapes(a, s);
            if (ex::shapeEmpty(a)) return R_UNSAT;
        }
        // a pivot that fixes a symbol
        Node* x = nullptr;
        V val = K(0);
        int wv = 64;
        for (auto& e : sh) {
            if (ex::shapeCount(e.second) != 1) continue;
            i64 q = 0;
            while (!e.second->v[q]) q++;
            i128 at = (i128)q + e.second->lo;
            Form* f = e.first;
            Node* a = f->t[0].first;
            if (f->t.size() == 1 && f->t[0].second == 1 && a->k == KMod) {
                i128 P = (i128)a->p;
                if (P >> 62) continue;
                for (auto& t : a->mt) {
                    Node* y = t.first;
                    if (y->k != KSym || y->hi >= a->p) continue;
                    bool once = true;
                    for (auto& u : a->mt)
                        if (u.first != y && std::find(u.first->syms.begin(), u.first->syms.end(), y) != u.first->syms.end()) once = false;
                    i128 iv = invMod(t.second, P);
                    if (!once || !iv) continue;
                    std::vector<std::pair<Node*, i128>> r;
                    i128 k = (P - iv) % P;
                    for (auto& u : a->mt)
                        if (u.first != y) r.push_back({u.first, (((u.second % P) + P) % P) * k % P});
                    i128 c = (((at - a->c0) % P + P) % P) * iv % P;
                    x = y;
                    val = ex::modTerm(r, c, a->p, wv);
                    break;
                }
            } else {
                for (auto& t : f->t) {
                    Node* y = t.first;
                    if (y->k != KSym || (t.second != 1 && t.second != -1) || y->w >= 60) continue;
                    bool once = true;
                    V r = K((u128)(at * t.second) & maskw(64));
                    for (auto& u : f->t) {
                        if (u.first == y) continue;
                        if (std::find(u.first->syms.begin(), u.first->syms.end(), y) != u.first->syms.end() || u.first->w > 60) once = false;
                        else r = ex::sub(r, ex::mul(ex::zext(V(u.first), u.first->w, 64), K((u128)(u.second * t.second) & maskw(64)), 64), 64);
                    }
                    if (!once) continue;
                    x = y;
                    val = r;
                    break;
                }
            }
            if (x) break;
        }
        if (!x) {
            if (residual(cs)) return R_UNSAT;
            if (getenv("SX_DUMP")) { fprintf(stderr, "elimEq stuck:\n"); for (auto& v : cs) fprintf(stderr, "   %s\n", ex::str(v, 6).c_str()); }
            return R_UNKNOWN;
        }
        std::unordered_map<Node*, V> memo;
        std::vector<V> n2;
        for (auto& v : cs) {
            if (!v.n) continue;
            bool fail = false;
            V r = ex::substV(v, 1, x, val, wv, memo, fail);
            if (fail) continue; // dropping a constraint keeps R_UNSAT sound
            n2.push_back(r);
        }
        n2.push_back(ex::bnot1(ex::ult(val, K(x->lo), 64)));
        n2.push_back(ex::bnot1(ex::ult(K(x->hi), val, 64)));
        Allowed al;
        for (auto& v : n2) {
            if (!v.n) { if (!v.c) return R_UNSAT; continue; }
            Form* f;
            Shape* s;
            if (!ex::unary(v, 1, f, s)) continue;
            Shape*& a = al[f];
            a = ex::andShapes(a, s);
            if (ex::shapeEmpty(a)) return R_UNSAT;
        }
        for (auto& v : n2) {
            if (!v.n) continue;
            if (v.n->k == KOp && v.n->op == O_EQ) continue;
            Form* f;
            Shape* s;
            if (ex::unary(v, 1, f, s) && al.count(f)) continue; // stays as a constraint on its pivot
            v = ex::refine(al, v, 1, false);
            if (!v.n && !v.c) return R_UNSAT;
        }
        cs.clear();
        for (auto& v : n2)
            if (v.n) cs.push_back(v);
        // nested tables whose pivots are restricted
        for (auto& v : cs) (void)v;
    }
    return R_UNKNOWN;
}

static Res feasible(State& s, V c, Model* mo = nullptr, int timeout = 0) {
    c = simp(s, c, 1);
    if (c.isC()) {
        if (!c.c) return R_UNSAT;
        if (!mo) return R_SAT;
    }
    Form* f;
    Shape* sh;
    if (c.n && ex::unary(c, 1, f, sh)) {
        auto it = s.allowed.find(f);
        Shape* a = it == s.allowed.end() ? sh : ex::andShapes(it->second, sh);
        if (ex::shapeEmpty(a)) return R_UNSAT;
    }
    std::vector<V> q = c.isC() ? std::vector<V>() : slice(s, {c});
    if (c.isC()) q = s.pc;
    Model m;
    if (quickModel(q, m)) {
        if (mo) *mo = m;
        return R_SAT;
    }
    Res r = linearModel(q, m);
    if (r == R_UNKNOWN) r = gf2Model(q, m);
    if (r == R_UNKNOWN) r = elimEq(q);
    if (r != R_UNKNOWN) S.linearDecided++;
    if (r == R_UNKNOWN) {
        double left = opt.timeLimit - elapsed();
        if (left < 0.2) { if (!timeUp) S.timeout = timeUp = true; return R_UNKNOWN; }
        r = solve(q, &m, std::min(timeout ? timeout : opt.feasTimeout, (int)(left * 1000)));
    }
    if (r == R_SAT) {
        rememberModel(m);
        if (mo) *mo = m;
    }
    if (r == R_UNKNOWN) S.feasUnknown++;
    return r;
}

// model of the whole path condition (+ extra)
static bool fullModel(State& s, V extra, Model& m) {
    std::vector<V> all = s.pc;
    if (!extra.isC()) all.push_back(extra);
    else if (!extra.c) return false;
    // the independent groups can be solved separately
    std::set<size_t> done;
    for (size_t i = 0; i < all.size(); i++) {
        if (done.count(i) || !all[i].n) continue;
        std::set<Node*> syms(all[i].n->syms.begin(), all[i].n->syms.end());
        std::vector<size_t> grp{i};
        std::set<size_t> g{i};
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t j = 0; j < all.size(); j++) {
                if (g.count(j) || !all[j].n) continue;
                for (Node* n : all[j].n->syms)
                    if (syms.count(n)) {
                        g.insert(j);
                        syms.insert(all[j].n->syms.begin(), all[j].n->syms.end());
                        ch = true;
                        break;
                    }
            }
        }
        std::vector<V> q;
        for (size_t j : g) { q.push_back(all[j]); done.insert(j); }
        Model mm;
        if (!quickModel(q, mm) && linearModel(q, mm) != R_SAT && gf2Model(q, mm) != R_SAT && solve(q, &mm, opt.assertTimeout) != R_SAT) return false;
        for (Node* n : syms) {
            auto it = mm.find(n);
            m[n] = it == mm.end() ? n->lo : it->second;
        }
    }
    // unconstrained symbols: random values
    for (auto& in : s.inputs)
        if (in.second.n)
            for (Node* n : in.second.n->syms)
                if (!m.count(n)) {
                    u128 span = n->hi - n->lo, r = ((u128)rnd() << 64) | rnd();
                    m[n] = n->lo + (span == ~u128(0) ? r : r % (span + 1));
                }
    std::unordered_map<Node*, u128> memo;
    for (auto& v : all)
        if (!ex::eval(v, m, memo)) return false;
    return true;
}

static std::string u128s(u128 v) {
    if (!v) return "0";
    std::string r;
    while (v) { r.insert(r.begin(), '0' + (int)(v % 10)); v /= 10; }
    return r;
}
static int fileNo = 0;
static std::string dumpInputs(State& s, const Model& m, const char* kind, const std::string& note) {
    std::string fn = opt.out + "/" + kind + "-" + std::to_string(fileNo++) + ".txt";
    std::ofstream o(fn);
    o << "# " << note << "\n";
    for (auto& p : opt.params) o << "param " << p.first << " " << p.second << "\n";
    std::unordered_map<Node*, u128> memo;
    for (auto& in : s.inputs) o << "in " << in.first << " " << u128s(ex::eval(in.second, m, memo)) << "\n";
    for (auto& ou : s.outs) o << "out " << ou.first << " " << u128s(ex::eval(ou.second, m, memo)) << "\n";
    return fn;
}

static void violation(State& s, const std::string& kind, const std::string& msg, V cond = K(1), const Model* given = nullptr) {
    if ((int)viols.size() >= opt.maxViol) { timeUp = true; return; }
    std::string w = where(s);
    for (auto& v : viols)
        if (v.kind == kind && v.where == w && v.msg == msg) return; // one example per site
    Model m;
    bool ok;
    if (given) { m = *given; ok = true; State* t = &s; Model full; if (fullModel(*t, cond, full)) m = full; else { for (auto& in : s.inputs) if (in.second.n) for (Node* n : in.second.n->syms) if (!m.count(n)) m[n] = n->lo; } }
    else ok = fullModel(s, cond, m);
    Violation v{kind, msg, w, ""};
    if (!ok) {
        unsupMsgs["violation without a model: " + kind + " " + msg + " @ " + w]++;
        S.unsup++;
        return;
    }
    v.file = dumpInputs(s, m, "cex", kind + ": " + msg + " @ " + w);
    viols.push_back(v);
    fprintf(stderr, "[sx] candidate violation %s: %s @ %s\n", kind.c_str(), msg.c_str(), w.c_str());
}

static void unsupported(State& s, const std::string& msg) {
    S.unsup++;
    std::string m = msg + " @ " + where(s);
    if (!unsupMsgs[m]++) fprintf(stderr, "[sx] unsupported: %s\n", m.c_str());
}

// ------------------------------------------------------------------ memory
static u64 allocObj(State& s, char kind, u64 size, const std::string& name, u64 align = 64) {
    Region& R = kind == 'h' ? s.heap : kind == 's' ? s.stack : s.glob;
    if (align < 16) align = 16;
    // heap: 16-byte alignment only, so that over-aligned expectations are not granted by accident
    u64 a = (R.next + align - 1) & ~(align - 1);
    if (kind == 'h' && align == 16 && (a & 31) == 0) a += 16;
    Obj* o = new Obj;
    o->base = a;
    o->size = size;
    o->b.assign(size, FILL);
    o->kind = kind;
    o->name = name;
    R.v.push_back({a, size, ObjRef(o)});
    R.next = a + size + 64;
    return a;
}
static Region* regionOf(State& s, u64 a) {
    if (a >= FN_BASE) return nullptr;
    if (a >= STACK_BASE) return &s.stack;
    if (a >= HEAP_BASE) return &s.heap;
    if (a >= GLOB_BASE) return &s.glob;
    return nullptr;
}
// returns entry or null with a message
static Region::E* lookup(State& s, u64 a, u64 n, std::string& err) {
    Region* R = regionOf(s, a);
    if (!R) {
        err = a < 4096 ? "null pointer access" : "wild pointer access";
        return nullptr;
    }
    int i = R->find(a);
    if (i < 0) { err = "access before any object"; return nullptr; }
    Region::E& e = R->v[i];
    if (!e.o.o) { err = a < e.base + e.size ? "access to freed memory" : "access out of bounds of a freed object"; return nullptr; }
    if (a - e.base > e.size || n > e.size - (a - e.base)) {
        err = "access of " + std::to_string(n) + " bytes at offset " + std::to_string(a - e.base) + " of a " + std::to_string(e.size) + "-byte " +
              (e.o.o->kind == 'h' ? "heap" : e.o.o->kind == 's' ? "stack" : "global") + " object";
        // freed objects are compacted away: an address far behind the previous object is unmapped memory
        if (a >= e.base + e.size + 64) err = "access to unmapped or freed memory";
        return nullptr;
    }
    return &e;
}
static Obj* wr(Region::E& e) {
    if (e.o.o->ref > 1) {
        Obj* n = new Obj(*e.o.o);
        n->ref = 0;
        e.o = ObjRef(n);
    }
    e.o.o->ver++;
    return e.o.o;
}
static V readBytes(const Obj* o, u64 off, int n, int w) {
    const uint8_t* p = o->b.data() + off;
    bool conc = o->s.empty();
    if (!conc) {
        conc = true;
        for (int i = 0; i < n; i++)
            if (o->s[off + i].n) { conc = false; break; }
    }
    if (conc) {
        u128 v = 0;
        if (n <= 8) {
            u64 x = 0;
            memcpy(&x, p, n);
            v = x;
        } else
            memcpy(&v, p, n);
        return K(v & maskw(w));
    }
    // whole node?
    const SymByte* sb = &o->s[off];
    if (sb[0].n && sb[0].i == 0) {
        Node* nd = sb[0].n;
        bool whole = (nd->w + 7) / 8 == n;
        for (int i = 1; i < n && whole; i++)
            if (sb[i].n != nd || sb[i].i != i) whole = false;
        if (whole) {
            if (nd->w == w) return V(nd);
            return exa::trunc(exa::zext(V(nd), nd->w, n * 8), n * 8, w);
        }
    }
    V acc;
    int have = 0;
    int i = 0;
    while (i < n) {
        if (!sb[i].n) {
            int j = i;
            u128 v = 0;
            while (j < n && !sb[j].n) { v |= (u128)p[j] << (8 * (j - i)); j++; }
            V piece = K(v);
            acc = have ? exa::concat(piece, 8 * (j - i), acc, have) : piece;
            have += 8 * (j - i);
            i = j;
        } else {
            Node* nd = sb[i].n;
            int j = i + 1, k = sb[i].i;
            while (j < n && sb[j].n == nd && sb[j].i == k + (j - i)) j++;
            int bits = 8 * (j - i);
            int full = ((nd->w + 7) / 8) * 8;
            V z = exa::zext(V(nd), nd->w, full);
            V piece = exa::extract(z, full, 8 * k, bits);
            acc = have ? exa::concat(piece, bits, acc, have) : piece;
            have += bits;
            i = j;
        }
    }
    return exa::trunc(acc, have, w);
}
static void writeBytes(Obj* o, u64 off, int n, V v, int w) {
    if (v.isC()) {
        u128 c = v.c & maskw(w);
        memcpy(&o->b[off], &c, n);
        if (!o->s.empty())
            for (int i = 0; i < n; i++) o->s[off + i].n = nullptr;
        return;
    }
    if (o->s.empty()) o->s.assign(o->size, SymByte{nullptr, 0});
    V z = w == n * 8 ? v : exa::zext(v, w, n * 8);
    if (z.isC()) { writeBytes(o, off, n, z, n * 8); return; }
    for (int i = 0; i < n; i++) { o->s[off + i].n = z.n; o->s[off + i].i = i; }
}

struct MemErr { std::string msg; };

// fork helper: children of s in which v has each of its feasible values
static bool valuesOf(State& s, V v, int w, std::vector<u128>& vals, size_t maxN, bool& complete) {
    complete = true;
    Form* f;
    Shape* sh;
    if (v.isC()) { vals.push_back(v.c); return true; }
    std::set<u128> cand;
    if (ex::unary(v, w, f, sh)) {
        auto it = s.allowed.find(f);
        std::set<u64> d;
        for (size_t i = 0; i < sh->v.size() && d.size() <= maxN; i++)
            if (it == s.allowed.end() || it->second->v[i]) d.insert(sh->v[i]);
        if (d.size() <= maxN) {
            for (u64 x : d) {
                Res r = feasible(s, exa::eq(v, K(x), w));
                if (r != R_UNSAT) vals.push_back(x);
            }
            return true;
        }
    }
    State* t = cloneState(s);
    while (vals.size() < maxN) {
        Model m;
        Res r = feasible(*t, K(1), &m);
        if (r == R_UNSAT) { delete t; return true; }
        if (r == R_UNKNOWN) break;
        std::unordered_map<Node*, u128> memo;
        // symbols of v absent from the model may take any value
        for (Node* n : v.n->syms)
            if (!m.count(n)) m[n] = n->lo;
        u128 x = ex::eval(v, m, memo);
        vals.push_back(x);
        V ne = exa::bnot1(exa::eq(v, K(x), w));
        if (!addConstraint(*t, ne)) { delete t; return true; }
        Model m2;
        Res r2 = feasible(*t, ne, &m2);
        if (r2 == R_UNSAT) { delete t; return true; }
        if (r2 == R_UNKNOWN) break;
    }
    delete t;
    complete = false;
    return true;
}

static V loadAt(State& s, u64 a, int n, int w) {
    std::string err;
    Region::E* e = lookup(s, a, n, err);
    if (!e) throw MemErr{"read: " + err};
    return readBytes(e->o.o, a - e->base, n, w);
}
static void storeAt(State& s, u64 a, int n, V v, int w) {
    std::string err;
    Region::E* e = lookup(s, a, n, err);
    if (!e) throw MemErr{"write: " + err};
    if (e->o.o->ro) throw MemErr{"write to read-only memory"};
    u64 off = a - e->base;
    if (s.logging) s.wlog.push_back({a, (unsigned)n});
    writeBytes(wr(*e), off, n, v, w);
}

struct NeedFork { V v; int w; };   // re-execute the instruction once v is concrete
struct Ended {};                   // path ended

static u64 concretize(State& s, V v, int w) {
    v = simp(s, v, w);
    if (v.isC()) return (u64)v.c;
    throw NeedFork{v, w};
}

// symbolic-address load
static V loadSym(State& s, V addr, int n, int w) {
    S.symLoads++;
    Form* f;
    Shape* sh;
    if (!ex::unary(addr, 64, f, sh)) throw NeedFork{addr, 64};
    Shape* al = nullptr;
    auto it = s.allowed.find(f);
    if (it != s.allowed.end()) al = it->second;
    size_t N = sh->v.size();
    std::vector<u64> vals(N, 0), bad(N, 0);
    bool anyBad = false, sym = false;
    std::string err, firstErr;
    Region::E* e = nullptr;
    size_t live = 0;
    for (size_t i = 0; i < N; i++) {
        if (al && !al->v[i]) continue;
        live++;
        u64 a = sh->v[i];
        if (!e || a < e->base || a - e->base > e->size || (u64)n > e->size - (a - e->base)) {
            e = lookup(s, a, n, err);
            if (!e) { bad[i] = 1; anyBad = true; if (firstErr.empty()) firstErr = err; continue; }
        }
        const Obj* o = e->o.o;
        u64 off = a - e->base;
        if (!o->s.empty())
            for (int k = 0; k < n; k++)
                if (o->s[off + k].n) sym = true;
        if (!sym && n <= 8) {
            u64 x = 0;
            memcpy(&x, &o->b[off], n);
            vals[i] = x & (u64)maskw(w);
        }
    }
    if (anyBad) {
        V bc = ex::mkUn(f, ex::mkShape(sh->lo, sh->hi, 1, std::move(bad)), 1, O_NONE, {}, 0);
        Model m;
        Res r = feasible(s, bc, &m, opt.assertTimeout);
        if (r == R_SAT) violation(s, "memory", "read: " + firstErr + " (symbolic address)", bc);
        if (r == R_UNKNOWN) { if (opt.trace) fprintf(stderr, "[addr] %s\n", ex::str(addr, 6).c_str()); unsupported(s, "symbolic address possibly out of bounds"); }
        if (!addConstraint(s, exa::bnot1(bc)) || feasible(s, exa::bnot1(bc)) == R_UNSAT) throw Ended();
        return loadSym(s, addr, n, w);
    }
    if (sym || n > 8) {
        if (live > 64) throw NeedFork{addr, 64};
        V r;
        bool first = true;
        for (size_t i = 0; i < N; i++) {
            if (al && !al->v[i]) continue;
            V x = loadAt(s, sh->v[i], n, w);
            if (first) { r = x; first = false; continue; }
            std::vector<u64> one(N, 0);
            one[i] = 1;
            V c = ex::mkUn(f, ex::mkShape(sh->lo, sh->hi, 1, std::move(one)), 1, O_NONE, {}, 0);
            r = exa::ite(c, x, r, w);
        }
        return r;
    }
    return simp(s, ex::mkUn(f, ex::mkShape(sh->lo, sh->hi, w, std::move(vals)), w, O_NONE, {}, 0), w, true);
}

static V loadV(State& s, V addr, int n, int w) {
    addr = simp(s, addr, 64);
    if (addr.isC()) {
        V v = loadAt(s, (u64)addr.c, n, w);
        return v.n ? simp(s, v, w, true) : v;
    }
    return loadSym(s, addr, n, w);
}
static void storeV(State& s, V addr, int n, V v, int w) {
    u64 a = concretize(s, addr, 64);
    storeAt(s, a, n, v, w);
}

static std::string cstr(State& s, u64 a) {
    std::string r;
    for (int i = 0; i < 4096; i++) {
        V v = loadAt(s, a + i, 1, 8);
        if (!v.isC() || !v.c) break;
        r += (char)v.c;
    }
    return r;
}

// ------------------------------------------------------------------ control transfer
static void transfer(State& s, int to) {
    Frame& f = top(s);
    Block& B = f.f->blocks[to];
    if (!B.phis.empty()) {
        auto it = B.phis.find(f.bb);
        if (it != B.phis.end()) {
            static thread_local std::vector<V> tmp;
            tmp.clear();
            for (auto& m : it->second)
                for (int k = 0; k < m.n; k++) {
                    V v = m.src >= 0 ? f.r[m.src + k] : f.f->pool[-(m.src - k) - 1];
                    tmp.push_back(v);
                }
            size_t q = 0;
            for (auto& m : it->second)
                for (int k = 0; k < m.n; k++) f.r[m.dst + k] = tmp[q++];
        }
    }
    f.bb = to;
    f.pc = B.start;
}

static void popFrame(State& s) {
    Frame& f = *s.st.back().p;
    for (u64 a : f.allocas) {
        int i = s.stack.find(a);
        if (i >= 0 && s.stack.v[i].base == a) { s.stack.v[i].o = ObjRef(); s.stack.dead++; }
    }
    s.stack.compact();
    s.st.pop_back();
}

static bool pathDone(State& s, const char* how);

static void pushFrame(State& s, Func* f, const std::vector<V>& args) {
    if (!f->decoded) decode(f);
    f->calls++;
    Frame* fr = new Frame;
    fr->f = f;
    fr->r.resize(f->nslots);
    int n = f->argSlot.size();
    int total = n ? (f->argSlot[n - 1] + nflat(f->F->getArg(n - 1)->getType())) : 0;
    for (int i = 0; i < (int)args.size() && i < total; i++) fr->r[i] = args[i];
    fr->bb = 0;
    fr->pc = f->blocks[0].start;
    s.st.push_back(FrameRef(fr));
}

// typeinfo relations
static bool tiMatch(u64 thrown, u64 want) {
    if (want == 0 || thrown == want) return true;
    auto it = gbyaddr.find(thrown);
    if (it == gbyaddr.end()) return false;
    auto* G = dyn_cast<GlobalVariable>(it->second);
    if (!G) return false;
    if (G->hasInitializer()) {
        auto* C = dyn_cast<ConstantStruct>(G->getInitializer());
        if (!C) return false;
        for (unsigned i = 2; i < C->getNumOperands(); i++) {
            std::vector<V> v;
            if (!C->getOperand(i)->getType()->isPointerTy()) continue;
            constFlat(C->getOperand(i), v);
            if (v[0].c && tiMatch((u64)v[0].c, want)) return true;
        }
        return false;
    }
    static std::map<std::string, std::string> base = {{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
                                                      {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
                                                      {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
    auto b = base.find(G->getName().str());
    if (b == base.end()) return false;
    if (auto* BG = M->getNamedGlobal(b->second)) return tiMatch(globalAddr(BG), want);
    // the base has no global here: continue by name
    std::string nm = b->second;
    auto w = gbyaddr.find(want);
    while (true) {
        if (w != gbyaddr.end() && w->second->getName() == nm) return true;
        auto b2 = base.find(nm);
        if (b2 == base.end()) return false;
        nm = b2->second;
    }
}

static int typeId(u64 ti) {
    static std::map<u64, int> ids;
    auto it = ids.find(ti);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    return ids[ti] = n;
}

// throw: find a landing pad; returns false if the path ended
static bool unwind(State& s, u64 obj, u64 ti) {
    s.inflight = obj;
    s.inflightTI = ti;
    while (!s.st.empty()) {
        Frame& fr = *s.st.back().p;
        Inst& in = fr.f->code[fr.pc];
        if (in.k == I_CALL && in.bb2 >= 0) {
            Func* f = fr.f;
            Block& B = f->blocks[in.bb2];
            Inst* lp = nullptr;
            for (int i = B.start; i < (int)f->code.size(); i++)
                if (f->code[i].k == I_LANDING) { lp = &f->code[i]; break; }
            if (lp) {
                int sel = -1;
                for (i64 c : lp->ys)
                    if (tiMatch(ti, (u64)c)) { sel = typeId((u64)c); break; }
                if (sel < 0 && lp->op) sel = 0;
                if (sel >= 0) {
                    transfer(s, in.bb2);
                    Frame& t = top(s);
                    t.r[lp->dst] = K(obj);
                    t.r[lp->dst + 1] = K(sel);
                    return true;
                }
            }
        }
        if (s.st.size() == 1) break;
        popFrame(s);
    }
    std::string nm = "?";
    auto it = gbyaddr.find(ti);
    if (it != gbyaddr.end()) nm = it->second->getName().str();
    violation(s, "exception", "uncaught exception " + nm);
    return false;
}

#include "ops.inc"

// ------------------------------------------------------------------ merging
static bool ptrLike(u128 c) { return c >= PTR_MIN && c < PTR_MAX; }
static bool nice(V v) {
    if (!v.n) return true;
    return !(v.n->k == KOp && v.n->op == O_ITE && v.n->w > 1);
}
static int valueWidth(V a, V b) { return a.n ? a.n->w : b.n ? b.n->w : 0; }

static State* tryMerge(State* a, State* b, V c, size_t pcBase, u64 allocBase, const Allowed& al0, const std::map<Node*, u128>& known0, const std::vector<V>& pc0,
                       const std::vector<std::pair<u64, unsigned>>& wlog0) {
    auto fail = [&](const char* why) -> State* {
        S.mergeFail++;
        if (opt.trace) fprintf(stderr, "[merge fail] %s @ %s\n", why, where(*a).c_str());
        return nullptr;
    };
    if (opt.noMerge) return nullptr;
    if (a->st.size() != b->st.size()) return fail("depth");
    if (a->allocSeq != allocBase || b->allocSeq != allocBase) return fail("alloc");
    if (a->pc.size() > pcBase + 1 || b->pc.size() > pcBase + 1) return fail("pc");
    if (a->inputs.size() != b->inputs.size() || a->outs.size() != b->outs.size() || a->labels != b->labels || a->excs != b->excs || a->inflight != b->inflight) return fail("env");
    size_t D = a->st.size();
    for (size_t i = 0; i + 1 < D; i++)
        if (a->st[i].p != b->st[i].p) return fail("frame");
    Frame &fa = *a->st[D - 1].p, &fb = *b->st[D - 1].p;
    if (fa.f != fb.f || fa.bb != fb.bb || fa.pc != fb.pc || fa.allocas != fb.allocas) return fail("pc position");
    bool atStart = fa.pc == fa.f->blocks[fa.bb].start;
    if (atStart) liveness(fa.f);
    std::vector<std::pair<int, V>> regs;
    for (size_t i = 0; i < fa.r.size(); i++) {
        if (fa.r[i] == fb.r[i]) continue;
        bool isPhi = false;
        if (atStart && !fa.f->blocks[fa.bb].live[i]) continue;
        (void)isPhi;
        V x = fa.r[i], y = fb.r[i];
        if (x.isC() && ptrLike(x.c)) return fail("pointer register");
        if (y.isC() && ptrLike(y.c)) return fail("pointer register");
        int w = valueWidth(x, y);
        if (!w) w = (x.c >> 64) || (y.c >> 64) ? 128 : 64; // both concrete: width is not recorded; values are already masked
        V r = exa::ite(c, x, y, w);
        if (!w) return fail("width");
        // a merged pair of constants must have the register's real width
        if (x.isC() && y.isC()) {
            int rw = 64;
            // find the defining width through the function's instruction table
            const Func* F = fa.f;
            static std::map<const Func*, std::vector<int>> widths;
            auto& wv = widths[F];
            if (wv.empty()) {
                wv.assign(F->nslots + 1, 0);
                auto put = [&](Type* T, int s0) {
                    std::vector<Elem> el;
                    flat(T, el);
                    for (size_t q = 0; q < el.size(); q++) wv[s0 + q] = el[q].w;
                };
                int sl = 0;
                for (auto& A : F->F->args()) { put(A.getType(), sl); sl += nflat(A.getType()); }
                for (auto& B : *F->F)
                    for (auto& I : B)
                        if (!I.getType()->isVoidTy()) { put(I.getType(), sl); sl += nflat(I.getType()); }
            }
            rw = wv[i] ? wv[i] : 64;
            r = exa::ite(c, x, y, rw);
            // large constants that differ are treated as sizes or positions: keep the paths apart
            if (rw > 1 && std::max(x.c, y.c) - std::min(x.c, y.c) > 1 && rw == 64) return fail("size-like register");
        }
        if (!nice(r)) return fail("register not expressible");
        regs.push_back({(int)i, r});
    }
    // memory: replay both write logs
    std::set<std::pair<u64, unsigned>> w;
    for (auto& x : a->wlog) w.insert(x);
    for (auto& x : b->wlog) w.insert(x);
    if (w.size() > 4096) return fail("log");
    struct W { u64 a; unsigned n; V v; };
    std::vector<W> ws;
    for (auto& x : w) {
        std::string e1;
        Region::E* ea = lookup(*a, x.first, x.second, e1);
        Region::E* eb = lookup(*b, x.first, x.second, e1);
        if (!ea && !eb) continue; // freed stack
        if (!ea || !eb) return fail("object");
        if (ea->o.o == eb->o.o) continue;
        unsigned n = x.second;
        if (n > 16) { // block writes: byte-wise
            for (unsigned i = 0; i < n;) {
                unsigned k = (n - i) >= 4 ? 4 : 1;
                V p = readBytes(ea->o.o, x.first - ea->base + i, k, 8 * k), q = readBytes(eb->o.o, x.first - eb->base + i, k, 8 * k);
                if (p != q) {
                    V r = exa::ite(c, p, q, 8 * k);
                    if (!nice(r)) return fail("block not expressible");
                    ws.push_back({x.first + i, k, r});
                }
                i += k;
            }
            continue;
        }
        V p = readBytes(ea->o.o, x.first - ea->base, n, 8 * n), q = readBytes(eb->o.o, x.first - eb->base, n, 8 * n);
        if (p == q) continue;
        if ((p.isC() && ptrLike(p.c)) || (q.isC() && ptrLike(q.c))) return fail("pointer cell");
        if (p.isC() && q.isC() && n >= 8) return fail("size cell");
        V r = exa::ite(c, p, q, 8 * n);
        if (!nice(r)) return fail("cell not expressible");
        ws.push_back({x.first, n, r});
    }
    // commit into a
    a->pc = pc0;
    a->allowed = al0;
    a->known = known0;
    a->wlog = wlog0;
    Frame& f = top(*a);
    for (auto& x : regs) f.r[x.first] = x.second;
    int lg = a->logging;
    a->logging = 0;
    for (auto& x : ws) storeAt(*a, x.a, x.n, x.v, 8 * x.n);
    a->logging = lg;
    if (lg)
        for (auto& x : w) a->wlog.push_back(x);
    a->heap.next = std::max(a->heap.next, b->heap.next);
    a->stack.next = std::max(a->stack.next, b->stack.next);
    for (auto& n : b->names) a->names[n.first] = std::max(a->names[n.first], n.second);
    a->maybeInfeasible = a->maybeInfeasible || b->maybeInfeasible;
    a->underApprox = a->underApprox || b->underApprox;
    S.merges++;
    delete b;
    return a;
}

// symbolic two-way branch
static std::vector<State*> forkBranch(State* s, V c, int bbT, int bbF) {
    std::vector<State*> res;
    Res rt = feasible(*s, c);
    Res rf = rt == R_UNSAT ? R_SAT : feasible(*s, exa::bnot1(c));
    if (rt == R_UNSAT || rf == R_UNSAT) {
        V taken = rt == R_UNSAT ? exa::bnot1(c) : c;
        Form* f;
        Shape* sh;
        if (ex::unary(taken, 1, f, sh)) {
            Shape*& a = s->allowed[f];
            a = ex::andShapes(a, sh);
            if (ex::shapeEmpty(a)) { S.pathsAssume++; delete s; return res; }
        }
        if (s->maybeInfeasible && rt == R_UNSAT && feasible(*s, K(1)) == R_UNSAT) { S.pathsAssume++; delete s; return res; }
        transfer(*s, rt == R_UNSAT ? bbF : bbT);
        res.push_back(s);
        return res;
    }
    S.forks++;
    Frame& fr = *s->st.back().p;
    Target t{(int)s->st.size(), fr.f->blocks[fr.bb].ipdom};
    std::vector<V> pc0 = s->pc;
    Allowed al0 = s->allowed;
    auto known0 = s->known;
    auto wlog0 = s->wlog;
    u64 alloc0 = s->allocSeq;
    State* a = s;
    State* b = cloneState(*s);
    if (rt == R_UNKNOWN) a->maybeInfeasible = true;
    if (rf == R_UNKNOWN) b->maybeInfeasible = true;
    bool okA = addConstraint(*a, c), okB = addConstraint(*b, exa::bnot1(c));
    a->wlog.clear();
    b->wlog.clear();
    a->logging++;
    b->logging++;
    std::vector<State*> ra, rb;
    if (okA) { transfer(*a, bbT); ra = runUntil(a, t); } else delete a;
    if (okB) { transfer(*b, bbF); rb = runUntil(b, t); } else delete b;
    auto unlog = [&](State* x) { x->logging--; };
    for (auto* x : ra) unlog(x);
    for (auto* x : rb) unlog(x);
    if (ra.size() == 1 && rb.size() == 1) {
        State* m = tryMerge(ra[0], rb[0], c, pc0.size(), alloc0, al0, known0, pc0, wlog0);
        if (m) { res.push_back(m); return res; }
    }
    for (auto* l : {&ra, &rb})
        for (auto* x : *l) {
            if (x->logging) x->wlog.insert(x->wlog.end(), wlog0.begin(), wlog0.end());
            else x->wlog.clear();
            res.push_back(x);
        }
    return res;
}

static std::vector<State*> forkValues(State* s, V v, int w) {
    std::vector<State*> res;
    std::vector<u128> vals;
    bool complete;
    valuesOf(*s, v, w, vals, 300, complete);
    if (!complete) {
        S.underApprox++;
        unsupMsgs["value set cut to " + std::to_string(vals.size()) + " @ " + where(*s)]++;
        S.unsup++;
        if (vals.size() > 8) vals.resize(8);
    }
    for (size_t i = 0; i < vals.size(); i++) {
        State* t = i + 1 == vals.size() ? s : cloneState(*s);
        S.forks++;
        if (!addConstraint(*t, exa::eq(v, K(vals[i]), w))) { delete t; continue; }
        if (v.n) t->known[v.n] = vals[i];
        if (!complete) t->underApprox = true;
        res.push_back(t);
    }
    if (vals.empty()) { S.pathsAssume++; delete s; }
    return res;
}

static bool pathDone(State& s, const char* how) {
    (void)how;
    S.paths++;
    if (s.underApprox) S.underApprox++;
    for (auto& l : s.labels) labels[l]++;
    // witnesses: some complete paths are turned into concrete inputs for the native build
    bool want = false;
    for (auto& l : s.labels)
        if (!witnessedLabels.count(l)) want = true;
    u64 p = S.paths;
    if ((p & (p - 1)) == 0) want = true;
    if (want && (int)witnessFiles.size() < opt.maxWitness + (int)witnessedLabels.size()) {
        Model m;
        if (fullModel(s, K(1), m)) {
            for (auto& l : s.labels) witnessedLabels.insert(l);
            witnessFiles.push_back(dumpInputs(s, m, "wit", "witness of a complete path"));
        } else if (s.maybeInfeasible)
            S.pathsAssume++;
    }
    if (S.paths >= opt.maxPaths) { timeUp = true; S.timeout = true; }
    return true;
}

static std::vector<State*> runUntil(State* s0, Target t) {
    std::vector<State*> work{s0}, res;
    while (!work.empty()) {
        State* s = work.back();
        work.pop_back();
        if (timeUp) { delete s; continue; }
        std::vector<State*> kids;
        V fc;
        int fw = 0;
        StepRes r = runState(*s, t, kids);
        (void)fc; (void)fw;
        if (r == SR_ARRIVED) res.push_back(s);
        else if (r == SR_ENDED) delete s;
        else
            for (auto it = kids.rbegin(); it != kids.rend(); ++it) work.push_back(*it);
    }
    return res;
}

// ------------------------------------------------------------------ set-up
static void initGlobals(State& s) {
    s.glob.next = GLOB_BASE;
    s.heap.next = HEAP_BASE;
    s.stack.next = STACK_BASE;
    u64 fa = FN_BASE;
    for (auto& F : *M) {
        if (F.isIntrinsic()) continue;
        gaddr[&F] = fa;
        gbyaddr[fa] = &F;
        Func* f = getFunc(&F);
        f->addr = fa;
        funcByAddr[fa] = f;
        fa += 16;
    }
    for (auto& G : M->globals()) {
        u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
        if (G.isDeclaration()) sz = std::max<u64>(sz, 512); // externals: opaque storage
        u64 a = allocObj(s, 'g', sz, G.getName().str(), std::max<u64>(16, DL->getPreferredAlign(&G).value()));
        gaddr[&G] = a;
        gbyaddr[a] = &G;
    }
    for (auto& G : M->globals()) {
        u64 a = gaddr[&G];
        int i = s.glob.find(a);
        Obj* o = s.glob.v[i].o.o;
        std::fill(o->b.begin(), o->b.end(), 0);
        if (!G.hasInitializer()) continue;
        std::vector<Elem> el;
        flat(G.getValueType(), el);
        std::vector<V> vs;
        if (isa<ConstantAggregateZero>(G.getInitializer())) continue;
        constFlat(G.getInitializer(), vs);
        for (size_t k = 0; k < el.size() && k < vs.size(); k++) writeBytes(o, el[k].off, el[k].bytes, vs[k], el[k].w);
    }
    for (auto& G : M->globals())
        if (G.isConstant() && G.hasInitializer()) s.glob.v[s.glob.find(gaddr[&G])].o.o->ro = true;
}

static void jstr(std::ostream& o, const std::string& s) {
    o << '"';
    for (char c : s) {
        if (c == '"' || c == '\\') o << '\\' << c;
        else if ((unsigned char)c < 32) o << ' ';
        else o << c;
    }
    o << '"';
}

static void report() {
    // lemmas: recognised tables, re-proved from their derivations
    u64 lemTot = ex::lemmas.size(), lemOk = 0, lemUnk = 0, lemBad = 0, lemTried = 0;
    for (auto& l : ex::lemmas) {
        if ((int)lemTried >= opt.lemmaBudget || elapsed() > opt.timeLimit) break;
        lemTried++;
        Res r = proveLemma(l, 5000);
        if (r == R_UNSAT) lemOk++;
        else if (r == R_SAT) { lemBad++; fprintf(stderr, "LEMMA-MISMATCH %s\n", ex::str(V(l.un)).c_str()); }
        else lemUnk++;
    }
    // rewriting steps, discharged by the solver (in a pseudo-random order, within the budget)
    u64 stOk = 0, stUnk = 0, stTab = 0, stBad = 0;
    if (opt.audit > 0 && !steps.empty()) {
        double t0 = elapsed();
        size_t n = steps.size(), st = 0;
        size_t stride = 7919 % n ? 7919 % n : 1;
        while (std::__gcd(stride, n) != 1) stride++;
        for (size_t i = 0; i < n && elapsed() - t0 < opt.audit; i++, st = (st + stride) % n) {
            Step& x = steps[st];
            bool tab = false;
            Res r = proveStep(x.op, x.a, x.b, x.c, x.w, x.aw, x.r, 1500, tab);
            if (tab) stTab++;
            else if (r == R_UNSAT) stOk++;
            else if (r == R_SAT) { stBad++; fprintf(stderr, "STEP-MISMATCH op %d w %d/%d %s , %s , %s -> %s\n", x.op, x.w, x.aw, ex::str(x.a).c_str(), ex::str(x.b).c_str(), ex::str(x.c).c_str(), ex::str(x.r).c_str()); }
            else { stUnk++; if (getenv("SX_DUMP")) fprintf(stderr, "STEP-UNKNOWN op %d w %d/%d %s , %s , %s -> %s\n", x.op, x.w, x.aw, ex::str(x.a).c_str(), ex::str(x.b).c_str(), ex::str(x.c).c_str(), ex::str(x.r).c_str()); }
        }
    }
    std::set<std::string> fns;
    for (auto& f : funcStore) {
        if (!f->decoded) continue;
        for (auto& in : f->code) {
            if (!in.executed) continue;
            const DILocation* L = in.I->getDebugLoc().get();
            while (L) {
                std::string fn = L->getScope()->getFilename().str();
                if (auto* SPr = L->getScope()->getSubprogram())
                    if (fn.find("/src/") != std::string::npos && fn.find("/verif/") == std::string::npos) {
                        size_t p = fn.find("/src/");
                        std::string nm = SPr->getName().str();
                        size_t lt = nm.find('<');
                        if (lt != std::string::npos && nm.compare(0, 8, "operator")) nm = nm.substr(0, lt);
                        std::string sc;
                        if (auto* Sc = SPr->getScope())
                            if (auto* CT = dyn_cast<DICompositeType>(Sc)) {
                                sc = CT->getName().str();
                                size_t q = sc.find('<');
                                if (q != std::string::npos) sc = sc.substr(0, q);
                                sc += "::";
                            }
                        fns.insert(fn.substr(p + 5) + ":" + sc + nm);
                    }
                L = L->getInlinedAt();
            }
        }
    }
    std::ofstream o(opt.out + "/result.json");
    o << "{\"paths\":" << S.paths << ",\"paths_infeasible\":" << S.pathsAssume << ",\"forks\":" << S.forks << ",\"merges\":" << S.merges << ",\"merge_fail\":" << S.mergeFail << ",\"instructions\":" << S.instrs
      << ",\"asserts\":" << S.asserts << ",\"asserts_normalised\":" << S.assertsTrivial << ",\"asserts_unknown\":" << S.assertsUnknown << ",\"unsupported\":" << S.unsup << ",\"feas_unknown\":" << S.feasUnknown
      << ",\"linear_decided\":" << S.linearDecided << ",\"symbolic_loads\":" << S.symLoads << ",\"under_approx\":" << S.underApprox << ",\"timeout\":" << (S.timeout ? "true" : "false") << ",\"wall_s\":" << elapsed() << ",\"solver_queries\":" << sstats.queries << ",\"solver_unsat\":" << sstats.unsat
      << ",\"solver_sat\":" << sstats.sat << ",\"solver_unknown\":" << sstats.unknown << ",\"solver_int\":" << sstats.intq << ",\"solver_bv\":" << sstats.bvq << ",\"solver_time_s\":" << sstats.time << ",\"solver_max_s\":" << sstats.maxq
      << ",\"nodes\":" << ex::n_nodes << ",\"tables\":" << ex::n_shapes << ",\"tables_recognised\":" << ex::n_recog << ",\"lemmas\":" << lemTot << ",\"lemmas_proved\":" << lemOk << ",\"lemmas_unknown\":" << lemUnk << ",\"lemmas_refuted\":" << lemBad;
    o << ",\"steps\":" << stepsSeen << ",\"steps_proved\":" << stOk << ",\"steps_tabulated\":" << stTab << ",\"steps_unknown\":" << stUnk << ",\"steps_refuted\":" << stBad;
    o << ",\"params\":{";
    bool first = true;
    for (auto& p : opt.params) { if (!first) o << ","; first = false; jstr(o, p.first); o << ":" << p.second; }
    o << "},\"labels\":{";
    first = true;
    for (auto& l : labels) { if (!first) o << ","; first = false; jstr(o, l.first); o << ":" << l.second; }
    o << "},\"unsupported_msgs\":[";
    first = true;
    for (auto& l : unsupMsgs) { if (!first) o << ","; first = false; jstr(o, l.first + " x" + std::to_string(l.second)); }
    o << "],\"witness\":[";
    first = true;
    for (auto& l : witnessFiles) { if (!first) o << ","; first = false; jstr(o, l); }
    o << "],\"violations\":[";
    first = true;
    for (auto& v : viols) {
        if (!first) o << ",";
        first = false;
        o << "{\"kind\":"; jstr(o, v.kind);
        o << ",\"msg\":"; jstr(o, v.msg);
        o << ",\"where\":"; jstr(o, v.where);
        o << ",\"file\":"; jstr(o, v.file);
        o << "}";
    }
    o << "],\"functions\":[";
    first = true;
    for (auto& f : fns) { if (!first) o << ","; first = false; jstr(o, f); }
    o << "]}\n";
}

static int realMain(int argc, char** argv) {
    T0 = std::chrono::steady_clock::now();
    LLVMContext C;
    std::vector<std::string> files;
    std::string entry = "main";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out") opt.out = argv[++i];
        else if (a == "--param") {
            std::string p = argv[++i];
            size_t e = p.find('=');
            opt.params[p.substr(0, e)] = atoll(p.c_str() + e + 1);
        } else if (a == "--time") opt.timeLimit = atof(argv[++i]);
        else if (a == "--max-paths") opt.maxPaths = atoll(argv[++i]);
        else if (a == "--assert-timeout") opt.assertTimeout = atoi(argv[++i]);
        else if (a == "--feas-timeout") opt.feasTimeout = atoi(argv[++i]);
        else if (a == "--max-viol") opt.maxViol = atoi(argv[++i]);
        else if (a == "--no-merge") opt.noMerge = true;
        else if (a == "--trace") opt.trace = true;
        else if (a == "--lemmas") opt.lemmaBudget = atoi(argv[++i]);
        else if (a == "--audit") opt.audit = atof(argv[++i]);
        else if (a == "--lim") ex::LIM = (i128)1 << atoi(argv[++i]);
        else files.push_back(a);
    }
    for (auto& f : files) {
        SMDiagnostic d;
        auto m = parseIRFile(f, d, C);
        if (!m) { d.print("sx", errs()); return 2; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link failed %s\n", f.c_str()); return 2; }
    }
    DL = &M->getDataLayout();
    recordSteps = opt.audit > 0;
    State* s = new State;
    initGlobals(*s);
    // global constructors, then main
    std::vector<Function*> ctors;
    if (auto* G = M->getNamedGlobal("llvm.global_ctors"))
        if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer()))
            for (auto& E : CA->operands())
                if (auto* F = dyn_cast<Function>(cast<ConstantStruct>(E)->getOperand(1)->stripPointerCasts())) ctors.push_back(F);
    Function* mainF = M->getFunction(entry);
    if (!mainF || mainF->isDeclaration()) { fprintf(stderr, "no main\n"); return 2; }
    for (auto* F : ctors) {
        pushFrame(*s, getFunc(F), {});
        Target t{1, -1};
        auto r = runUntil(s, t);
        if (r.size() != 1) { fprintf(stderr, "global constructor did not complete\n"); report(); return 2; }
        s = r[0];
    }
    pushFrame(*s, getFunc(mainF), {K(0), K(0)});
    auto r = runUntil(s, Target{1, -1});
    for (auto* x : r) {
        pathDone(*x, "return");
        delete x;
    }
    report();
    return 0;
}

int main(int argc, char** argv) {
    // deep recursion: run on a large stack
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    const rlim_t want = 4ULL << 30;
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want && !getenv("SX_STACK")) {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? want : std::min<rlim_t>(want, rl.rlim_max);
        setrlimit(RLIMIT_STACK, &rl);
        setenv("SX_STACK", "1", 1);
        execv("/proc/self/exe", argv);
    }
    int r = realMain(argc, argv);
    fflush(stdout);
    fflush(stderr);
    _exit(r);
}
