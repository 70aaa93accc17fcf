// Symbolic executor for LLVM IR.
#pragma once
#include "expr.h"
#include "solver.h"
#include <chrono>
#include <functional>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <set>
#include <string>
#include <vector>

struct SymByte { Node* n; uint8_t i; };

struct Obj {
    u64 base = 0, size = 0;
    std::vector<uint8_t> b;
    std::vector<SymByte> s; // empty: all concrete
    bool ro = false;
    char kind = 'h'; // g(lobal) h(eap) s(tack) f(unction)
    int ref = 0;
    u64 ver = 0;
    std::string name;
};
struct ObjRef {
    Obj* o;
    ObjRef() : o(nullptr) {}
    ObjRef(Obj* x) : o(x) { if (o) o->ref++; }
    ObjRef(const ObjRef& x) : o(x.o) { if (o) o->ref++; }
    ObjRef(ObjRef&& x) noexcept : o(x.o) { x.o = nullptr; }
    ObjRef& operator=(const ObjRef& x) { if (x.o) x.o->ref++; rel(); o = x.o; return *this; }
    ObjRef& operator=(ObjRef&& x) noexcept { if (this != &x) { rel(); o = x.o; x.o = nullptr; } return *this; }
    ~ObjRef() { rel(); }
    void rel() { if (o && --o->ref == 0) delete o; o = nullptr; }
};

struct Region { // sorted by base; freed entries are null objects, compacted lazily
    struct E { u64 base, size; ObjRef o; };
    std::vector<E> v;
    u64 next = 0;
    int dead = 0;
    int find(u64 a) const {
        int lo = 0, hi = (int)v.size() - 1, r = -1;
        while (lo <= hi) {
            int m = (lo + hi) >> 1;
            if (v[m].base <= a) { r = m; lo = m + 1; }
            else hi = m - 1;
        }
        return r;
    }
    void compact() {
        if (dead < 64 || dead * 2 < (int)v.size()) return;
        size_t j = 0;
        for (size_t i = 0; i < v.size(); i++)
            if (v[i].o.o) { if (i != j) v[j] = std::move(v[i]); j++; }
        v.resize(j);
        dead = 0;
    }
};

struct Func;
enum IK {
    I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BIN, I_ICMP, I_SELECT, I_CAST, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL,
    I_UNREACH, I_COPY, I_BITCAST, I_LANDING, I_RESUME, I_FP, I_NOP, I_SHUF, I_EXTELT, I_INSELT, I_UNSUP, I_ATOMIC, I_CMPXCHG
};
struct Elem { int w; int off; int bytes; }; // flattened element of a type
struct Inst {
    IK k;
    int op = 0; // LLVM opcode / predicate
    int w = 0, w2 = 0;
    int dst = -1, nd = 0;
    int a = 0, b = 0, c = 0;
    int bb1 = -1, bb2 = -1;
    std::vector<int> xs;
    std::vector<i64> ys;
    std::vector<Elem> el;
    const llvm::Instruction* I = nullptr;
    Func* callee = nullptr;
    int builtin = -1;
    int intrin = 0;
    bool executed = false;
};
struct PhiMove { int dst, n, src; };
struct Block {
    int start = 0;
    int ipdom = -1;
    std::map<int, std::vector<PhiMove>> phis; // per predecessor
    const llvm::BasicBlock* B = nullptr;
    std::vector<bool> live; // lazily
};
struct Func {
    llvm::Function* F = nullptr;
    std::string name;
    bool decoded = false;
    int nslots = 0;
    std::vector<Inst> code;
    std::vector<Block> blocks;
    std::vector<V> pool;
    std::vector<int> argSlot;
    u64 addr = 0;
    bool liveDone = false;
    u64 calls = 0;
    int builtin = -1;
};
struct Frame {
    Func* f = nullptr;
    std::vector<V> r;
    int pc = 0;
    int bb = 0;
    std::vector<u64> allocas;
    std::vector<V> va;
    int ref = 0;
};
struct FrameRef {
    Frame* p;
    FrameRef() : p(nullptr) {}
    FrameRef(Frame* x) : p(x) { if (p) p->ref++; }
    FrameRef(const FrameRef& x) : p(x.p) { if (p) p->ref++; }
    FrameRef(FrameRef&& x) noexcept : p(x.p) { x.p = nullptr; }
    FrameRef& operator=(const FrameRef& x) { if (x.p) x.p->ref++; rel(); p = x.p; return *this; }
    FrameRef& operator=(FrameRef&& x) noexcept { if (this != &x) { rel(); p = x.p; x.p = nullptr; } return *this; }
    ~FrameRef() { rel(); }
    void rel() { if (p && --p->ref == 0) delete p; p = nullptr; }
};

struct State {
    std::vector<FrameRef> st;
    Region heap, stack, glob;
    std::vector<V> pc;
    Allowed allowed;
    std::map<Node*, u128> known;
    std::map<std::string, int> names;
    std::vector<std::pair<std::string, V>> inputs;
    std::vector<std::pair<std::string, V>> outs;
    std::vector<std::string> labels;
    std::vector<std::pair<u64, unsigned>> wlog;
    int logging = 0;
    u64 allocSeq = 0;
    std::vector<std::pair<u64, u64>> excs; // caught exceptions (object, typeinfo)
    u64 inflight = 0, inflightTI = 0;
    bool maybeInfeasible = false;
    bool underApprox = false;
    u64 id = 0;
};
