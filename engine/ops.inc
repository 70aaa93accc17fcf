// Instruction semantics (included by exec.cpp).
#include <cmath>

static std::vector<State*> forkBranch(State* s, V c, int bbT, int bbF);
static std::vector<State*> forkValues(State* s, V v, int w);

static V icmpV(int pred, V a, V b, int w) {
    switch (pred) {
    case CmpInst::ICMP_EQ: return exa::eq(a, b, w);
    case CmpInst::ICMP_NE: return exa::bnot1(exa::eq(a, b, w));
    case CmpInst::ICMP_ULT: return exa::ult(a, b, w);
    case CmpInst::ICMP_UGT: return exa::ult(b, a, w);
    case CmpInst::ICMP_ULE: return exa::bnot1(exa::ult(b, a, w));
    case CmpInst::ICMP_UGE: return exa::bnot1(exa::ult(a, b, w));
    case CmpInst::ICMP_SLT: return exa::slt(a, b, w);
    case CmpInst::ICMP_SGT: return exa::slt(b, a, w);
    case CmpInst::ICMP_SLE: return exa::bnot1(exa::slt(b, a, w));
    default: return exa::bnot1(exa::slt(a, b, w));
    }
}
static V binV(State& s, int op, V a, V b, int w) {
    switch (op) {
    case Instruction::Add: return exa::add(a, b, w);
    case Instruction::Sub: return exa::sub(a, b, w);
    case Instruction::Mul: return exa::mul(a, b, w);
    case Instruction::And: return exa::band(a, b, w);
    case Instruction::Or: return exa::bor(a, b, w);
    case Instruction::Xor: return exa::bxor(a, b, w);
    case Instruction::Shl: return exa::shl(a, b, w);
    case Instruction::LShr: return exa::lshr(a, b, w);
    case Instruction::AShr: return exa::ashr(a, b, w);
    default: break;
    }
    // divisions: the divisor must not be zero
    b = simp(s, b, w);
    if (b.isC()) {
        if (!b.c) { violation(s, "arithmetic", "division by zero"); throw Ended(); }
    } else if (b.n->lo == 0) {
        V z = exa::eq(b, K(0), w);
        Model m;
        Res r = feasible(s, z, &m, opt.assertTimeout);
        if (r != R_UNSAT) {
            if (r == R_SAT) violation(s, "arithmetic", "division by zero", z);
            else unsupported(s, "possible division by zero");
            V nz = exa::bnot1(z);
            if (!addConstraint(s, nz) || feasible(s, nz) == R_UNSAT) throw Ended();
        }
    }
    switch (op) {
    case Instruction::UDiv: return exa::udiv(a, b, w);
    case Instruction::URem: return exa::urem(a, b, w);
    case Instruction::SDiv: return exa::sdiv(a, b, w);
    default: return exa::srem(a, b, w);
    }
}

static double asD(V v, int w) {
    if (!v.isC()) return 0;
    if (w == 32) { uint32_t x = (uint32_t)v.c; float f; memcpy(&f, &x, 4); return f; }
    u64 x = (u64)v.c;
    double d;
    memcpy(&d, &x, 8);
    return d;
}
static V fromD(double d, int w) {
    if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return K(x); }
    u64 x;
    memcpy(&x, &d, 8);
    return K(x);
}

static void copyMem(State& s, u64 dst, u64 src, u64 n) {
    if (!n) return;
    std::string err;
    Region::E* es = lookup(s, src, n, err);
    if (!es) throw MemErr{"copy source: " + err};
    Region::E* ed = lookup(s, dst, n, err);
    if (!ed) throw MemErr{"copy destination: " + err};
    if (ed->o.o->ro) throw MemErr{"write to read-only memory"};
    u64 so = src - es->base, dof = dst - ed->base;
    if (s.logging) {
        if (n <= 0xffffffffu) s.wlog.push_back({dst, (unsigned)n});
    }
    Obj* d = wr(*ed);
    Obj* o = es->o.o;
    if (o->s.empty()) {
        memmove(&d->b[dof], &o->b[so], n);
        if (!d->s.empty())
            for (u64 i = 0; i < n; i++) d->s[dof + i].n = nullptr;
    } else {
        if (d->s.empty()) d->s.assign(d->size, SymByte{nullptr, 0});
        std::vector<SymByte> tmp(o->s.begin() + so, o->s.begin() + so + n);
        memmove(&d->b[dof], &o->b[so], n);
        std::copy(tmp.begin(), tmp.end(), d->s.begin() + dof);
    }
}
static void setMem(State& s, u64 dst, V val, u64 n) {
    if (!n) return;
    std::string err;
    Region::E* ed = lookup(s, dst, n, err);
    if (!ed) throw MemErr{"fill: " + err};
    if (ed->o.o->ro) throw MemErr{"write to read-only memory"};
    if (s.logging) s.wlog.push_back({dst, (unsigned)n});
    Obj* d = wr(*ed);
    u64 off = dst - ed->base;
    if (val.isC()) {
        memset(&d->b[off], (int)(val.c & 255), n);
        if (!d->s.empty())
            for (u64 i = 0; i < n; i++) d->s[off + i].n = nullptr;
    } else
        for (u64 i = 0; i < n; i++) writeBytes(d, off + i, 1, val, 8);
}

static void doFree(State& s, u64 p) {
    if (!p) return;
    int i = s.heap.find(p);
    if (i < 0 || s.heap.v[i].base != p) throw MemErr{"free of an address that is not a heap object"};
    if (!s.heap.v[i].o.o) throw MemErr{"double free"};
    s.heap.v[i].o = ObjRef();
    s.heap.dead++;
    s.heap.compact();
    s.allocSeq++;
}

static V clzV(V a, int w) {
    V r = K(w);
    for (int i = 0; i < w; i++) r = exa::ite(exa::extract(a, w, i, 1), K(w - 1 - i), r, w);
    return r;
}
static V ctzV(V a, int w) {
    V r = K(w);
    for (int i = w - 1; i >= 0; i--) r = exa::ite(exa::extract(a, w, i, 1), K(i), r, w);
    return r;
}
static V popV(V a, int w) {
    V r = K(0);
    for (int i = 0; i < w; i++) r = exa::add(r, exa::zext(exa::extract(a, w, i, 1), 1, w), w);
    return r;
}

// returns false if the intrinsic is not modelled
static bool intrinsic(State& s, Frame* f, Inst& in) {
    auto A = [&](int i, int k = 0) -> V {
        int r = in.xs[i];
        return r >= 0 ? f->r[r + k] : f->f->pool[-(r - k) - 1];
    };
    auto W = [&](int i) { return (int)in.ys[2 * i + 1]; };
    auto N = [&](int i) { return (int)in.ys[2 * i]; };
    auto set = [&](int k, V v) { f->r[in.dst + k] = v; };
    int w = in.w, nd = in.nd;
    switch (in.intrin) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        u64 n = concretize(s, A(2), W(2)), d = concretize(s, A(0), 64), sr = concretize(s, A(1), 64);
        copyMem(s, d, sr, n);
        return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        u64 n = concretize(s, A(2), W(2)), d = concretize(s, A(0), 64);
        setMem(s, d, A(1), n);
        return true;
    }
    case Intrinsic::ctlz: for (int k = 0; k < nd; k++) set(k, clzV(simp(s, A(0, k), w), w)); return true;
    case Intrinsic::cttz: for (int k = 0; k < nd; k++) set(k, ctzV(simp(s, A(0, k), w), w)); return true;
    case Intrinsic::ctpop: for (int k = 0; k < nd; k++) set(k, popV(simp(s, A(0, k), w), w)); return true;
    case Intrinsic::bswap:
        for (int k = 0; k < nd; k++) {
            V r = exa::extract(A(0, k), w, w - 8, 8);
            for (int i = w / 8 - 2; i >= 0; i--) {
                int have = (w / 8 - 1 - i) * 8;
                r = exa::concat(exa::extract(A(0, k), w, 8 * i, 8), 8, r, have);
            }
            set(k, r);
        }
        return true;
    case Intrinsic::bitreverse:
        for (int k = 0; k < nd; k++) {
            V r = exa::extract(A(0, k), w, w - 1, 1);
            for (int i = w - 2; i >= 0; i--) r = exa::concat(exa::extract(A(0, k), w, i, 1), 1, r, w - 1 - i);
            set(k, r);
        }
        return true;
    case Intrinsic::abs:
        for (int k = 0; k < nd; k++) set(k, exa::ite(exa::slt(A(0, k), K(0), w), exa::sub(K(0), A(0, k), w), A(0, k), w));
        return true;
    case Intrinsic::umin: for (int k = 0; k < nd; k++) set(k, exa::ite(exa::ult(A(0, k), A(1, k), w), A(0, k), A(1, k), w)); return true;
    case Intrinsic::umax: for (int k = 0; k < nd; k++) set(k, exa::ite(exa::ult(A(0, k), A(1, k), w), A(1, k), A(0, k), w)); return true;
    case Intrinsic::smin: for (int k = 0; k < nd; k++) set(k, exa::ite(exa::slt(A(0, k), A(1, k), w), A(0, k), A(1, k), w)); return true;
    case Intrinsic::smax: for (int k = 0; k < nd; k++) set(k, exa::ite(exa::slt(A(0, k), A(1, k), w), A(1, k), A(0, k), w)); return true;
    case Intrinsic::usub_sat:
        for (int k = 0; k < nd; k++) set(k, exa::ite(exa::ult(A(0, k), A(1, k), w), K(0), exa::sub(A(0, k), A(1, k), w), w));
        return true;
    case Intrinsic::uadd_sat:
        for (int k = 0; k < nd; k++) {
            V r = exa::add(A(0, k), A(1, k), w);
            set(k, exa::ite(exa::ult(r, A(0, k), w), K(maskw(w)), r, w));
        }
        return true;
    case Intrinsic::fshl: case Intrinsic::fshr:
        for (int k = 0; k < nd; k++) {
            u64 sh = concretize(s, A(2, k), w) % w;
            V hi = A(0, k), lo = A(1, k), r;
            if (in.intrin == Intrinsic::fshl) r = sh ? exa::bor(exa::shl(hi, K(sh), w), exa::lshr(lo, K(w - sh), w), w) : hi;
            else r = sh ? exa::bor(exa::shl(hi, K(w - sh), w), exa::lshr(lo, K(sh), w), w) : lo;
            set(k, r);
        }
        return true;
    case Intrinsic::umul_with_overflow: {
        int aw = W(0);
        if (aw > 64) return false;
        V p = exa::mul(exa::zext(A(0), aw, 2 * aw), exa::zext(A(1), aw, 2 * aw), 2 * aw);
        set(0, exa::trunc(p, 2 * aw, aw));
        set(1, exa::bnot1(exa::eq(exa::lshr(p, K(aw), 2 * aw), K(0), 2 * aw)));
        return true;
    }
    case Intrinsic::uadd_with_overflow: {
        int aw = W(0);
        V r = exa::add(A(0), A(1), aw);
        set(0, r);
        set(1, exa::ult(r, A(0), aw));
        return true;
    }
    case Intrinsic::usub_with_overflow: {
        int aw = W(0);
        set(0, exa::sub(A(0), A(1), aw));
        set(1, exa::ult(A(0), A(1), aw));
        return true;
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        int aw = W(0);
        if (aw > 64) return false;
        V a = exa::sext(A(0), aw, 2 * aw), b = exa::sext(A(1), aw, 2 * aw);
        V p = in.intrin == Intrinsic::sadd_with_overflow ? exa::add(a, b, 2 * aw) : in.intrin == Intrinsic::ssub_with_overflow ? exa::sub(a, b, 2 * aw) : exa::mul(a, b, 2 * aw);
        V t = exa::trunc(p, 2 * aw, aw);
        set(0, t);
        set(1, exa::bnot1(exa::eq(exa::sext(t, aw, 2 * aw), p, 2 * aw)));
        return true;
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or:
    case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: {
        V r = A(0, 0);
        int ww = W(0);
        for (int k = 1; k < N(0); k++) {
            V x = A(0, k);
            switch (in.intrin) {
            case Intrinsic::vector_reduce_add: r = exa::add(r, x, ww); break;
            case Intrinsic::vector_reduce_mul: r = exa::mul(r, x, ww); break;
            case Intrinsic::vector_reduce_and: r = exa::band(r, x, ww); break;
            case Intrinsic::vector_reduce_or: r = exa::bor(r, x, ww); break;
            case Intrinsic::vector_reduce_xor: r = exa::bxor(r, x, ww); break;
            case Intrinsic::vector_reduce_umax: r = exa::ite(exa::ult(r, x, ww), x, r, ww); break;
            default: r = exa::ite(exa::ult(r, x, ww), r, x, ww); break;
            }
        }
        set(0, r);
        return true;
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::ssa_copy: case Intrinsic::ptrmask:
        for (int k = 0; k < nd; k++) set(k, A(0, k));
        return true;
    case Intrinsic::objectsize: set(0, K(maskw(w))); return true;
    case Intrinsic::is_constant: set(0, K(0)); return true;
    case Intrinsic::eh_typeid_for: set(0, K(typeId((u64)A(0).c))); return true;
    case Intrinsic::stacksave: set(0, K(0)); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::ceil: if (nd != 1 || !A(0).isC()) return false; set(0, fromD(std::ceil(asD(A(0), w)), w)); return true;
    case Intrinsic::floor: if (nd != 1 || !A(0).isC()) return false; set(0, fromD(std::floor(asD(A(0), w)), w)); return true;
    case Intrinsic::fabs: if (nd != 1 || !A(0).isC()) return false; set(0, fromD(std::fabs(asD(A(0), w)), w)); return true;
    case Intrinsic::sqrt: if (nd != 1 || !A(0).isC()) return false; set(0, fromD(std::sqrt(asD(A(0), w)), w)); return true;
    case Intrinsic::log2: if (nd != 1 || !A(0).isC()) return false; set(0, fromD(std::log2(asD(A(0), w)), w)); return true;
    case Intrinsic::x86_sse41_ptestz: case Intrinsic::x86_avx_ptestz_256: case Intrinsic::x86_sse41_ptestc: case Intrinsic::x86_avx_ptestc_256: {
        bool c = in.intrin == Intrinsic::x86_sse41_ptestc || in.intrin == Intrinsic::x86_avx_ptestc_256;
        V all = K(1);
        for (int k = 0; k < N(0); k++) {
            V a = A(0, k);
            if (c) a = exa::bxor(a, K(maskw(64)), 64);
            // lane-wise: split so that each sub-word stays a simple term
            V v = exa::band(a, A(1, k), 64);
            for (int q = 0; q < 4; q++) all = exa::band(all, exa::eq(exa::extract(v, 64, 16 * q, 16), K(0), 16), 1);
        }
        set(0, exa::zext(all, 1, 32));
        return true;
    }
    case Intrinsic::x86_sse41_pblendvb: case Intrinsic::x86_avx2_pblendvb:
        for (int k = 0; k < nd; k++) set(k, exa::ite(exa::extract(A(2, k), 8, 7, 1), A(1, k), A(0, k), 8));
        return true;
    case Intrinsic::x86_sse2_pmovmskb_128: case Intrinsic::x86_avx2_pmovmskb: {
        V r = K(0);
        for (int k = 0; k < N(0); k++) r = exa::bor(r, exa::shl(exa::zext(exa::extract(A(0, k), 8, 7, 1), 1, 32), K(k), 32), 32);
        set(0, r);
        return true;
    }
    case Intrinsic::x86_ssse3_pshuf_b_128: case Intrinsic::x86_avx2_pshuf_b:
        for (int k = 0; k < nd; k++) {
            V ix = simp(s, A(1, k), 8);
            int lane = k & ~15;
            if (ix.isC()) { set(k, (ix.c & 128) ? K(0) : A(0, lane + (int)(ix.c & 15))); continue; }
            V lo = exa::extract(ix, 8, 0, 4), r = A(0, lane);
            for (int q = 1; q < 16; q++) r = exa::ite(exa::eq(lo, K(q), 4), A(0, lane + q), r, 8);
            set(k, exa::ite(exa::extract(ix, 8, 7, 1), K(0), r, 8));
        }
        return true;
    case Intrinsic::x86_sse2_packuswb_128: case Intrinsic::x86_avx2_packuswb: case Intrinsic::x86_sse41_packusdw: case Intrinsic::x86_avx2_packusdw: {
        int sw = W(0), dw = sw / 2, per = 128 / sw; // source lanes per 128 bits
        int groups = N(0) / per, o = 0;
        for (int g = 0; g < groups; g++)
            for (int a = 0; a < 2; a++)
                for (int k = 0; k < per; k++) {
                    V x = A(a, g * per + k);
                    V neg = exa::slt(x, K(0), sw), big = exa::slt(K(maskw(dw)), x, sw);
                    set(o++, exa::ite(neg, K(0), exa::ite(big, K(maskw(dw)), exa::trunc(x, sw, dw), dw), dw));
                }
        return true;
    }
    case Intrinsic::x86_sse2_pmulhu_w: case Intrinsic::x86_avx2_pmulhu_w:
        for (int k = 0; k < nd; k++) set(k, exa::trunc(exa::lshr(exa::mul(exa::zext(A(0, k), 16, 32), exa::zext(A(1, k), 16, 32), 32), K(16), 32), 32, 16));
        return true;
    default: return false;
    }
}

static std::string symKey(State& s, const std::string& n) { return n + "#" + std::to_string(s.names[n]); }

// proves an assertion; throws Ended if the path cannot continue
static void proveAssert(State& s, V c, const std::string& msg, const char* kind = "assert") {
    S.asserts++;
    c = simp(s, c, 1);
    if (c.isC()) {
        if (c.c) { S.assertsTrivial++; return; }
        if (s.maybeInfeasible && feasible(s, K(1), nullptr, opt.assertTimeout) == R_UNSAT) throw Ended();
        violation(s, kind, msg);
        throw Ended();
    }
    V nc = exa::bnot1(c);
    Model m;
    Res r = feasible(s, nc, &m, opt.assertTimeout);
    if (r == R_UNSAT) return;
    if (r == R_SAT) violation(s, kind, msg, nc, &m);
    else {
        S.assertsUnknown++;
        if (getenv("SX_DUMP")) fprintf(stderr, "UNKNOWN: %s\n", ex::str(nc, 14).c_str());
        unsupported(s, "assertion undecided: " + msg);
    }
    if (!addConstraint(s, c) || feasible(s, c) == R_UNSAT) throw Ended();
}

enum CallRes { C_NEXT, C_JUMPED, C_ENDED, C_FORK };

static CallRes builtinCall(State& s, Frame* f, Inst& in, int bi, const std::string& name, std::vector<State*>& kids) {
    auto A = [&](int i, int k = 0) -> V {
        int r = in.xs[i];
        return r >= 0 ? f->r[r + k] : f->f->pool[-(r - k) - 1];
    };
    auto W = [&](int i) { return (int)in.ys[2 * i + 1]; };
    auto C = [&](int i) { return concretize(s, A(i), W(i)); };
    auto ret = [&](V v) { if (in.dst >= 0) f->r[in.dst] = v; };
    auto unwindTo = [&](u64 o, u64 ti) { return unwind(s, o, ti) ? C_JUMPED : C_ENDED; };
    auto alloc = [&](u64 n, u64 al) -> V {
        if (n > (1ULL << 32)) { unsupported(s, "very large allocation"); throw Ended(); }
        s.allocSeq++;
        return K(allocObj(s, 'h', n, "", al));
    };
    switch (bi) {
    case B_NEW: ret(alloc(C(0), 16)); return C_NEXT;
    case B_ALIGNED + 1000: { u64 n = C(0), al = C(1); ret(alloc(n, al)); return C_NEXT; }
    case B_ALIGNED: { u64 al = C(0), n = C(1); ret(alloc(n, al)); return C_NEXT; }
    case B_MALLOC: ret(alloc(C(0), 16)); return C_NEXT;
    case B_CALLOC: {
        u64 n = C(0) * C(1);
        V p = alloc(n, 16);
        setMem(s, (u64)p.c, K(0), n);
        ret(p);
        return C_NEXT;
    }
    case B_POSIXMEMALIGN: {
        u64 pp = C(0), al = C(1), n = C(2);
        V p = alloc(n, al);
        storeAt(s, pp, 8, p, 64);
        ret(K(0));
        return C_NEXT;
    }
    case B_DELETE: doFree(s, C(0)); return C_NEXT;
    case B_MEMCPY: {
        u64 d = C(0), sr = C(1), n = C(2);
        copyMem(s, d, sr, n);
        ret(K(d));
        return C_NEXT;
    }
    case B_MEMSET: {
        u64 d = C(0), n = C(2);
        setMem(s, d, exa::trunc(A(1), W(1), 8), n);
        ret(K(d));
        return C_NEXT;
    }
    case B_MEMCMP: {
        u64 a = C(0), b = C(1), n = C(2);
        V r = K(0);
        for (u64 i = n; i-- > 0;) {
            V x = loadAt(s, a + i, 1, 8), y = loadAt(s, b + i, 1, 8);
            if (x == y) continue;
            r = exa::ite(exa::eq(x, y, 8), r, exa::ite(exa::ult(x, y, 8), K(0xffffffffu), K(1), 32), 32);
        }
        ret(r);
        return C_NEXT;
    }
    case B_MEMCHR: {
        u64 a = C(0), c = C(1) & 255, n = C(2), r = 0;
        for (u64 i = 0; i < n; i++) {
            u64 x = concretize(s, loadAt(s, a + i, 1, 8), 8);
            if (x == c) { r = a + i; break; }
        }
        ret(K(r));
        return C_NEXT;
    }
    case B_STRLEN: {
        u64 a = C(0), n = 0;
        while (concretize(s, loadAt(s, a + n, 1, 8), 8)) n++;
        ret(K(n));
        return C_NEXT;
    }
    case B_NOP: return C_NEXT;
    case B_RET0: ret(K(0)); return C_NEXT;
    case B_RETARG0: ret(A(0)); return C_NEXT;
    case B_ABORT: violation(s, "abort", name); return C_ENDED;
    case B_ASSERTFAIL: {
        std::string m = cstr(s, C(0));
        if (s.maybeInfeasible && feasible(s, K(1), nullptr, opt.assertTimeout) == R_UNSAT) return C_ENDED;
        violation(s, "assertion", "assert(" + m + ")");
        return C_ENDED;
    }
    case B_ALLOCEXC: { V p = alloc(C(0), 16); s.heap.v.back().o.o->name = "exception"; ret(p); return C_NEXT; }
    case B_FREEEXC: return C_NEXT;
    case B_THROW: return unwindTo(C(0), C(1));
    case B_BEGINCATCH: {
        u64 o = C(0);
        s.excs.push_back({o, s.inflightTI});
        ret(K(o));
        return C_NEXT;
    }
    case B_ENDCATCH: if (!s.excs.empty()) s.excs.pop_back(); return C_NEXT;
    case B_RETHROW: {
        if (s.excs.empty()) { violation(s, "abort", "rethrow without exception"); return C_ENDED; }
        auto e = s.excs.back();
        return unwindTo(e.first, e.second);
    }
    case B_SYM: {
        std::string n = cstr(s, C(0));
        u64 lo = C(1), hi = C(2);
        if (lo > hi) { unsupported(s, "empty symbol range " + n); return C_ENDED; }
        std::string key = symKey(s, n);
        s.names[n]++;
        V v = lo == hi ? K(lo) : ex::sym(key + "[" + std::to_string(lo) + "," + std::to_string(hi) + "]", 64, lo, hi);
        s.inputs.push_back({key, v});
        ret(v);
        return C_NEXT;
    }
    case B_CHOICE: {
        std::string n = cstr(s, C(0));
        u64 lo = C(1), hi = C(2);
        if (lo > hi) { unsupported(s, "empty choice " + n); return C_ENDED; }
        std::string key = symKey(s, n);
        s.names[n]++;
        for (u64 x = lo; x <= hi; x++) {
            State* k = x == hi ? &s : cloneState(s);
            k->inputs.push_back({key, K(x)});
            Frame& fr = top(*k);
            if (in.dst >= 0) fr.r[in.dst] = K(x);
            if (in.bb1 >= 0) transfer(*k, in.bb1);
            else fr.pc++;
            kids.push_back(k);
        }
        return C_FORK;
    }
    case B_ASSUME: {
        V c = exa::bnot1(exa::eq(A(0), K(0), W(0)));
        c = simp(s, c, 1);
        if (!addConstraint(s, c)) { S.pathsAssume++; return C_ENDED; }
        if (!c.isC()) {
            Res r = feasible(s, c);
            if (r == R_UNSAT) { S.pathsAssume++; return C_ENDED; }
            if (r == R_UNKNOWN) s.maybeInfeasible = true;
        }
        return C_NEXT;
    }
    case B_ASSERT: {
        std::string m = cstr(s, C(1));
        proveAssert(s, exa::bnot1(exa::eq(A(0), K(0), W(0))), m);
        return C_NEXT;
    }
    case B_ASSERTEQ: {
        std::string m = cstr(s, C(2));
        proveAssert(s, exa::eq(A(0), A(1), W(0)), m);
        return C_NEXT;
    }
    case B_REACH: {
        std::string n = cstr(s, C(0));
        if (std::find(s.labels.begin(), s.labels.end(), n) == s.labels.end()) s.labels.push_back(n);
        return C_NEXT;
    }
    case B_OUT: {
        std::string n = "o:" + cstr(s, C(0));
        std::string key = symKey(s, n);
        s.names[n]++;
        s.outs.push_back({key, simp(s, A(1), 64)});
        return C_NEXT;
    }
    case B_PARAM: {
        std::string n = cstr(s, C(0));
        auto it = opt.params.find(n);
        ret(it == opt.params.end() ? A(1) : K((u64)it->second));
        return C_NEXT;
    }
    case B_DYNCAST: {
        u64 p = C(0), dst = C(2);
        if (!p) { ret(K(0)); return C_NEXT; }
        u64 vt = (u64)loadAt(s, p, 8, 64).c;
        u64 ti = (u64)loadAt(s, vt - 8, 8, 64).c;
        ret(K(tiMatch(ti, dst) ? p : 0));
        return C_NEXT;
    }
    case B_GUARDACQ: {
        u64 g = C(0);
        V b = loadAt(s, g, 1, 8);
        if (b.isC() && b.c) { ret(K(0)); return C_NEXT; }
        storeAt(s, g, 1, K(1), 8);
        ret(K(1));
        return C_NEXT;
    }
    case B_EXIT: pathDone(s, "exit"); return C_ENDED;
    case B_ISSYM: ret(K(A(0).isC() ? 0 : 1)); return C_NEXT;
    case B_STDEXC_WHAT: {
        u64 a = allocObj(s, 'g', 16, "what");
        setMem(s, a, K(0), 16);
        ret(K(a));
        return C_NEXT;
    }
    case B_FAIL: {
        std::string m = cstr(s, C(0));
        proveAssert(s, K(0), m);
        return C_ENDED;
    }
    case B_PRINT: {
        V v = simp(s, A(1), 64);
        fprintf(stderr, "[sx_print] %s = %s\n", cstr(s, C(0)).c_str(), v.isC() ? u128s(v.c).c_str() : ex::str(v).c_str());
        return C_NEXT;
    }
    case B_LIVEHEAP: {
        u64 n = 0;
        for (auto& e : s.heap.v)
            if (e.o.o && e.o.o->name != "exception") n++;
        ret(K(n));
        return C_NEXT;
    }
    case B_POISON: setMem(s, C(0), K(FILL), C(1)); return C_NEXT;
    default: break;
    }
    unsupported(s, "builtin " + name);
    return C_ENDED;
}

static StepRes runState(State& s, Target t, std::vector<State*>& kids) {
    if ((int)s.st.size() < t.depth || s.st.empty()) return SR_ARRIVED;
    Frame* f = &top(s);
    auto arrived = [&]() -> bool {
        int d = (int)s.st.size();
        if (d < t.depth || d == 0) return true;
        if (d == t.depth && t.bb >= 0) {
            Frame& fr = *s.st.back().p;
            if (fr.bb == t.bb && fr.pc == fr.f->blocks[t.bb].start) return true;
        }
        return false;
    };
    if (arrived()) return SR_ARRIVED;
    auto op = [&](int i, int k = 0) -> const V& { return i >= 0 ? f->r[i + k] : f->f->pool[-(i - k) - 1]; };
    try {
        while (true) {
            Inst& in = f->f->code[f->pc];
            in.executed = true;
            if ((++S.instrs & 0x3fff) == 0 && elapsed() > opt.timeLimit) {
                if (!timeUp) fprintf(stderr, "[sx] time limit at %s\n", where(s).c_str());
                timeUp = true;
                S.timeout = true;
                return SR_ENDED;
            }
            if (timeUp) return SR_ENDED;
            switch (in.k) {
            case I_NOP: f->pc++; break;
            case I_ALLOCA: {
                u64 n = concretize(s, op(in.a), 64);
                u64 a = allocObj(s, 's', n * in.ys[0], "", in.ys[1]);
                f->allocas.push_back(a);
                f->r[in.dst] = K(a);
                f->pc++;
                break;
            }
            case I_LOAD: {
                V p = op(in.a);
                if (in.el.size() == 1 && in.el[0].bytes) f->r[in.dst] = loadV(s, p, in.el[0].bytes, in.el[0].w);
                else {
                    if (!p.isC()) p = K(concretize(s, p, 64));
                    for (size_t k = 0; k < in.el.size(); k++) {
                        if (in.el[k].off < 0) { unsupported(s, "load of a bit vector"); return SR_ENDED; }
                        f->r[in.dst + k] = simp(s, loadAt(s, (u64)p.c + in.el[k].off, in.el[k].bytes, in.el[k].w), in.el[k].w, true);
                    }
                }
                f->pc++;
                break;
            }
            case I_STORE: {
                u64 p = concretize(s, op(in.b), 64);
                for (size_t k = 0; k < in.el.size(); k++) {
                    if (in.el[k].off < 0) { unsupported(s, "store of a bit vector"); return SR_ENDED; }
                    storeAt(s, p + in.el[k].off, in.el[k].bytes, op(in.a, k), in.el[k].w);
                }
                f->pc++;
                break;
            }
            case I_GEP: {
                V p = op(in.a);
                i64 off = in.ys.back();
                for (size_t k = 0; k < in.xs.size(); k++) {
                    V ix = op(in.xs[k]);
                    i64 sz = in.ys[2 * k];
                    int w = (int)in.ys[2 * k + 1];
                    if (ix.isC()) off += (i64)sxt(ix.c, w) * sz;
                    else {
                        V e = w < 64 ? exa::sext(ix, w, 64) : ix;
                        p = exa::add(p, exa::mul(e, K((u64)sz), 64), 64);
                    }
                }
                f->r[in.dst] = p.isC() ? K((u64)((u64)p.c + (u64)off)) : exa::add(p, K((u64)off), 64);
                f->pc++;
                break;
            }
            case I_BIN:
                for (int k = 0; k < in.nd; k++) {
                    V a = op(in.a, k), b = op(in.b, k);
                    if (!s.allowed.empty() && in.op != Instruction::And && in.op != Instruction::Or && in.op != Instruction::Xor && in.op != Instruction::Shl && in.op != Instruction::LShr) {
                        if (a.n) a = simp(s, a, in.w);
                        if (b.n) b = simp(s, b, in.w);
                    }
                    V r = binV(s, in.op, a, b, in.w);
                    f->r[in.dst + k] = r.n ? simp(s, r, in.w, true) : r;
                }
                f->pc++;
                break;
            case I_ICMP:
                for (int k = 0; k < in.nd; k++) {
                    V a = op(in.a, k), b = op(in.b, k);
                    if (!s.allowed.empty()) {
                        if (a.n) a = simp(s, a, in.w);
                        if (b.n) b = simp(s, b, in.w);
                    }
                    V r = icmpV(in.op, a, b, in.w);
                    f->r[in.dst + k] = r.n ? simp(s, r, 1) : r;
                }
                f->pc++;
                break;
            case I_SELECT: {
                bool ptr = in.I->getType()->isPointerTy() || in.I->getType()->isStructTy();
                for (int k = 0; k < in.nd; k++) {
                    V c = simp(s, op(in.a, in.op ? k : 0), 1);
                    V x = op(in.b, k), y = op(in.c, k);
                    if (c.isC()) { f->r[in.dst + k] = c.c ? x : y; continue; }
                    if (x == y) { f->r[in.dst + k] = x; continue; }
                    if (ptr) throw NeedFork{c, 1};
                    f->r[in.dst + k] = simp(s, exa::ite(c, x, y, in.el[k].w), in.el[k].w, true);
                }
                f->pc++;
                break;
            }
            case I_CAST:
                for (int k = 0; k < in.nd; k++) {
                    const V& a = op(in.a, k);
                    V r;
                    if (in.op == Instruction::Trunc) r = exa::trunc(a, in.w2, in.w);
                    else if (in.op == Instruction::ZExt) r = exa::zext(a, in.w2, in.w);
                    else if (in.op == Instruction::SExt) r = exa::sext(a, in.w2, in.w);
                    else r = in.w < in.w2 ? exa::trunc(a, in.w2, in.w) : in.w > in.w2 ? exa::zext(a, in.w2, in.w) : a;
                    f->r[in.dst + k] = r.n ? simp(s, r, in.w, true) : r;
                }
                f->pc++;
                break;
            case I_BITCAST: {
                int sw = in.w2, dw = in.w;
                if (sw == dw || in.op == in.nd) {
                    for (int k = 0; k < in.nd; k++) f->r[in.dst + k] = op(in.a, k);
                } else if (sw > dw) {
                    int q = sw / dw;
                    for (int k = in.nd - 1; k >= 0; k--) {
                        V r = exa::extract(op(in.a, k / q), sw, (k % q) * dw, dw);
                        f->r[in.dst + k] = r;
                    }
                } else {
                    int q = dw / sw;
                    if (dw > 128) { unsupported(s, "wide bitcast"); return SR_ENDED; }
                    for (int k = 0; k < in.nd; k++) {
                        V r = op(in.a, k * q);
                        for (int j = 1; j < q; j++) r = exa::concat(op(in.a, k * q + j), sw, r, sw * j);
                        f->r[in.dst + k] = r;
                    }
                }
                f->pc++;
                break;
            }
            case I_COPY:
                for (int k = 0; k < in.nd; k++) f->r[in.dst + k] = op(in.a, k);
                f->pc++;
                break;
            case I_SHUF: {
                std::vector<V> tmp(in.nd);
                for (int k = 0; k < in.nd; k++) {
                    int m = in.xs[k];
                    tmp[k] = m < 0 ? K(0) : m < in.op ? op(in.a, m) : op(in.b, m - in.op);
                }
                for (int k = 0; k < in.nd; k++) f->r[in.dst + k] = tmp[k];
                f->pc++;
                break;
            }
            case I_EXTELT: {
                u64 i = concretize(s, op(in.b), 64);
                f->r[in.dst] = i < (u64)in.op ? op(in.a, (int)i) : K(0);
                f->pc++;
                break;
            }
            case I_INSELT: {
                u64 i = in.xs[0] >= 0 ? (u64)in.xs[0] : concretize(s, op(in.c), 64);
                for (int k = 0; k < in.nd; k++) f->r[in.dst + k] = op(in.a, k);
                for (int k = 0; k < in.xs[1] && (int)i + k < in.nd; k++) f->r[in.dst + (int)i + k] = op(in.b, k);
                f->pc++;
                break;
            }
            case I_BR:
                transfer(s, in.bb1);
                if (arrived()) return SR_ARRIVED;
                break;
            case I_CONDBR: {
                V c = simp(s, op(in.a), 1);
                if (c.isC()) {
                    transfer(s, c.c ? in.bb1 : in.bb2);
                    if (arrived()) return SR_ARRIVED;
                    break;
                }
                kids = forkBranch(&s, c, in.bb1, in.bb2);
                return SR_FORK;
            }
            case I_SWITCH: {
                V c = simp(s, op(in.a), in.w);
                if (!c.isC()) {
                    // few targets: fork on the case values
                    V def = K(1);
                    for (size_t k = 0; k < in.ys.size(); k++) {
                        V e = simp(s, exa::eq(c, K((u64)in.ys[k]), in.w), 1);
                        if (e.isC() && !e.c) continue;
                        def = exa::band(def, exa::bnot1(e), 1);
                    }
                    State* cur = &s;
                    bool any = false;
                    for (size_t k = 0; k < in.ys.size(); k++) {
                        V e = simp(s, exa::eq(c, K((u64)in.ys[k]), in.w), 1);
                        if (e.isC() && !e.c) continue;
                        Res r = feasible(s, e);
                        if (r == R_UNSAT) continue;
                        State* n = cloneState(s);
                        if (!addConstraint(*n, e)) { delete n; continue; }
                        if (r == R_UNKNOWN) n->maybeInfeasible = true;
                        S.forks++;
                        transfer(*n, in.xs[k]);
                        kids.push_back(n);
                        any = true;
                    }
                    (void)any;
                    def = simp(s, def, 1);
                    Res r = def.isC() ? (def.c ? R_SAT : R_UNSAT) : feasible(s, def);
                    if (r != R_UNSAT && addConstraint(*cur, def)) {
                        if (r == R_UNKNOWN) cur->maybeInfeasible = true;
                        transfer(*cur, in.bb1);
                        kids.push_back(cur);
                    } else
                        delete cur;
                    return SR_FORK;
                }
                int to = in.bb1;
                for (size_t k = 0; k < in.ys.size(); k++)
                    if ((u64)in.ys[k] == (u64)c.c) { to = in.xs[k]; break; }
                transfer(s, to);
                if (arrived()) return SR_ARRIVED;
                break;
            }
            case I_RET: {
                std::vector<V> rv(in.nd);
                for (int k = 0; k < in.nd; k++) rv[k] = op(in.a, k);
                popFrame(s);
                if (s.st.empty()) return SR_ARRIVED;
                f = &top(s);
                Inst& ci = f->f->code[f->pc];
                if (ci.dst >= 0)
                    for (int k = 0; k < in.nd && k < ci.nd; k++) f->r[ci.dst + k] = rv[k];
                if (ci.bb1 >= 0) transfer(s, ci.bb1);
                else f->pc++;
                if (arrived()) return SR_ARRIVED;
                break;
            }
            case I_UNREACH:
                if (s.maybeInfeasible && feasible(s, K(1), nullptr, opt.assertTimeout) == R_UNSAT) return SR_ENDED;
                violation(s, "unreachable", "undefined behaviour: unreachable code reached");
                return SR_ENDED;
            case I_RESUME: {
                u64 o = concretize(s, op(in.a), 64);
                u64 ti = s.inflightTI;
                if (!unwind(s, o, ti)) return SR_ENDED;
                f = &top(s);
                if (arrived()) return SR_ARRIVED;
                break;
            }
            case I_LANDING: f->pc++; break;
            case I_FP: {
                V a = op(in.a), b = op(in.b);
                bool two = in.I->getNumOperands() > 1;
                if (!a.isC()) throw NeedFork{a, in.w2};
                if (two && !b.isC()) throw NeedFork{b, in.w2};
                V r;
                switch (in.op) {
                case Instruction::FAdd: r = fromD(asD(a, in.w) + asD(b, in.w), in.w); break;
                case Instruction::FSub: r = fromD(asD(a, in.w) - asD(b, in.w), in.w); break;
                case Instruction::FMul: r = fromD(asD(a, in.w) * asD(b, in.w), in.w); break;
                case Instruction::FDiv: r = fromD(asD(a, in.w) / asD(b, in.w), in.w); break;
                case Instruction::FRem: r = fromD(std::fmod(asD(a, in.w), asD(b, in.w)), in.w); break;
                case Instruction::FNeg: r = fromD(-asD(a, in.w), in.w); break;
                case Instruction::FPExt: case Instruction::FPTrunc: r = fromD(asD(a, in.w2), in.w); break;
                case Instruction::SIToFP: r = fromD((double)(i64)sxt(a.c, in.w2), in.w); break;
                case Instruction::UIToFP: r = fromD((double)(u64)a.c, in.w); break;
                case Instruction::FPToSI: r = K((u128)(i128)(i64)asD(a, in.w2) & maskw(in.w)); break;
                case Instruction::FPToUI: { double d = asD(a, in.w2); r = K((u128)(d < 0 ? (u64)(i64)d : (u64)d) & maskw(in.w)); break; }
                default: {
                    double x = asD(a, in.w2), y = asD(b, in.w2);
                    bool un = std::isnan(x) || std::isnan(y), q = false;
                    int p = cast<FCmpInst>(in.I)->getPredicate();
                    if (un) q = (p & 8) != 0;
                    else q = (x == y && (p & 1)) || (x > y && (p & 2)) || (x < y && (p & 4));
                    r = K(q);
                }
                }
                f->r[in.dst] = r;
                f->pc++;
                break;
            }
            case I_ATOMIC: {
                u64 p = concretize(s, op(in.a), 64);
                int by = (in.w + 7) / 8;
                V old = loadAt(s, p, by, in.w), x = op(in.b), nv;
                switch (in.op) {
                case AtomicRMWInst::Add: nv = exa::add(old, x, in.w); break;
                case AtomicRMWInst::Sub: nv = exa::sub(old, x, in.w); break;
                case AtomicRMWInst::Xchg: nv = x; break;
                case AtomicRMWInst::Or: nv = exa::bor(old, x, in.w); break;
                case AtomicRMWInst::And: nv = exa::band(old, x, in.w); break;
                case AtomicRMWInst::Xor: nv = exa::bxor(old, x, in.w); break;
                default: unsupported(s, "atomic"); return SR_ENDED;
                }
                storeAt(s, p, by, nv, in.w);
                f->r[in.dst] = old;
                f->pc++;
                break;
            }
            case I_CMPXCHG: {
                u64 p = concretize(s, op(in.a), 64);
                int w = in.I->getOperand(1)->getType()->isPointerTy() ? 64 : in.I->getOperand(1)->getType()->getIntegerBitWidth();
                V old = loadAt(s, p, w / 8, w);
                u64 e = concretize(s, exa::eq(old, op(in.b), w), 1);
                if (e) storeAt(s, p, w / 8, op(in.c), w);
                f->r[in.dst] = old;
                f->r[in.dst + 1] = K(e);
                f->pc++;
                break;
            }
            case I_CALL: {
                if (in.intrin) {
                    if (in.intrin == Intrinsic::trap || in.intrin == Intrinsic::ubsantrap) { violation(s, "trap", "trap"); return SR_ENDED; }
                    if (!intrinsic(s, f, in)) {
                        unsupported(s, "intrinsic " + Intrinsic::getBaseName((Intrinsic::ID)in.intrin).str());
                        return SR_ENDED;
                    }
                    if (in.dst >= 0)
                        for (int k = 0; k < in.nd; k++)
                            if (in.w && f->r[in.dst + k].n) f->r[in.dst + k] = simp(s, f->r[in.dst + k], in.w, true);
                    if (in.bb1 >= 0) { transfer(s, in.bb1); if (arrived()) return SR_ARRIVED; }
                    else f->pc++;
                    break;
                }
                Func* g = in.callee;
                if (!g) {
                    u64 a = concretize(s, op(in.a), 64);
                    auto it = funcByAddr.find(a);
                    if (it == funcByAddr.end()) throw MemErr{"call through an invalid function pointer"};
                    g = it->second;
                }
                if (g->builtin != B_NONE && (g->F->isDeclaration() || g->builtin != B_NONE)) {
                    size_t depth = s.st.size();
                    CallRes r = builtinCall(s, f, in, g->builtin, g->name, kids);
                    if (r == C_ENDED) return SR_ENDED;
                    if (r == C_FORK) return SR_FORK;
                    if (r == C_NEXT) {
                        if (in.bb1 >= 0) { transfer(s, in.bb1); if (arrived()) return SR_ARRIVED; }
                        else f->pc++;
                    } else {
                        f = &top(s);
                        if (arrived()) return SR_ARRIVED;
                    }
                    (void)depth;
                    break;
                }
                if (g->F->isDeclaration()) {
                    unsupported(s, "call to external function " + g->name);
                    return SR_ENDED;
                }
                if (s.st.size() > 3000) { violation(s, "recursion", "recursion deeper than 3000 frames"); return SR_ENDED; }
                auto* CB = cast<CallBase>(in.I);
                std::vector<V> args;
                std::vector<u64> byv;
                for (size_t i = 0; i < in.xs.size(); i++) {
                    int n = (int)in.ys[2 * i];
                    if (n == 1 && CB->isByValArgument(i)) {
                        u64 sz = DL->getTypeAllocSize(CB->getParamByValType(i));
                        u64 src = concretize(s, op(in.xs[i]), 64);
                        u64 a = allocObj(s, 's', sz, "byval", 16);
                        byv.push_back(a);
                        copyMem(s, a, src, sz);
                        args.push_back(K(a));
                        continue;
                    }
                    for (int k = 0; k < n; k++) args.push_back(op(in.xs[i], k));
                }
                pushFrame(s, g, args);
                f = &top(s);
                for (u64 a : byv) f->allocas.push_back(a);
                break;
            }
            default: {
                std::string str;
                raw_string_ostream os(str);
                in.I->print(os);
                unsupported(s, "instruction " + str.substr(0, 120));
                return SR_ENDED;
            }
            }
        }
    } catch (MemErr& e) {
        if (s.maybeInfeasible && feasible(s, K(1), nullptr, opt.assertTimeout) == R_UNSAT) return SR_ENDED;
        violation(s, "memory", e.msg);
        return SR_ENDED;
    } catch (NeedFork& nf) {
        kids = forkValues(&s, nf.v, nf.w);
        return SR_FORK;
    } catch (Ended&) {
        S.pathsAssume++;
        return SR_ENDED;
    }
}
