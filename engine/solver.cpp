#include "solver.h"
#include <chrono>
#include <functional>
#include <set>
#include <z3++.h>

SolverStats sstats;
using namespace ex;

struct Piece { i64 a, b; i128 m, c; };
static std::unordered_map<Shape*, std::vector<Piece>> pieceCache;
static const size_t MAXP = 48;
static const std::vector<Piece>& pieces(Shape* s) { // empty: too many
    auto it = pieceCache.find(s);
    if (it != pieceCache.end()) return it->second;
    std::vector<Piece> r;
    size_t N = s->v.size(), i = 0;
    while (i < N) {
        Piece p;
        p.a = s->lo + (i64)i;
        size_t j = i;
        if (i + 1 < N) {
            i128 d = (i128)s->v[i + 1] - (i128)s->v[i];
            j = i + 1;
            while (j + 1 < N && (i128)s->v[j + 1] - (i128)s->v[j] == d) j++;
            if (j == i + 1 && d != 0) { // two-point run: prefer a single point
                if (!(i + 2 >= N)) j = i;
            }
            p.m = j == i ? 0 : d;
        } else
            p.m = 0;
        p.c = (i128)s->v[i] - p.m * p.a;
        p.b = s->lo + (i64)j;
        r.push_back(p);
        if (r.size() > MAXP) { r.clear(); break; }
        i = j + 1;
    }
    return pieceCache[s] = r;
}

struct Enc {
    z3::context& c;
    z3::solver& s;
    bool intMode;
    bool failed = false;
    std::unordered_map<Node*, z3::expr> memo;
    std::map<Node*, z3::expr> symv;
    Enc(z3::context& c_, z3::solver& s_, bool im) : c(c_), s(s_), intMode(im) {}

    std::string dec(i128 v) {
        if (v < 0) return "-" + decu(-(u128)v);
        std::string r;
        u128 u = (u128)v;
        if (!u) return "0";
        while (u) { r.insert(r.begin(), '0' + (int)(u % 10)); u /= 10; }
        return r;
    }
    std::string decu(u128 u) {
        std::string r;
        if (!u) return "0";
        while (u) { r.insert(r.begin(), '0' + (int)(u % 10)); u /= 10; }
        return r;
    }
    z3::expr ic(i128 v) { return c.int_val(dec(v).c_str()); }
    z3::expr iu(u128 v) { return c.int_val(decu(v).c_str()); }
    z3::expr pow2(int w) { return w >= 128 ? c.int_val("340282366920938463463374607431768211456") : iu((u128)1 << w); }
    z3::expr bc(u128 v, int w) { return c.bv_val(decu(v & maskw(w)).c_str(), w); }

    // ------------------------------------------------ integers
    z3::expr I(V v) {
        if (!v.n) return iu(v.c);
        auto it = memo.find(v.n);
        if (it != memo.end()) return it->second;
        z3::expr r = Inode(v.n);
        memo.emplace(v.n, r);
        return r;
    }
    z3::expr Iform(Form* f) {
        z3::expr_vector ts(c);
        for (auto& x : f->t) ts.push_back(x.second == 1 ? I(V(x.first)) : ic(x.second) * I(V(x.first)));
        return ts.size() == 1 ? ts[0] : z3::sum(ts);
    }
    z3::expr Inode(Node* n) {
        switch (n->k) {
        case KSym: {
            z3::expr x = c.int_const(n->name.c_str());
            s.add(x >= iu(n->lo));
            s.add(x <= iu(n->hi));
            symv.emplace(n, x);
            return x;
        }
        case KLin: {
            z3::expr e = Iform(n->f);
            if (n->m != 1) e = ic(n->m) * e;
            if (n->c0) e = e + ic(n->c0);
            if (!n->exact) {
                if (n->w > 100) { failed = true; return e; }
                e = z3::mod(e, pow2(n->w));
            }
            return e;
        }
        case KMod: {
            z3::expr_vector ts(c);
            for (auto& x : n->mt) ts.push_back(ic(x.second) * I(V(x.first)));
            z3::expr e = ts.size() == 1 ? ts[0] : z3::sum(ts);
            z3::expr r = c.int_const(("m!" + std::to_string(n->id)).c_str()), q = c.int_const(("q!" + std::to_string(n->id)).c_str());
            s.add(r >= 0);
            s.add(r <= ic((i128)n->p - 1));
            s.add(e + ic(n->c0) == ic((i128)n->p) * q + r);
            return r;
        }
        case KUn: {
            const auto& ps = pieces(n->s);
            if (ps.empty()) { failed = true; return ic(0); }
            z3::expr t = Iform(n->f);
            z3::expr r = val(ps.back(), t);
            for (int i = (int)ps.size() - 2; i >= 0; i--) r = z3::ite(t <= ic(ps[i].b), val(ps[i], t), r);
            return r;
        }
        case KXLin: {
            // disjoint placement of whole atoms
            u128 used = n->xc;
            z3::expr e = iu(n->xc);
            for (auto& x : n->xt) {
                int off = 0;
                if (!x.col[0]) { failed = true; return e; }
                while (!((x.col[0] >> off) & 1)) off++;
                for (size_t j = 0; j < x.col.size(); j++) {
                    if (off + j > 120 || x.col[j] != (u128(1) << (off + j)) || (used & x.col[j])) { failed = true; return e; }
                    used |= x.col[j];
                }
                e = e + pow2(off) * I(V(x.a));
            }
            return e;
        }
        case KOp:
            if (n->op == O_ITE) return z3::ite(IB(n->args[0]), I(n->args[1]), I(n->args[2]));
            if (n->w == 1) return z3::ite(IB(V(n)), ic(1), ic(0));
            if (n->op == O_MUL && n->args[0].n && n->args[1].n && n->hi == n->args[0].n->hi * n->args[1].n->hi && n->hi <= maskw(n->w) &&
                (n->args[0].n->hi >> 60) == 0 && (n->args[1].n->hi >> 60) == 0)
                return I(n->args[0]) * I(n->args[1]);
            failed = true;
            return ic(0);
        }
        failed = true;
        return ic(0);
    }
    z3::expr val(const Piece& p, z3::expr t) {
        if (p.m == 0) return ic(p.c);
        z3::expr e = p.m == 1 ? t : ic(p.m) * t;
        return p.c ? e + ic(p.c) : e;
    }
    z3::expr IB(V v) { // 1-bit value as Bool
        if (!v.n) return c.bool_val(v.c != 0);
        Node* n = v.n;
        if (n->k == KUn) {
            // union of intervals
            Shape* sh = n->s;
            std::vector<std::pair<i64, i64>> iv;
            size_t N = sh->v.size();
            bool many = false;
            auto collect = [&](u64 want) {
                iv.clear();
                many = false;
                for (size_t i = 0; i < N && !many;) {
                    if (sh->v[i] != want) { i++; continue; }
                    size_t j = i;
                    while (j + 1 < N && sh->v[j + 1] == want) j++;
                    iv.push_back({sh->lo + (i64)i, sh->lo + (i64)j});
                    if (iv.size() > MAXP) many = true;
                    i = j + 1;
                }
            };
            collect(1);
            if (many) { failed = true; return c.bool_val(false); }
            z3::expr t = Iform(n->f);
            z3::expr_vector ors(c);
            for (auto& p : iv) {
                if (p.first == p.second) ors.push_back(t == ic(p.first));
                else ors.push_back(t >= ic(p.first) && t <= ic(p.second));
            }
            return z3::mk_or(ors);
        }
        if (n->k == KXLin) {
            z3::expr r = c.bool_val(n->xc & 1);
            bool first = true;
            for (auto& x : n->xt) {
                if (x.a->w != 1) { failed = true; return r; }
                z3::expr b = IB(V(x.a));
                r = first && !(n->xc & 1) ? b : (r != b);
                first = false;
            }
            return r;
        }
        if (n->k == KOp) switch (n->op) {
            case O_AND: return IB(n->args[0]) && IB(n->args[1]);
            case O_OR: return IB(n->args[0]) || IB(n->args[1]);
            case O_EQ: return I(n->args[0]) == I(n->args[1]);
            case O_ULT: return I(n->args[0]) < I(n->args[1]);
            case O_ITE: return z3::ite(IB(n->args[0]), IB(n->args[1]), IB(n->args[2]));
            default: failed = true; return c.bool_val(false);
            }
        return I(v) == 1;
    }

    // ------------------------------------------------ bit-vectors
    z3::expr fit(z3::expr e, int from, int to) {
        if (from == to) return e;
        if (from < to) return z3::zext(e, to - from);
        return e.extract(to - 1, 0);
    }
    z3::expr B(V v, int w) {
        if (!v.n) return bc(v.c, w);
        auto it = memo.find(v.n);
        if (it != memo.end()) return fit(it->second, v.n->w, w);
        z3::expr r = Bnode(v.n);
        memo.emplace(v.n, r);
        return fit(r, v.n->w, w);
    }
    static int sbits(i128 lo, i128 hi) { // signed width covering [lo,hi]
        int b = 1;
        while (lo < -((i128)1 << (b - 1)) || hi > ((i128)1 << (b - 1)) - 1) b++;
        return b;
    }
    z3::expr bsum(const std::vector<std::pair<Node*, i128>>& t, i128 mul, i128 c0, int w) {
        z3::expr e = bc((u128)c0, w);
        bool first = c0 == 0;
        for (auto& x : t) {
            i128 k = (i128)((u128)x.second * (u128)mul);
            z3::expr a = B(V(x.first), w);
            z3::expr y = k == 1 ? a : bc((u128)k, w) * a;
            e = first ? y : e + y;
            first = false;
        }
        return e;
    }
    z3::expr Bnode(Node* n) {
        switch (n->k) {
        case KSym: {
            z3::expr x = c.bv_const(n->name.c_str(), n->w);
            if (n->lo) s.add(z3::uge(x, bc(n->lo, n->w)));
            if (n->hi != maskw(n->w)) s.add(z3::ule(x, bc(n->hi, n->w)));
            symv.emplace(n, x);
            return x;
        }
        case KLin: return bsum(n->f->t, n->m, n->c0, n->w);
        case KMod: {
            i128 hi = n->c0;
            for (auto& x : n->mt) {
                if (x.first->hi >= (u128(1) << 64) || x.second >= ((i128)1 << 60)) { failed = true; return bc(0, n->w); }
                hi += x.second * (i128)x.first->hi;
            }
            int W = sbits(0, hi);
            z3::expr e = bsum(n->mt, 1, n->c0, W);
            return fit(z3::urem(e, bc(n->p, W)), W, n->w);
        }
        case KXLin: {
            // group columns per atom; emit xor of shifted/whole pieces where possible
            z3::expr r = bc(n->xc, n->w);
            bool first = n->xc == 0;
            auto acc = [&](z3::expr e) { r = first ? e : (r ^ e); first = false; };
            for (auto& x : n->xt) {
                z3::expr a = B(V(x.a), x.a->w);
                // runs of consecutive single-bit columns col[j+i] = 1<<(o+i)
                size_t j = 0;
                while (j < x.col.size()) {
                    u128 k = x.col[j];
                    if (!k) { j++; continue; }
                    if (!(k & (k - 1))) {
                        int o = 0;
                        while (!((k >> o) & 1)) o++;
                        size_t q = j;
                        while (q + 1 < x.col.size() && o + (int)(q + 1 - j) < n->w && x.col[q + 1] == (u128(1) << (o + (q + 1 - j)))) q++;
                        int len = q - j + 1;
                        z3::expr e = a.extract((unsigned)q, (unsigned)j);
                        if (o) e = z3::concat(e, bc(0, o));
                        if (o + len < n->w) e = z3::zext(e, n->w - o - len);
                        acc(e);
                        j = q + 1;
                        continue;
                    }
                    z3::expr bit = a.extract((unsigned)j, (unsigned)j);
                    acc(z3::ite(bit == bc(1, 1), bc(k, n->w), bc(0, n->w)));
                    j++;
                }
            }
            return r;
        }
        case KUn: {
            if (n->op != O_NONE && !n->args.empty()) {
                int dw = (int)n->m;
                return fit(Bop(n->op, dw, n->aw, n->args), dw, n->w);
            }
            const auto& ps = pieces(n->s);
            if (ps.empty()) { failed = true; return bc(0, n->w); }
            int W = std::max(sbits(n->f->lo, n->f->hi), n->w) + 1;
            z3::expr t = bsumSigned(n->f, W);
            z3::expr r = bval(ps.back(), t, W);
            for (int i = (int)ps.size() - 2; i >= 0; i--) r = z3::ite(t <= bc((u128)(i128)ps[i].b, W), bval(ps[i], t, W), r);
            return fit(r, W, n->w);
        }
        case KOp: return Bop(n->op, n->w, n->aw, n->args);
        }
        failed = true;
        return bc(0, n->w);
    }
    z3::expr bsumSigned(Form* f, int W) { return bsum(f->t, 1, 0, W); }
    z3::expr bval(const Piece& p, z3::expr t, int W) {
        z3::expr e = bc((u128)p.c, W);
        if (p.m) e = e + (p.m == 1 ? t : bc((u128)p.m, W) * t);
        return e;
    }
    z3::expr b1(z3::expr b) { return z3::ite(b, bc(1, 1), bc(0, 1)); }
    z3::expr Bop(OpK op, int w, int aw, const std::vector<V>& a) {
        int ow = aw ? aw : w;
        auto A = [&](int i, int ww) { return B(a[i], ww); };
        switch (op) {
        case O_ADD: return A(0, w) + A(1, w);
        case O_SUB: return A(0, w) - A(1, w);
        case O_MUL: return A(0, w) * A(1, w);
        case O_UDIV: return z3::udiv(A(0, w), A(1, w));
        case O_UREM: return z3::urem(A(0, w), A(1, w));
        case O_SDIV: return A(0, w) / A(1, w);
        case O_SREM: return z3::srem(A(0, w), A(1, w));
        case O_SHL: return z3::shl(A(0, w), A(1, w));
        case O_LSHR: return z3::lshr(A(0, w), A(1, w));
        case O_ASHR: return z3::ashr(A(0, w), A(1, w));
        case O_AND: return A(0, w) & A(1, w);
        case O_OR: return A(0, w) | A(1, w);
        case O_XOR: return A(0, w) ^ A(1, w);
        case O_EQ: return b1(A(0, ow) == A(1, ow));
        case O_ULT: return b1(z3::ult(A(0, ow), A(1, ow)));
        case O_SLT: return b1(A(0, ow) < A(1, ow));
        case O_ITE: return z3::ite(A(0, 1) == bc(1, 1), A(1, w), A(2, w));
        case O_TRUNC: return fit(A(0, ow), ow, w);
        case O_ZEXT: return fit(A(0, ow), ow, w);
        case O_SEXT: return ow < w ? z3::sext(A(0, ow), w - ow) : fit(A(0, ow), ow, w);
        default: failed = true; return bc(0, w);
        }
    }
};

static z3::context& ctx() {
    static z3::context* c = nullptr;
    static int uses = 0;
    if (!c || uses++ > 400) { delete c; c = new z3::context; uses = 0; }
    return *c;
}

static u128 parseDec(const std::string& s) {
    u128 r = 0;
    for (char ch : s)
        if (ch >= '0' && ch <= '9') r = r * 10 + (ch - '0');
    return r;
}

static Res run(const std::vector<V>& conj, Model* out, int timeout_ms, bool intMode, bool& encFailed) {
    z3::context& c = ctx();
    z3::solver s(c);
    z3::params p(c);
    p.set("timeout", (unsigned)timeout_ms);
    s.set(p);
    Enc e(c, s, intMode);
    for (auto& v : conj) {
        if (intMode) s.add(e.IB(v));
        else s.add(e.B(v, 1) == e.bc(1, 1));
    }
    encFailed = e.failed;
    if (e.failed) return R_UNKNOWN;
    auto t0 = std::chrono::steady_clock::now();
    z3::check_result r;
    try { r = s.check(); } catch (z3::exception&) { r = z3::unknown; }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    sstats.queries++;
    sstats.time += dt;
    if (dt > sstats.maxq) sstats.maxq = dt;
    if (intMode) sstats.intq++; else sstats.bvq++;
    if (r == z3::unsat) { sstats.unsat++; return R_UNSAT; }
    if (r == z3::unknown) { sstats.unknown++; return R_UNKNOWN; }
    sstats.sat++;
    if (out) {
        z3::model m = s.get_model();
        for (auto& kv : e.symv) {
            z3::expr v = m.eval(kv.second, true);
            (*out)[kv.first] = parseDec(Z3_get_numeral_string(c, v));
        }
    }
    return R_SAT;
}

Res solve(const std::vector<V>& conj, Model* out, int timeout_ms, const std::vector<Node*>*) {
    for (auto& v : conj)
        if (v.isC() && !v.c) { sstats.queries++; sstats.unsat++; return R_UNSAT; }
    bool f;
    Res r = R_UNKNOWN;
    r = run(conj, out, timeout_ms, true, f);
    if (f) {
        r = run(conj, out, timeout_ms, false, f);
    } else if (r == R_UNKNOWN) {
        Res r2 = run(conj, out, timeout_ms, false, f);
        if (!f) r = r2;
    }
    if (r == R_SAT && out) { // certify the model against the term semantics
        std::unordered_map<Node*, u128> memo;
        for (auto& v : conj)
            if (!eval(v, *out, memo)) {
                fprintf(stderr, "SOLVER-MODEL-MISMATCH %s\n", str(v).c_str());
                return R_UNKNOWN;
            }
    }
    return r;
}

Res proveLemma(const Lemma& l, int timeout_ms) {
    // the derivation of the table, over its pivot as a free variable in its interval, equals the recognised form
    z3::context& c = ctx();
    z3::solver s(c);
    z3::params p(c);
    p.set("timeout", (unsigned)timeout_ms);
    s.set(p);
    Enc e(c, s, false);
    Node* u = l.un;
    // the atoms of the pivot are free values in their intervals
    for (auto& x : u->f->t) {
        Node* n = x.first;
        z3::expr v = c.bv_const(("a!" + std::to_string(n->id)).c_str(), n->w);
        if (n->lo) s.add(z3::uge(v, e.bc(n->lo, n->w)));
        if (n->hi != maskw(n->w)) s.add(z3::ule(v, e.bc(n->hi, n->w)));
        e.memo.emplace(n, v);
    }
    z3::expr a = e.Bop(u->op, (int)u->m, u->aw, u->args);
    a = e.fit(a, (int)u->m, u->w);
    z3::expr b = e.B(l.result, u->w);
    if (e.failed) return R_UNKNOWN;
    s.add(a != b);
    auto t0 = std::chrono::steady_clock::now();
    z3::check_result r;
    try { r = s.check(); } catch (z3::exception&) { r = z3::unknown; }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    sstats.time += dt;
    sstats.queries++;
    if (dt > sstats.maxq) sstats.maxq = dt;
    if (r == z3::unsat) { sstats.unsat++; return R_UNSAT; }
    if (r == z3::sat) { sstats.sat++; return R_SAT; }
    sstats.unknown++;
    return R_UNKNOWN;
}


static Res ask(z3::solver& s, z3::context& c, bool intMode) {
    (void)c;
    auto t0 = std::chrono::steady_clock::now();
    z3::check_result r;
    try { r = s.check(); } catch (z3::exception&) { r = z3::unknown; }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    sstats.queries++;
    sstats.time += dt;
    if (dt > sstats.maxq) sstats.maxq = dt;
    if (intMode) sstats.intq++; else sstats.bvq++;
    if (r == z3::unsat) { sstats.unsat++; return R_UNSAT; }
    if (r == z3::sat) { sstats.sat++; return R_SAT; }
    sstats.unknown++;
    return R_UNKNOWN;
}

// raw integer meaning of an operation on values in [0,2^w)
static bool rawInt(Enc& e, OpK op, V a, V b, V c, int w, int aw, z3::expr& out) {
    auto P2 = [&](int k) { return e.ic((i128)1 << k); };
    if (w > 100 || aw > 100) return false;
    z3::context& C = e.c;
    auto divmod = [&](z3::expr x, z3::expr d, bool rem) {
        static int n = 0;
        n++;
        z3::expr q = C.int_const(("dq!" + std::to_string(n)).c_str()), r = C.int_const(("dr!" + std::to_string(n)).c_str());
        e.s.add(x == d * q + r);
        e.s.add(r >= 0);
        e.s.add(r < d);
        return rem ? r : q;
    };
    switch (op) {
    case O_ADD: out = divmod(e.I(a) + e.I(b), P2(w), true); return true;
    case O_SUB: out = divmod(e.I(a) - e.I(b), P2(w), true); return true;
    case O_MUL: out = divmod(e.I(a) * e.I(b), P2(w), true); return true;
    case O_UDIV: case O_UREM:
        if (!b.isC() || !b.c) return false;
        out = divmod(e.I(a), e.I(b), op == O_UREM);
        return true;
    case O_SHL:
        if (!b.isC() || b.c >= (u128)w) return false;
        out = divmod(e.I(a) * P2((int)b.c), P2(w), true);
        return true;
    case O_LSHR:
        if (!b.isC() || b.c >= (u128)w) return false;
        out = divmod(e.I(a), P2((int)b.c), false);
        return true;
    case O_AND: {
        if (w == 1) return false;
        if (!b.isC()) { std::swap(a, b); if (!b.isC()) return false; }
        u128 m = b.c;
        if (m & (m + 1)) return false;
        out = divmod(e.I(a), e.ic((i128)m + 1), true);
        return true;
    }
    case O_TRUNC: out = divmod(e.I(a), P2(w), true); return true;
    case O_ZEXT: out = e.I(a); return true;
    case O_SEXT: {
        z3::expr x = e.I(a);
        out = z3::ite(x >= P2(aw - 1), x + e.ic(((i128)1 << w) - ((i128)1 << aw)), x);
        return true;
    }
    case O_EXTRACT: {
        z3::expr x = divmod(e.I(a), P2((int)b.c), false);
        out = divmod(x, P2(w), true);
        return true;
    }
    case O_CONCAT: out = e.I(a) * P2((int)c.c) + e.I(b); return true;
    case O_ITE:
        if (w == 1) return false;
        out = z3::ite(e.IB(a), e.I(b), e.I(c));
        return true;
    default: return false;
    }
}

Res proveStep(OpK op, V a, V b, V c0, int w, int aw, V r, int timeout_ms, bool& tab) {
    tab = false;
    z3::context& c = ctx();
    // identical to the unevaluated operation: nothing was rewritten
    if (r.n && r.n->k == KUn) {
        // a table over the pivot, filled by evaluation
        Form *f, *g;
        Shape *s, *t;
        bool ua = a.isC() || ex::unary(a, aw ? aw : w, f, s), ub = b.isC() || ex::unary(b, aw ? aw : w, g, t);
        if (ua && ub) { tab = true; return R_UNSAT; }
    }
    {
        z3::solver s(c);
        z3::params p(c);
        p.set("timeout", (unsigned)timeout_ms);
        s.set(p);
        Enc e(c, s, true);
        Res res = R_UNKNOWN;
        bool have = false;
        if (op == O_EQ || op == O_ULT || (w == 1 && (op == O_AND || op == O_OR || op == O_XOR || op == O_ITE))) {
            z3::expr raw = op == O_EQ ? (aw == 1 ? e.IB(a) == e.IB(b) : e.I(a) == e.I(b)) : op == O_ULT ? e.I(a) < e.I(b) : op == O_AND ? (e.IB(a) && e.IB(b)) : op == O_OR ? (e.IB(a) || e.IB(b)) : op == O_XOR ? (e.IB(a) != e.IB(b)) : z3::ite(e.IB(a), e.IB(b), e.IB(c0));
            s.add(raw != e.IB(r));
            have = true;
        } else {
            z3::expr raw = e.ic(0);
            if (rawInt(e, op, a, b, c0, w, aw, raw)) {
                if (w == 1) s.add((raw == 1) != e.IB(r));
                else s.add(raw != e.I(r));
                have = true;
            }
        }
        if (have && !e.failed) {
            res = ask(s, c, true);
            if (res != R_UNKNOWN) return res;
        }
    }
    z3::solver s(c);
    z3::params p(c);
    p.set("timeout", (unsigned)timeout_ms);
    s.set(p);
    Enc e(c, s, false);
    z3::expr raw = e.bc(0, w);
    if (op == O_EXTRACT) raw = e.B(a, aw).extract((unsigned)(b.c + w - 1), (unsigned)b.c);
    else if (op == O_CONCAT) raw = z3::concat(e.B(a, aw), e.B(b, (int)c0.c));
    else raw = e.Bop(op, w, aw, op == O_ITE ? std::vector<V>{a, b, c0} : std::vector<V>{a, b});
    s.add(raw != e.B(r, w));
    if (e.failed) {
        // operands that are tables with many pieces are outside the encodings
        return R_UNKNOWN;
    }
    return ask(s, c, false);
}

std::string smt2(const std::vector<V>& conj) {
    z3::context c;
    z3::solver s(c);
    Enc e(c, s, true);
    for (auto& v : conj) s.add(e.IB(v));
    return s.to_smt2();
}
