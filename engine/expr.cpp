#include "expr.h"
#include <algorithm>
#include <cassert>
#include <cstring>
#include <functional>

namespace ex {
i128 LIM = i128(1) << 18;
bool log_lemmas = true;
u64 n_nodes, n_shapes, n_forms, n_recog, n_unops;
std::vector<Lemma> lemmas;

typedef std::vector<std::pair<Node*, i128>> Terms;

static inline u64 mix(u64 h, u64 v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 32);
}
static inline u64 mix128(u64 h, u128 v) { return mix(mix(h, (u64)v), (u64)(v >> 64)); }
static inline int bitsOf(u128 v) {
    u64 h = v >> 64, l = (u64)v;
    if (h) return 128 - __builtin_clzll(h);
    if (l) return 64 - __builtin_clzll(l);
    return 0;
}
static int bitsOf1(u128 v) { int b = bitsOf(v); return b ? b : 1; }

// ---------------------------------------------------------------- interning
static std::unordered_multimap<u64, Node*> nodeTab;
static std::unordered_multimap<u64, Form*> formTab;
static std::unordered_multimap<u64, Shape*> shapeTab;
static uint32_t nextNode = 1, nextForm = 1, nextShape = 1;

static void addSyms(std::vector<Node*>& out, const std::vector<Node*>& in) {
    if (in.empty()) return;
    if (out.empty()) { out = in; return; }
    std::vector<Node*> r;
    r.reserve(out.size() + in.size());
    std::set_union(out.begin(), out.end(), in.begin(), in.end(), std::back_inserter(r),
                   [](Node* a, Node* b) { return a->id < b->id; });
    out.swap(r);
}

static bool sameNode(const Node* a, const Node* b) {
    if (a->k != b->k || a->w != b->w) return false;
    switch (a->k) {
    case KSym: return a->name == b->name && a->lo == b->lo && a->hi == b->hi;
    case KLin: return a->f == b->f && a->m == b->m && a->c0 == b->c0;
    case KMod: return a->p == b->p && a->c0 == b->c0 && a->mt == b->mt;
    case KXLin: return a->xc == b->xc && a->xt == b->xt;
    case KUn: return a->f == b->f && a->s == b->s;
    case KOp: return a->op == b->op && a->aw == b->aw && a->args == b->args;
    }
    return false;
}
static u64 hashNode(const Node* n) {
    u64 h = mix(n->k * 1315423911u, n->w);
    switch (n->k) {
    case KSym: h = mix(h, std::hash<std::string>()(n->name)); break;
    case KLin: h = mix128(mix128(mix(h, n->f->id), n->m), n->c0); break;
    case KMod:
        h = mix128(mix128(h, n->p), n->c0);
        for (auto& t : n->mt) h = mix128(mix(h, t.first->id), t.second);
        break;
    case KXLin:
        h = mix128(h, n->xc);
        for (auto& t : n->xt) {
            h = mix(h, t.a->id);
            for (u128 c : t.col) h = mix128(h, c);
        }
        break;
    case KUn: h = mix(mix(h, n->f->id), n->s->id); break;
    case KOp:
        h = mix(mix(h, n->op), n->aw);
        for (auto& v : n->args) h = v.n ? mix(h, v.n->id) : mix128(mix(h, 77), v.c);
        break;
    }
    return h;
}
static Node* intern(Node& t) {
    u64 h = hashNode(&t);
    auto r = nodeTab.equal_range(h);
    for (auto i = r.first; i != r.second; ++i)
        if (sameNode(i->second, &t)) return i->second;
    Node* n = new Node(std::move(t));
    n->id = nextNode++;
    n_nodes++;
    switch (n->k) {
    case KSym: n->syms = {n}; break;
    case KLin:
    case KUn:
        for (auto& x : n->f->t) addSyms(n->syms, x.first->syms);
        break;
    case KMod:
        for (auto& x : n->mt) addSyms(n->syms, x.first->syms);
        break;
    case KXLin:
        for (auto& x : n->xt) addSyms(n->syms, x.a->syms);
        break;
    case KOp:
        for (auto& x : n->args)
            if (x.n) addSyms(n->syms, x.n->syms);
        break;
    }
    nodeTab.emplace(h, n);
    return n;
}

static Form* internForm(Terms&& t) {
    u64 h = 12345;
    for (auto& x : t) h = mix128(mix(h, x.first->id), x.second);
    auto r = formTab.equal_range(h);
    for (auto i = r.first; i != r.second; ++i)
        if (i->second->t == t) return i->second;
    Form* f = new Form;
    f->t = std::move(t);
    f->big = false;
    i128 lo = 0, hi = 0;
    const i128 CAP = i128(1) << 120;
    for (auto& x : f->t) {
        u128 al = x.first->lo, ah = x.first->hi;
        if (ah >= (u128)CAP) { f->big = true; break; }
        i128 a, b;
        if (__builtin_mul_overflow(x.second, (i128)al, &a) || __builtin_mul_overflow(x.second, (i128)ah, &b)) {
            f->big = true;
            break;
        }
        if (a > b) std::swap(a, b);
        if (__builtin_add_overflow(lo, a, &lo) || __builtin_add_overflow(hi, b, &hi) || lo < -CAP || hi > CAP) {
            f->big = true;
            break;
        }
    }
    if (f->big) { lo = -CAP; hi = CAP; }
    f->lo = lo;
    f->hi = hi;
    f->id = nextForm++;
    n_forms++;
    formTab.emplace(h, f);
    return f;
}

static i128 gcd128(i128 a, i128 b) {
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) { i128 t = a % b; a = b; b = t; }
    return a;
}

static Form* normForm(Terms& t, i128& mult) {
    i128 g = 0;
    for (auto& x : t) g = gcd128(g, x.second);
    if (t[0].second < 0) g = -g;
    for (auto& x : t) x.second /= g;
    mult = g;
    return internForm(std::move(t));
}

static void addTerm(Terms& t, Node* a, i128 c) {
    if (c == 0) return;
    auto it = std::lower_bound(t.begin(), t.end(), a, [](const std::pair<Node*, i128>& x, Node* b) { return x.first->id < b->id; });
    if (it != t.end() && it->first == a) {
        it->second = (i128)((u128)it->second + (u128)c);
        if (it->second == 0) t.erase(it);
    } else
        t.insert(it, {a, c});
}

Shape* mkShape(i64 lo, i64 hi, int w, std::vector<u64>&& v) {
    u64 h = mix(mix(99, lo), hi);
    for (u64 x : v) { h = (h ^ x) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; }
    auto r = shapeTab.equal_range(h);
    for (auto i = r.first; i != r.second; ++i) {
        Shape* s = i->second;
        if (s->lo == lo && s->hi == hi && s->v == v) return s;
    }
    Shape* s = new Shape;
    s->lo = lo;
    s->hi = hi;
    s->w = w;
    s->v = std::move(v);
    s->mn = ~0ULL;
    s->mx = 0;
    for (u64 x : s->v) { if (x < s->mn) s->mn = x; if (x > s->mx) s->mx = x; }
    s->id = nextShape++;
    n_shapes++;
    shapeTab.emplace(h, s);
    return s;
}

Form* atomForm(Node* n) {
    Terms t{{n, 1}};
    return internForm(std::move(t));
}

// ---------------------------------------------------------------- constants
u128 fold(OpK op, u128 a, u128 b, int w, int aw, bool& ok) {
    u128 m = maskw(w);
    ok = true;
    switch (op) {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: if (!b) { ok = false; return 0; } return a / b;
    case O_UREM: if (!b) { ok = false; return 0; } return a % b;
    case O_SDIV: {
        i128 x = sxt(a, w), y = sxt(b, w);
        if (!y) { ok = false; return 0; }
        if (y == -1) return (u128)(-(u128)x) & m;
        return (u128)(x / y) & m;
    }
    case O_SREM: {
        i128 x = sxt(a, w), y = sxt(b, w);
        if (!y) { ok = false; return 0; }
        if (y == -1) return 0;
        return (u128)(x % y) & m;
    }
    case O_SHL: return b >= (u128)w ? 0 : (a << (int)b) & m;
    case O_LSHR: return b >= (u128)w ? 0 : (a >> (int)b);
    case O_ASHR: {
        i128 x = sxt(a, w);
        int k = b >= (u128)w ? w - 1 : (int)b;
        return (u128)(x >> k) & m;
    }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_SLT: return sxt(a, aw) < sxt(b, aw);
    case O_TRUNC: return a & m;
    case O_ZEXT: return a;
    case O_SEXT: return (u128)sxt(a, aw) & m;
    default: ok = false; return 0;
    }
}

static void interval(V v, u128& lo, u128& hi) {
    if (v.isC()) lo = hi = v.c;
    else { lo = v.n->lo; hi = v.n->hi; }
}

// ---------------------------------------------------------------- forward
static V mkLin(Terms t, i128 c0, int w);
static V mkMod(const Terms& t, i128 c0, u128 p, int w);
static V mkX(std::vector<XTerm>& t, u128 c, int w);
static bool asX(V v, int w, std::vector<XTerm>& t, u128& c, bool nativeOnly);
static Node* core(Node* n);
static void asLin(V v, int w, Terms& t, i128& c, i128 mul, bool exactOnly);

static V mkOp(OpK op, int w, std::vector<V> args, int aw = 0, u128 lo = 0, u128 hi = ~u128(0)) {
    Node t;
    t.k = KOp;
    t.w = w;
    t.op = op;
    t.args = std::move(args);
    t.aw = aw;
    t.lo = lo;
    t.hi = std::min(hi, maskw(w));
    return V(intern(t));
}

V sym(const std::string& name, int w, u128 lo, u128 hi) {
    if (lo == hi) return K(lo);
    Node t;
    t.k = KSym;
    t.name = name;
    t.lo = lo;
    t.hi = hi;
    int cw = bitsOf1(hi);
    t.w = cw;
    Node* n = intern(t);
    return linValue(atomForm(n), 1, 0, w);
}

// ---------------------------------------------------------------- recognition
static void recog(Shape* s) {
    if (s->rec_done) return;
    s->rec_done = true;
    const auto& v = s->v;
    size_t N = v.size();
    if (s->mn == s->mx) { s->rec.k = Recog::CONST; s->rec.c = (i128)v[0]; return; }
    i128 d = (i128)v[1] - (i128)v[0];
    size_t i = 1;
    while (i + 1 < N && (i128)v[i + 1] - (i128)v[i] == d) i++;
    if (i + 1 >= N) {
        s->rec.k = Recog::AFF;
        s->rec.m = d;
        s->rec.c = (i128)v[0] - d * s->lo;
        return;
    }
    i128 d2 = (i128)v[i + 1] - (i128)v[i];
    i128 pp = d - d2;
    if (pp < 0) pp = -pp;
    u128 p = pp;
    if (p >= 3 && (p & (p - 1)) && s->mx < p && N >= 3) {
        bool ok = true;
        i128 dm = ((d % (i128)p) + (i128)p) % (i128)p;
        for (size_t j = 0; j + 1 < N; j++) {
            i128 e = (i128)v[j + 1] - (i128)v[j];
            if (e < 0) e += p;
            if (e != dm) { ok = false; break; }
        }
        if (ok) {
            // a modulus needs more than a coincidence of very few points
            s->rec.k = Recog::MOD;
            s->rec.p = p;
            s->rec.m = dm;
            i128 c = ((i128)v[0] - dm * s->lo) % (i128)p;
            if (c < 0) c += p;
            s->rec.c = c;
            n_recog++;
            return;
        }
    }
    s->rec.k = Recog::NONE;
}

static bool gf2lin(Shape* s) {
    if (s->lin_done) return s->lin_ok;
    s->lin_done = true;
    s->lin_ok = false;
    if (s->lo != 0) return false;
    u64 N = (u64)s->hi + 1;
    if (N & (N - 1)) return false;
    const auto& v = s->v;
    u64 c = v[0];
    for (u64 b = 1; b < N; b <<= 1)
        for (u64 j = 1; j < b; j++)
            if ((v[b + j] ^ c) != ((v[b] ^ c) ^ (v[j] ^ c))) return false;
    s->lin_ok = true;
    n_recog++;
    return true;
}

static V unNode(Form* f, Shape* s, int w, OpK op, const std::vector<V>& args, int aw, int dw = 0) {
    Node t;
    t.k = KUn;
    t.w = w;
    t.f = f;
    t.s = s;
    t.lo = s->mn;
    t.hi = s->mx;
    t.op = op;
    t.args = args;
    t.aw = aw;
    t.m = dw ? dw : w; // width of the derivation
    return V(intern(t));
}

static V shapeToX(Form* f, Shape* s, int w, bool& ok) {
    ok = false;
    if (f->t.size() != 1 || f->t[0].second != 1) return V();
    Node* a = f->t[0].first;
    if (f->lo != 0 || (((u128)f->hi + 1) & (u128)f->hi)) return V();
    int k = bitsOf((u128)f->hi);
    if (!gf2lin(s)) return V();
    ok = true;
    u128 c = s->v[0];
    std::vector<u128> L(k);
    for (int j = 0; j < k; j++) L[j] = (u128)(s->v[1ULL << j] ^ s->v[0]);
    std::vector<XTerm> out;
    std::vector<XTerm> in;
    u128 ic;
    if (a->k == KXLin) {
        in = a->xt;
        ic = a->xc;
    } else {
        XTerm x;
        x.a = a;
        for (int j = 0; j < a->w; j++) x.col.push_back(u128(1) << j);
        in.push_back(x);
        ic = 0;
    }
    auto app = [&](u128 v) {
        u128 r = 0;
        for (int j = 0; j < k; j++)
            if ((v >> j) & 1) r ^= L[j];
        return r;
    };
    c ^= app(ic);
    for (auto& x : in) {
        XTerm y;
        y.a = x.a;
        for (u128 col : x.col) y.col.push_back(app(col));
        out.push_back(y);
    }
    return mkX(out, c, w);
}

V modTerm(const Terms& t, i128 c0, u128 p, int w) { return mkMod(t, c0, p, w); }
V linValue(Form* f, i128 m, i128 c0, int w) {
    Terms t = f->t;
    for (auto& x : t) x.second = (i128)((u128)x.second * (u128)m);
    return mkLin(std::move(t), c0, w);
}

V mkUn(Form* f, Shape* s, int w, OpK op, const std::vector<V>& args, int aw) {
    recog(s);
    V r;
    switch (s->rec.k) {
    case Recog::CONST: return K((u128)s->rec.c);
    case Recog::AFF:
        if (w < 126 && sxt((u128)s->rec.m & maskw(w), w) != s->rec.m) { // slope of half the modulus or more: keep it as is
            Node n;
            n.k = KLin;
            n.w = w;
            n.f = f;
            n.m = s->rec.m;
            n.c0 = s->rec.c;
            n.exact = true;
            n.lo = s->mn;
            n.hi = s->mx;
            return V(intern(n));
        }
        return linValue(f, s->rec.m, s->rec.c, w);
    case Recog::MOD: {
        Terms t = f->t;
        for (auto& x : t) x.second = x.second * s->rec.m;
        r = mkMod(t, s->rec.c, s->rec.p, w);
        break;
    }
    default: {
        bool ok;
        r = shapeToX(f, s, w, ok);
        if (!ok) return unNode(f, s, w, op, args, aw);
    }
    }
    if (log_lemmas && op != O_NONE) {
        static std::unordered_map<Shape*, bool> seen;
        if (!seen.count(s)) {
            seen[s] = true;
            V u = unNode(f, s, w, op, args, aw);
            lemmas.push_back({u.n, r});
        }
    }
    return r;
}

static Shape* affShape(Form* f, i128 m, i128 c0, int w) {
    struct Key {
        i128 lo, hi, m, c;
        int w;
        bool operator==(const Key& o) const { return lo == o.lo && hi == o.hi && m == o.m && c == o.c && w == o.w; }
    };
    struct H {
        size_t operator()(const Key& k) const { return mix128(mix128(mix128(mix128(k.w, k.lo), k.hi), k.m), k.c); }
    };
    static std::unordered_map<Key, Shape*, H> cache;
    Key k{f->lo, f->hi, m, c0, w};
    auto it = cache.find(k);
    if (it != cache.end()) return it->second;
    std::vector<u64> v;
    u128 mk = maskw(w);
    u64 N = (u64)(f->hi - f->lo + 1);
    v.resize(N);
    u128 x = (u128)(m * f->lo + c0);
    for (u64 i = 0; i < N; i++, x += (u128)m) v[i] = (u64)(x & mk);
    Shape* s = mkShape((i64)f->lo, (i64)f->hi, w, std::move(v));
    cache[k] = s;
    return s;
}

static bool smallForm(Form* f) { return !f->big && f->hi - f->lo < LIM; }

static Shape* xShape(Node* n, Node* atom) { // XLin with single small atom
    static std::unordered_map<Node*, Shape*> cache;
    auto it = cache.find(n);
    if (it != cache.end()) return it->second;
    u64 N = (u64)(atom->hi - atom->lo + 1);
    std::vector<u64> v(N);
    int k = atom->w;
    std::vector<u64> tab(1ULL << k);
    tab[0] = (u64)n->xc;
    for (int j = 0; j < k; j++)
        for (u64 i = 0; i < (1ULL << j); i++) tab[(1ULL << j) + i] = tab[i] ^ (u64)n->xt[0].col[j];
    for (u64 i = 0; i < N; i++) v[i] = tab[(u64)atom->lo + i];
    Shape* s = mkShape((i64)atom->lo, (i64)atom->hi, n->w, std::move(v));
    cache[n] = s;
    return s;
}

bool unary(V v, int w, Form*& f, Shape*& s) {
    Node* n = v.n;
    if (!n || w > 64) return false;
    switch (n->k) {
    case KUn:
        f = n->f;
        s = n->s;
        return true;
    case KLin:
        if (!smallForm(n->f)) {
            if (n->exact && false) return false;
            return false;
        }
        f = n->f;
        s = affShape(f, n->m, n->c0, w);
        return true;
    case KXLin:
        if (n->xt.size() == 1 && n->xt[0].a->w <= 17 && i128(n->xt[0].a->hi - n->xt[0].a->lo) < LIM) {
            f = atomForm(n->xt[0].a);
            s = xShape(n, n->xt[0].a);
            return true;
        }
        // fallthrough
    default: {
        if (n->k == KXLin) { // strip constant bits around the varying ones
            u128 all = 0;
            for (auto& x : n->xt)
                for (u128 c : x.col) all |= c;
            int tz = 0, top = bitsOf(all);
            while (!((all >> tz) & 1)) tz++;
            u128 span = maskw(top) & ~maskw(tz), k = n->xc & ~span;
            if (top - tz <= 30 && ((u128)1 << (top - tz)) <= (u128)LIM) {
                std::vector<XTerm> t = n->xt;
                for (auto& x : t)
                    for (auto& c : x.col) c >>= tz;
                V r = mkX(t, (n->xc & span) >> tz, top - tz);
                if (r.n && r.n->k == KXLin) {
                    f = atomForm(r.n);
                    s = affShape(f, (i128)1 << tz, (i128)k, w);
                    return true;
                }
            }
        }
        if (n->hi - n->lo >= (u128)LIM) return false;
        Node* c = core(n);
        f = atomForm(c);
        if (!smallForm(f)) return false;
        s = affShape(f, 1, 0, w);
        return true;
    }
    }
}

// core: the atom standing for the same non-negative value, at its minimal width
static Node* core(Node* n) {
    if (n->k == KXLin) {
        u128 all = n->xc;
        for (auto& x : n->xt)
            for (u128 c : x.col) all |= c;
        int b = bitsOf1(all);
        if (b == n->w) return n;
        std::vector<XTerm> t = n->xt;
        V r = mkX(t, n->xc, b);
        return r.n;
    }
    if (n->k == KUn) {
        int b = bitsOf1(n->s->mx);
        if (b == n->w) return n;
        return unNode(n->f, n->s, b, n->op, n->args, n->aw, (int)n->m).n; // derivation width differs, value equal
    }
    return n;
}

// core without its always-zero low bits: value == result << tz
static Node* coreTz(Node* n, int& tz) {
    tz = 0;
    Node* c = core(n);
    if (c->k != KUn) return c;
    Shape* s = c->s;
    if (!s->or_done) {
        s->or_done = true;
        for (u64 x : s->v) s->orv |= x;
    }
    if (!s->orv || (s->orv & 1)) return c;
    tz = __builtin_ctzll(s->orv);
    static std::unordered_map<Node*, Node*> cache;
    auto it = cache.find(c);
    if (it != cache.end()) return it->second;
    std::vector<u64> v = s->v;
    for (auto& x : v) x >>= tz;
    Shape* t = mkShape(s->lo, s->hi, c->w, std::move(v));
    Node* r = core(unNode(c->f, t, c->w, O_LSHR, {V(c), K(tz)}, c->w).n);
    cache[c] = r;
    return r;
}

// pieces: XLin that is a disjoint placement of whole atoms
static bool xPieces(Node* n, Terms& t, i128 mul) {
    u128 used = n->xc;
    std::vector<std::pair<Node*, int>> ps;
    for (auto& x : n->xt) {
        if (!x.col[0]) return false;
        int off = bitsOf(x.col[0]) - 1;
        for (size_t j = 0; j < x.col.size(); j++) {
            if (off + (int)j >= 127) return false;
            if (x.col[j] != (u128(1) << (off + j))) return false;
            if (used & x.col[j]) return false;
            used |= x.col[j];
        }
        ps.push_back({x.a, off});
    }
    if (ps.size() < 1) return false;
    for (auto& p : ps) addTerm(t, p.first, (i128)((u128)mul << p.second));
    return true;
}

static void asLin(V v, int w, Terms& t, i128& c, i128 mul, bool exactOnly) {
    if (v.isC()) {
        c = (i128)((u128)c + (u128)mul * v.c);
        return;
    }
    Node* n = v.n;
    if (n->k == KLin && (n->exact || !exactOnly)) {
        for (auto& x : n->f->t) addTerm(t, x.first, (i128)((u128)x.second * (u128)n->m * (u128)mul));
        c = (i128)((u128)c + (u128)mul * (u128)n->c0);
        return;
    }
    if (n->k == KXLin) {
        if (n->w <= 120) {
            Terms tt = t;
            if (xPieces(n, tt, mul)) {
                t = tt;
                c = (i128)((u128)c + (u128)mul * n->xc);
                return;
            }
        }
        addTerm(t, core(n), mul);
        return;
    }
    int tz;
    Node* a = coreTz(n, tz);
    addTerm(t, a, (i128)((u128)mul << tz));
}

// terms that contain both a table over a pivot form and a multiple of that form: one table when it simplifies
static bool combineTab(Terms& t, i128& c0, int w) {
    if (w > 64 || t.size() < 2 || t.size() > 12) return false;
    for (size_t i = 0; i < t.size(); i++) {
        Node* u = t[i].first;
        if (u->k != KUn || !u->f) continue;
        Form* g = u->f;
        if (g->t.size() >= t.size() || !smallForm(g)) continue;
        // multiple of g among the other terms
        i128 c = 0;
        bool ok = true;
        for (size_t q = 0; q < g->t.size() && ok; q++) {
            ok = false;
            for (auto& x : t)
                if (x.first == g->t[q].first) {
                    if (x.second % g->t[q].second) break;
                    i128 k = x.second / g->t[q].second;
                    if (q && k != c) break;
                    c = k;
                    ok = true;
                    break;
                }
        }
        if (!ok || !c) continue;
        typedef std::pair<std::pair<Node*, int>, std::pair<i128, i128>> Key;
        static std::map<Key, V> cache;
        Key key{{u, w}, {t[i].second, c}};
        auto it = cache.find(key);
        V r = K(0);
        bool have = false;
        if (it == cache.end()) {
            u128 mk = maskw(w);
            std::vector<u64> v(u->s->v.size());
            for (size_t j = 0; j < v.size(); j++) v[j] = (u64)(((u128)c * (u128)((i128)j + u->s->lo) + (u128)t[i].second * (u128)u->s->v[j]) & mk);
            Shape* s = mkShape(u->s->lo, u->s->hi, w, std::move(v));
            recog(s);
            if (s->rec.k != Recog::NONE) {
                Terms ut{{u, t[i].second}};
                r = mkUn(g, s, w, O_ADD, {linValue(g, c, 0, w), mkLin(ut, 0, w)}, w);
                have = true;
            }
            cache[key] = have ? r : V((Node*)nullptr, ~u128(0));
        } else {
            r = it->second;
            have = r.n || r.c != ~u128(0);
        }
        if (!have) continue;
        Terms n;
        for (size_t j = 0; j < t.size(); j++) {
            if (j == i) continue;
            bool in = false;
            for (auto& y : g->t) in |= y.first == t[j].first;
            if (!in) addTerm(n, t[j].first, t[j].second);
        }
        asLin(r, w, n, c0, 1, false);
        t = n;
        return true;
    }
    return false;
}

static V mkLin(Terms t, i128 c0, int w) {
    u128 mk = maskw(w);
    if (w < 128) {
        for (size_t i = 0; i < t.size();) {
            t[i].second = sxt((u128)t[i].second & mk, w);
            if (t[i].second == 0) t.erase(t.begin() + i);
            else i++;
        }
    }
    if (t.empty()) return K((u128)c0 & mk);
    {
        bool hasUn = false;
        for (auto& x : t) hasUn |= x.first->k == KUn;
        if (hasUn && t.size() > 1 && combineTab(t, c0, w)) return mkLin(t, c0, w);
    }
    // single tabulated atom: fold into its pivot
    if (t.size() == 1 && t[0].first->k == KUn && w <= 64) {
        Node* u = t[0].first;
        std::vector<u64> v = u->s->v;
        for (auto& x : v) x = (u64)(((u128)x * (u128)t[0].second + (u128)c0) & mk);
        Shape* s = mkShape(u->s->lo, u->s->hi, w, std::move(v));
        if (t[0].second == 1 && c0 == 0) return mkUn(u->f, s, w, O_ZEXT, {V(u)}, u->w);
        // derivation as plain ops
        V base = unNode(u->f, u->s, w, O_ZEXT, {V(u)}, u->w);
        if (u->w == w) base = V(u);
        return mkUn(u->f, s, w, O_NONE, {}, 0);
    }
    i128 mult;
    Form* f = normForm(t, mult);
    Node n;
    n.k = KLin;
    n.w = w;
    n.f = f;
    n.m = mult;
    n.exact = false;
    n.lo = 0;
    n.hi = mk;
    if (w < 128) c0 = (i128)((u128)c0 & mk);
    if (!f->big) {
        i128 a, b;
        if (!__builtin_mul_overflow(f->lo, mult, &a) && !__builtin_mul_overflow(f->hi, mult, &b)) {
            if (a > b) std::swap(a, b);
            const i128 CAP = i128(1) << 124;
            if (w >= 126) {
                if (a > -CAP && b < CAP && c0 > -CAP && c0 < CAP && a + c0 >= 0) {
                    n.exact = true;
                    n.lo = (u128)(a + c0);
                    n.hi = (u128)(b + c0);
                }
            } else if (a > -CAP && b < CAP) {
                u128 base = ((u128)c0 + (u128)a) & mk;
                i128 cc = (i128)base - a;
                if ((u128)(b + cc) <= mk) {
                    n.exact = true;
                    c0 = cc;
                    n.lo = base;
                    n.hi = (u128)(b + cc);
                } else if (smallForm(f) && w <= 64) {
                    Shape* s = affShape(f, mult, c0, w);
                    // inexact: value wraps
                    return mkUn(f, s, w, O_NONE, {}, 0);
                }
            }
        }
    }
    n.c0 = c0;
    if (n.exact && n.m == 1 && n.c0 == 0 && f->t.size() == 1) {
        Node* a = f->t[0].first;
        if (a->w == w) return V(a);
        if (a->k == KXLin) { // keep bits visible
            std::vector<XTerm> xt = a->xt;
            u128 xc = a->xc;
            Node y;
            y.k = KXLin;
            y.w = w;
            y.xt = xt;
            y.xc = xc;
            y.lo = 0;
            y.hi = a->hi;
            return V(intern(y));
        }
    }
    return V(intern(n));
}

// ---------------------------------------------------------------- polynomials modulo p
typedef std::vector<Node*> Mono; // sorted by id
static bool mulExact(Node* n) {
    if (n->k != KOp || n->op != O_MUL || n->args[0].isC() || n->args[1].isC()) return false;
    u128 a = n->args[0].n->hi, b = n->args[1].n->hi;
    if (a && b > (~u128(0) >> 1) / a) return false;
    return a * b <= maskw(n->w) && n->hi == a * b;
}
struct MonoLess {
    bool operator()(const Mono& a, const Mono& b) const {
        if (a.size() != b.size()) return a.size() < b.size();
        for (size_t i = 0; i < a.size(); i++)
            if (a[i] != b[i]) return a[i]->id < b[i]->id;
        return false;
    }
};
typedef std::map<Mono, i128, MonoLess> Poly;
static const size_t POLYMAX = 200;
struct PolyBuilder {
    i128 P;
    bool ok = true;
    int depth = 0;
    i128 red(i128 x) { x %= P; return x < 0 ? x + P : x; }
    void addTo(Poly& r, const Mono& m, i128 c) {
        auto it = r.find(m);
        i128 v = red((it == r.end() ? 0 : it->second) + red(c));
        if (v) r[m] = v;
        else if (it != r.end()) r.erase(it);
        if (r.size() > POLYMAX) ok = false;
    }
    void addMul(Poly& r, const Poly& q, i128 k) {
        for (auto& x : q) addTo(r, x.first, x.second * red(k));
    }
    // product of the factors of a monomial: factors over one pivot are tabulated together
    Poly mono(Mono m) {
        Poly r;
        std::sort(m.begin(), m.end(), [](Node* a, Node* b) { return a->id < b->id; });
        if (depth > 12) ok = false;
        if (!ok) return r;
        for (size_t i = 0; i < m.size(); i++)
            for (size_t j = i + 1; j < m.size(); j++) {
                Form *f, *g;
                Shape *s, *t;
                if (!unary(V(m[i]), m[i]->w, f, s) || !unary(V(m[j]), m[j]->w, g, t) || f != g) continue;
                std::vector<u64> v(s->v.size());
                for (size_t q = 0; q < v.size(); q++) v[q] = (u64)(((u128)s->v[q] * t->v[q]) % (u128)P);
                V z = mkUn(f, mkShape(s->lo, s->hi, 64, std::move(v)), 64, O_NONE, {}, 0);
                Mono rest;
                for (size_t q = 0; q < m.size(); q++)
                    if (q != i && q != j) rest.push_back(m[q]);
                depth++;
                Poly pz = of(z), acc;
                for (auto& x : pz) {
                    Mono y = rest;
                    y.insert(y.end(), x.first.begin(), x.first.end());
                    addMul(acc, mono(y), x.second);
                }
                depth--;
                return acc;
            }
        addTo(r, m, 1);
        return r;
    }
    Poly mulP(const Poly& a, const Poly& b) {
        Poly r;
        for (auto& x : a)
            for (auto& y : b) {
                if (!ok) return r;
                Mono m = x.first;
                m.insert(m.end(), y.first.begin(), y.first.end());
                addMul(r, mono(m), x.second * y.second % P);
            }
        return r;
    }
    Poly of(V v) {
        Poly r;
        if (v.isC()) { addTo(r, Mono(), (i128)(v.c % (u128)P)); return r; }
        return atom(v.n);
    }
    Poly atom(Node* n) {
        Poly r;
        if (n->k == KMod && (i128)n->p == P) {
            for (auto& x : n->mt) addMul(r, atom(x.first), x.second);
            addTo(r, Mono(), n->c0);
            return r;
        }
        if (n->k == KLin && n->exact) {
            for (auto& x : n->f->t) addMul(r, atom(x.first), red(x.second) * red(n->m) % P);
            addTo(r, Mono(), n->c0);
            return r;
        }
        if (mulExact(n)) return mulP(of(n->args[0]), of(n->args[1]));
        addTo(r, Mono{core(n)}, 1);
        return r;
    }
    Node* node(const Mono& m) {
        if (m.size() == 1) return m[0];
        Node* acc = m[0];
        for (size_t i = 1; i < m.size(); i++) {
            u128 a = acc->hi, b = m[i]->hi;
            if (a && b > (~u128(0) >> 4) / a) { ok = false; return nullptr; }
            V x(acc), y(m[i]);
            if (x.n->id > y.n->id) std::swap(x, y);
            V z = mkOp(O_MUL, 128, {x, y}, 0, acc->lo * m[i]->lo, a * b);
            acc = z.n;
        }
        return acc;
    }
};

static V mkMod(const Terms& tin, i128 c0, u128 p, int w) {
    Terms t;
    i128 P = (i128)p;
    auto red = [&](i128 x) { x %= P; if (x < 0) x += P; return x; };
    auto mulmod = [&](i128 a, i128 b) -> i128 { // a,b in [0,P)
        if (P < (i128(1) << 62)) return (a * b) % P;
        i128 r = 0;
        while (b) { if (b & 1) { r += a; if (r >= P) r -= P; } a += a; if (a >= P) a -= P; b >>= 1; }
        return r;
    };
    i128 c = red(c0);
    std::function<void(Node*, i128)> addm = [&](Node* a, i128 k) {
        k = red(k);
        if (!k) return;
        if (a->k == KMod && a->p == p) {
            for (auto& x : a->mt) addm(x.first, mulmod(k, x.second));
            c = red(c + mulmod(k, a->c0));
            return;
        }
        addTerm(t, a, k);
        for (auto it = t.begin(); it != t.end(); ++it)
            if (it->first == a) {
                it->second = red(it->second);
                if (!it->second) t.erase(it);
                break;
            }
    };
    for (auto& x : tin) addm(x.first, x.second);
    // products: polynomial normal form
    bool prod = false;
    for (auto& x : t)
        if (mulExact(x.first)) prod = true;
    if (prod && P < (i128(1) << 40)) {
        PolyBuilder pb;
        pb.P = P;
        Poly q;
        for (auto& x : t) {
            if (!pb.ok) break;
            pb.addMul(q, pb.atom(x.first), x.second);
        }
        Terms t2;
        i128 c2 = c;
        if (pb.ok)
            for (auto& m : q) {
                if (m.first.empty()) { c2 = red(c2 + m.second); continue; }
                Node* nd = pb.node(m.first);
                if (!nd) break;
                addTerm(t2, nd, m.second);
            }
        if (pb.ok) { t = t2; c = c2; }
    }
    if (t.empty()) return K((u128)c);
    // exact without reduction?
    {
        i128 hi = c;
        bool ok = true;
        for (auto& x : t) {
            if (x.first->hi >= (u128(1) << 100)) { ok = false; break; }
            i128 y;
            if (__builtin_mul_overflow(x.second, (i128)x.first->hi, &y)) { ok = false; break; }
            hi += y;
            if (hi >= P) { ok = false; break; }
        }
        if (ok && hi < P) return mkLin(t, c, w);
    }
    Node n;
    n.k = KMod;
    n.w = bitsOf1(p - 1);
    n.p = p;
    n.mt = t;
    n.c0 = c;
    n.lo = 0;
    n.hi = p - 1;
    Node* r = intern(n);
    return linValue(atomForm(r), 1, 0, w);
}

// ---------------------------------------------------------------- XLin
static V mkX(std::vector<XTerm>& t, u128 c, int w) {
    u128 mk = maskw(w);
    c &= mk;
    std::vector<XTerm> r;
    std::sort(t.begin(), t.end(), [](const XTerm& a, const XTerm& b) { return a.a->id < b.a->id; });
    for (auto& x : t) {
        if (!r.empty() && r.back().a == x.a) {
            for (size_t j = 0; j < x.col.size(); j++) r.back().col[j] ^= x.col[j] & mk;
        } else {
            r.push_back(x);
            for (auto& y : r.back().col) y &= mk;
        }
    }
    std::vector<XTerm> q;
    u128 all = 0;
    for (auto& x : r) {
        u128 o = 0;
        for (u128 y : x.col) o |= y;
        if (o) q.push_back(std::move(x));
        all |= o;
    }
    if (q.empty()) return K(c);
    if (q.size() == 1 && w < 126) {
        XTerm& x = q[0];
        if (x.col[0]) {
            int k = bitsOf(x.col[0]) - 1;
            bool sh = true;
            for (size_t j = 0; j < x.col.size() && sh; j++)
                if (k + (int)j >= w || x.col[j] != (u128(1) << (k + j))) sh = false;
            if (sh) {
                int len = x.col.size();
                u128 M = maskw(len) << k;
                if ((c & M) == 0) {
                    Terms lt{{x.a, (i128)1 << k}};
                    return mkLin(lt, (i128)c, w);
                }
                if ((c & M) == M && x.a->lo == 0 && x.a->hi == maskw(len)) {
                    Terms lt{{x.a, -((i128)1 << k)}};
                    return mkLin(lt, (i128)c, w);
                }
            }
        }
    }
    Node n;
    n.k = KXLin;
    n.w = w;
    n.xt = std::move(q);
    n.xc = c;
    n.lo = 0;
    n.hi = maskw(bitsOf1(all | c));
    // a constant bit that no atom can clear gives a lower bound
    u128 fixed = c & ~all;
    n.lo = fixed;
    return V(intern(n));
}

static bool asX(V v, int w, std::vector<XTerm>& t, u128& c, bool nativeOnly) {
    if (v.isC()) { c ^= v.c; return true; }
    Node* n = v.n;
    auto ident = [&](Node* a, int sh) {
        XTerm x;
        x.a = a;
        for (int j = 0; j < a->w; j++) x.col.push_back(u128(1) << (sh + j));
        t.push_back(x);
    };
    switch (n->k) {
    case KXLin:
        for (auto& x : n->xt) t.push_back(x);
        c ^= n->xc;
        return true;
    case KLin: {
        if (n->exact) {
            // disjoint placement of atoms
            u128 used = 0;
            bool ok = n->c0 >= 0;
            if (ok) used = (u128)n->c0;
            std::vector<std::pair<Node*, int>> ps;
            for (auto& x : n->f->t) {
                if (!ok) break;
                i128 k = x.second * n->m;
                if (k <= 0 || (k & (k - 1))) { ok = false; break; }
                int sh = bitsOf((u128)k) - 1;
                // bits of the atom that can be set
                int bw = bitsOf1(x.first->hi);
                if (sh + bw > w) { ok = false; break; }
                u128 M = maskw(bw) << sh;
                if (used & M) { ok = false; break; }
                used |= M;
                ps.push_back({x.first, sh});
            }
            if (ok) {
                for (auto& p : ps) {
                    if (p.first->k == KXLin) {
                        for (auto& x : p.first->xt) {
                            XTerm y = x;
                            for (auto& z : y.col) z <<= p.second;
                            t.push_back(y);
                        }
                        c ^= p.first->xc << p.second;
                        continue;
                    }
                    XTerm x;
                    x.a = p.first;
                    for (int j = 0; j < p.first->w; j++) x.col.push_back(p.second + j < 128 ? (u128(1) << (p.second + j)) & maskw(w) : 0);
                    t.push_back(x);
                }
                c ^= (u128)n->c0;
                return true;
            }
        }
        // single power-of-two multiple of an atom modulo 2^w
        if (n->f->t.size() == 1 && n->c0 == 0) {
            u128 k = (u128)(n->m * n->f->t[0].second) & maskw(w);
            if (k && !(k & (k - 1))) {
                int sh = bitsOf(k) - 1;
                Node* a = n->f->t[0].first;
                std::vector<XTerm> at;
                u128 ac = 0;
                if (a->k == KXLin) { at = a->xt; ac = a->xc; }
                else {
                    XTerm x;
                    x.a = a;
                    for (int j = 0; j < a->w; j++) x.col.push_back(u128(1) << j);
                    at.push_back(x);
                }
                for (auto& x : at) {
                    for (auto& z : x.col) z = (z << sh) & maskw(w);
                    t.push_back(x);
                }
                c ^= (ac << sh) & maskw(w);
                return true;
            }
        }
        // affine over one small full-domain atom may still be GF(2)-linear (e.g. complement)
        Form* f; Shape* s;
        if (unary(v, w, f, s)) {
            bool ok;
            V x = shapeToX(f, s, w, ok);
            if (ok && x.n && x.n->k == KXLin) {
                for (auto& y : x.n->xt) t.push_back(y);
                c ^= x.n->xc;
                return true;
            }
            if (f->t.size() == 1 && f->lo == 0 && (((u128)f->hi + 1) & (u128)f->hi) == 0 && gf2lin(s)) {
                Node* a = f->t[0].first;
                if (a->k != KXLin) {
                    XTerm xx;
                    xx.a = a;
                    int k = bitsOf((u128)f->hi);
                    for (int j = 0; j < a->w; j++) xx.col.push_back(j < k ? (u128)(s->v[1ULL << j] ^ s->v[0]) : 0);
                    t.push_back(xx);
                    c ^= s->v[0];
                    return true;
                }
            }
        }
        if (nativeOnly) return false;
        ident(n, 0);
        return true;
    }
    case KSym:
    case KOp: ident(n, 0); return true;
    case KMod:
        if (nativeOnly) return false;
        ident(n, 0);
        return true;
    case KUn: {
        if (nativeOnly) return false;
        int tz;
        Node* k = coreTz(n, tz);
        ident(k, tz);
        return true;
    }
    }
    return false;
}

static u128 knownZero(V v, int w) { // mask of bits known to be zero
    u128 mk = maskw(w);
    if (v.isC()) return ~v.c & mk;
    Node* n = v.n;
    u128 hiz = mk & ~maskw(bitsOf(n->hi));
    if (n->hi == 0) hiz = mk;
    switch (n->k) {
    case KXLin: {
        u128 all = n->xc;
        for (auto& x : n->xt)
            for (u128 c : x.col) all |= c;
        return mk & ~all;
    }
    case KLin: {
        std::vector<XTerm> t;
        u128 c = 0;
        if (asX(v, w, t, c, true)) {
            u128 all = c;
            for (auto& x : t)
                for (size_t j = 0; j < x.col.size(); j++) all |= x.col[j];
            return (mk & ~all) | hiz;
        }
        u128 g = (u128)n->c0;
        for (auto& x : n->f->t) g |= (u128)(x.second * n->m);
        int tz = 0;
        while (tz < w && !((g >> tz) & 1)) tz++;
        return (maskw(tz ? tz : 0) & (tz ? mk : 0)) | hiz;
    }
    case KUn: {
        u64 all = 0;
        for (u64 x : n->s->v) all |= x;
        return mk & ~(u128)all;
    }
    case KOp:
        if (n->op == O_AND) return (knownZero(n->args[0], w) | knownZero(n->args[1], w)) & mk;
        if (n->op == O_OR || n->op == O_XOR) return knownZero(n->args[0], w) & knownZero(n->args[1], w) & mk;
        if (n->op == O_ITE) return (knownZero(n->args[1], w) & knownZero(n->args[2], w) & mk) | hiz;
        return hiz;
    default: return hiz;
    }
}

// ---------------------------------------------------------------- unary tables
struct UKey {
    int op, w, aw;
    uint32_t a, b, c;
    u128 ca, cb, cc;
    bool operator==(const UKey& o) const {
        return op == o.op && w == o.w && aw == o.aw && a == o.a && b == o.b && c == o.c && ca == o.ca && cb == o.cb && cc == o.cc;
    }
};
struct UHash {
    size_t operator()(const UKey& k) const {
        return mix128(mix128(mix128(mix(mix(mix(mix(mix(k.op, k.w), k.aw), k.a), k.b), k.c), k.ca), k.cb), k.cc);
    }
};
static std::unordered_map<UKey, Shape*, UHash> uCache;

// binary / unary op when all symbolic operands share a pivot
// v as a table over the pivot f, when f is a GF(2)-linear node and v is GF(2)-linear in its bits
static bool viewOver(V v, int w, Form* f, Shape*& out) {
    if (!v.n || w > 64 || f->t.size() != 1 || f->t[0].second != 1) return false;
    Node* P = f->t[0].first;
    if (P->k != KXLin || P->w > 16 || !smallForm(f)) return false;
    if (v.n->k != KXLin && v.n->k != KLin) return false;
    if (v.n->syms.size() > P->syms.size()) return false;
    static std::map<std::pair<Node*, std::pair<Form*, int>>, Shape*> cache;
    auto key = std::make_pair(v.n, std::make_pair(f, w));
    auto it = cache.find(key);
    if (it != cache.end()) { out = it->second; return out != nullptr; }
    cache[key] = nullptr;
    std::vector<XTerm> t;
    u128 c = 0;
    if (!asX(v, w, t, c, true)) return false;
    std::map<Node*, int> off;
    int nb = 0;
    for (auto& x : P->xt) { off[x.a] = nb; nb += x.a->w; }
    for (auto& x : t)
        if (!off.count(x.a)) return false;
    int words = (nb + 63) / 64;
    typedef std::vector<u64> Row;
    auto row = [&](const std::vector<XTerm>& ts, int bit) {
        Row r(words, 0);
        for (auto& x : ts)
            for (size_t j = 0; j < x.col.size(); j++)
                if ((x.col[j] >> bit) & 1) { int k = off[x.a] + (int)j; r[k / 64] ^= 1ULL << (k % 64); }
        return r;
    };
    // eliminate the rows of P, remembering the combination of P's bits
    std::vector<std::pair<Row, u64>> basis;
    std::vector<int> lead;
    auto reduce = [&](Row& r, u64& m) {
        for (size_t i = 0; i < basis.size(); i++)
            if ((r[lead[i] / 64] >> (lead[i] % 64)) & 1) {
                for (int k = 0; k < words; k++) r[k] ^= basis[i].first[k];
                m ^= basis[i].second;
            }
    };
    for (int b = 0; b < P->w; b++) {
        Row r = row(P->xt, b);
        u64 m = 1ULL << b;
        reduce(r, m);
        int l = -1;
        for (int k = 0; k < words && l < 0; k++)
            if (r[k]) l = k * 64 + __builtin_ctzll(r[k]);
        if (l < 0) continue;
        basis.push_back({r, m});
        lead.push_back(l);
    }
    std::vector<u64> sel(w, 0);
    for (int b = 0; b < w; b++) {
        Row r = row(t, b);
        u64 m = 0;
        reduce(r, m);
        for (u64 x : r)
            if (x) return false;
        sel[b] = m;
    }
    // value bit b = parity(sel[b] & (P ^ P.const)) ^ c[b]
    std::vector<u64> tab((size_t)(f->hi - f->lo + 1));
    u64 px = (u64)P->xc;
    for (size_t i = 0; i < tab.size(); i++) {
        u64 pv = ((u64)f->lo + i) ^ px, r = 0;
        for (int b = 0; b < w; b++)
            if (sel[b]) r |= (u64)(__builtin_popcountll(sel[b] & pv) & 1) << b;
        tab[i] = r ^ (u64)(c & maskw(w));
    }
    out = mkShape((i64)f->lo, (i64)f->hi, w, std::move(tab));
    cache[key] = out;
    return true;
}

static bool unOp(OpK op, V a, V b, int w, int aw, V& out) {
    if (w > 64 || aw > 64) return false;
    Form *fa = nullptr, *fb = nullptr;
    Shape *sa = nullptr, *sb = nullptr;
    int opw = aw ? aw : w;
    bool ua = a.isC() || unary(a, opw, fa, sa);
    bool ub = b.isC() || unary(b, opw, fb, sb);
    if (!ua && !ub) return false;
    if (!ua || !ub || (fa && fb && fa != fb)) {
        if (a.isC() || b.isC()) return false;
        if (ua && viewOver(b, opw, fa, sb)) fb = fa;
        else if (ub && viewOver(a, opw, fb, sa)) fa = fb;
        else return false;
    }
    Form* f = fa ? fa : fb;
    if (!f) return false;
    UKey k{op, w, aw, sa ? sa->id : 0, sb ? sb->id : 0, 0, sa ? 0 : a.c, sb ? 0 : b.c, 0};
    auto it = uCache.find(k);
    Shape* s;
    if (it != uCache.end())
        s = it->second;
    else {
        n_unops++;
        u64 N = (u64)(f->hi - f->lo + 1);
        std::vector<u64> v(N);
        bool allok = true;
        for (u64 i = 0; i < N; i++) {
            bool ok;
            v[i] = (u64)fold(op, sa ? sa->v[i] : a.c, sb ? sb->v[i] : b.c, w, opw, ok);
            if (!ok) { v[i] = 0; allok = false; }
        }
        (void)allok; // division by zero is checked by the executor before it gets here
        s = mkShape((i64)f->lo, (i64)f->hi, w, std::move(v));
        uCache[k] = s;
    }
    std::vector<V> args{a, b};
    out = mkUn(f, s, w, op, args, opw);
    return true;
}

static bool unIte(V c, V a, V b, int w, V& out) {
    if (w > 64) return false;
    Form *f = nullptr, *g;
    Shape *sc = nullptr, *sa = nullptr, *sb = nullptr;
    if (!unary(c, 1, f, sc)) return false;
    if (!a.isC() && !(unary(a, w, g, sa) && g == f) && !viewOver(a, w, f, sa)) return false;
    if (!b.isC() && !(unary(b, w, g, sb) && g == f) && !viewOver(b, w, f, sb)) return false;
    UKey k{O_ITE, w, 0, sc->id, sa ? sa->id : 0, sb ? sb->id : 0, 0, sa ? 0 : a.c, sb ? 0 : b.c};
    auto it = uCache.find(k);
    Shape* s;
    if (it != uCache.end())
        s = it->second;
    else {
        n_unops++;
        u64 N = (u64)(f->hi - f->lo + 1);
        std::vector<u64> v(N);
        for (u64 i = 0; i < N; i++) v[i] = sc->v[i] ? (sa ? sa->v[i] : (u64)a.c) : (sb ? sb->v[i] : (u64)b.c);
        s = mkShape((i64)f->lo, (i64)f->hi, w, std::move(v));
        uCache[k] = s;
    }
    std::vector<V> args{c, a, b};
    out = mkUn(f, s, w, O_ITE, args, 1);
    return true;
}

// ---------------------------------------------------------------- operations
static bool isX(V v) { return v.n && v.n->k == KXLin; }

V add(V a, V b, int w) {
    if (a.isC() && b.isC()) return K((a.c + b.c) & maskw(w));
    if (b.isC() && b.c == 0) return a;
    if (a.isC() && a.c == 0) return b;
    if (w == 1) return bxor(a, b, 1);
    V r;
    if (unOp(O_ADD, a, b, w, 0, r)) return r;
    Terms t;
    i128 c = 0;
    asLin(a, w, t, c, 1, false);
    asLin(b, w, t, c, 1, false);
    return mkLin(t, c, w);
}
V sub(V a, V b, int w) {
    if (a.isC() && b.isC()) return K((a.c - b.c) & maskw(w));
    if (b.isC() && b.c == 0) return a;
    if (a == b) return K(0);
    if (w == 1) return bxor(a, b, 1);
    V r;
    if (unOp(O_SUB, a, b, w, 0, r)) return r;
    Terms t;
    i128 c = 0;
    asLin(a, w, t, c, 1, false);
    asLin(b, w, t, c, -1, false);
    return mkLin(t, c, w);
}
static bool isBool01(V v) { return v.n && v.n->hi <= 1; }
V mul(V a, V b, int w) {
    if (a.isC() && b.isC()) return K((a.c * b.c) & maskw(w));
    if (a.isC()) std::swap(a, b);
    if (b.isC()) {
        if (b.c == 0) return K(0);
        if (b.c == 1) return a;
        if (isX(a) && !(b.c & (b.c - 1))) return shl(a, K(bitsOf(b.c) - 1), w);
        V r;
        if (unOp(O_MUL, a, b, w, 0, r)) return r;
        Terms t;
        i128 c = 0;
        asLin(a, w, t, c, (i128)b.c, false);
        return mkLin(t, c, w);
    }
    V r;
    if (unOp(O_MUL, a, b, w, 0, r)) return r;
    if (isBool01(a)) return ite(trunc(a, w, 1), b, K(0), w);
    if (isBool01(b)) return ite(trunc(b, w, 1), a, K(0), w);
    u128 lo = 0, hi = maskw(w);
    {
        u128 x;
        if (a.n->hi < (u128(1) << 64) && b.n->hi < (u128(1) << 64)) {
            x = (u128)a.n->hi * b.n->hi;
            if (x <= maskw(w)) { hi = x; lo = a.n->lo * b.n->lo; }
        }
    }
    if (a.n->id > b.n->id) std::swap(a, b);
    return mkOp(O_MUL, w, {a, b}, 0, lo, hi); // exact when hi is the product of the upper bounds (mulExact)
}

V urem(V a, V b, int w) {
    if (a.isC() && b.isC()) return b.c ? K(a.c % b.c) : K(0);
    if (b.isC()) {
        if (b.c == 0) return K(0);
        if (b.c == 1) return K(0);
        if (!(b.c & (b.c - 1))) return band(a, K(b.c - 1), w);
        if (a.n->hi < b.c) return a;
        V r;
        Terms t;
        i128 c = 0;
        bool opaque = a.n->k == KOp || a.n->k == KSym || (a.n->k == KLin && !a.n->exact);
        if (a.n->k == KUn && unOp(O_UREM, a, b, w, 0, r)) return r;
        if (opaque && unOp(O_UREM, a, b, w, 0, r) && !(r.n && r.n->k == KUn)) return r;
        if (b.c < (u128(1) << 100)) {
            asLin(a, w, t, c, 1, true);
            return mkMod(t, c, b.c, w);
        }
    }
    V r;
    if (unOp(O_UREM, a, b, w, 0, r)) return r;
    u128 lo, hi;
    interval(b, lo, hi);
    u128 alo, ahi;
    interval(a, alo, ahi);
    return mkOp(O_UREM, w, {a, b}, 0, 0, std::min(ahi, hi ? hi - 1 : 0));
}
V udiv(V a, V b, int w) {
    if (a.isC() && b.isC()) return b.c ? K(a.c / b.c) : K(0);
    if (b.isC()) {
        if (b.c == 0) return K(0);
        if (b.c == 1) return a;
        if (!(b.c & (b.c - 1))) return lshr(a, K(bitsOf(b.c) - 1), w);
        if (a.n->hi < b.c) return K(0);
    }
    V r;
    if (unOp(O_UDIV, a, b, w, 0, r)) return r;
    if (b.isC() && a.n->k == KLin && a.n->exact) {
        // split into multiples of the divisor and a remainder in [0,d)
        Terms h, l;
        i128 d = (i128)b.c, hc = 0, lc = 0;
        for (auto& x : a.n->f->t) {
            i128 k = x.second * a.n->m;
            if (k % d == 0) addTerm(h, x.first, k / d);
            else addTerm(l, x.first, k);
        }
        hc = a.n->c0 / d;
        lc = a.n->c0 % d;
        if (lc < 0) { lc += d; hc--; }
        V lv = mkLin(l, lc, w);
        u128 lo, hi;
        interval(lv, lo, hi);
        if (!h.empty() && (lv.isC() || lv.n->k != KLin || lv.n->exact) && hi < b.c) return mkLin(h, hc, w);
    }
    u128 lo, hi, blo, bhi;
    interval(a, lo, hi);
    interval(b, blo, bhi);
    return mkOp(O_UDIV, w, {a, b}, 0, bhi ? lo / bhi : 0, blo ? hi / blo : maskw(w));
}
static bool nonneg(V v, int w) {
    u128 lo, hi;
    interval(v, lo, hi);
    return hi < (u128(1) << (w - 1));
}
V sdiv(V a, V b, int w) {
    bool ok;
    if (a.isC() && b.isC()) return K(fold(O_SDIV, a.c, b.c, w, w, ok));
    if (nonneg(a, w) && nonneg(b, w)) return udiv(a, b, w);
    V r;
    if (unOp(O_SDIV, a, b, w, 0, r)) return r;
    return mkOp(O_SDIV, w, {a, b});
}
V srem(V a, V b, int w) {
    bool ok;
    if (a.isC() && b.isC()) return K(fold(O_SREM, a.c, b.c, w, w, ok));
    if (nonneg(a, w) && nonneg(b, w)) return urem(a, b, w);
    V r;
    if (unOp(O_SREM, a, b, w, 0, r)) return r;
    return mkOp(O_SREM, w, {a, b});
}

V extract(V a, int from, int lo, int len) {
    if (a.isC()) return K((a.c >> lo) & maskw(len));
    if (lo == 0 && len == from) return a;
    Node* n = a.n;
    if (lo >= bitsOf1(n->hi)) return K(0);
    if (lo == 0 && n->hi <= maskw(len)) { // value preserved
        if (n->k == KXLin) {
            std::vector<XTerm> t = n->xt;
            return mkX(t, n->xc, len);
        }
        Terms t;
        i128 c = 0;
        asLin(a, from, t, c, 1, true);
        return mkLin(t, c, len);
    }
    if (n->k == KXLin) {
        std::vector<XTerm> t = n->xt;
        for (auto& x : t)
            for (auto& c : x.col) c = (c >> lo) & maskw(len);
        return mkX(t, (n->xc >> lo) & maskw(len), len);
    }
    if (from <= 64) {
        V r;
        Form* f;
        Shape* s;
        if (unary(a, from, f, s)) {
            V t1 = a;
            if (lo) unOp(O_LSHR, a, K(lo), from, 0, t1);
            if (t1.isC()) return K(t1.c & maskw(len));
            if (unOp(O_TRUNC, t1, K(0), len, from, r)) return r;
        }
    }
    if (n->k == KLin) {
        // native bit placement?
        std::vector<XTerm> t;
        u128 c = 0;
        if (asX(a, from, t, c, true)) {
            for (auto& x : t)
                for (auto& y : x.col) y = (y >> lo) & maskw(len);
            return mkX(t, (c >> lo) & maskw(len), len);
        }
        if (lo == 0) { // truncation is linear modulo 2^len
            Terms lt;
            i128 lc = 0;
            asLin(a, from, lt, lc, 1, false);
            return mkLin(lt, lc, len);
        }
        if (n->exact) {
            Terms h, l;
            i128 d = (i128)1 << lo, hc = 0, lc = 0;
            for (auto& x : n->f->t) {
                i128 k = x.second * n->m;
                if (k % d == 0) addTerm(h, x.first, k / d);
                else addTerm(l, x.first, k);
            }
            hc = n->c0 / d;
            lc = n->c0 % d;
            if (lc < 0) { lc += d; hc--; }
            if (!h.empty()) {
                V lv = mkLin(l, lc, from);
                u128 a0, a1;
                interval(lv, a0, a1);
                bool lex = lv.isC() || lv.n->k != KLin || lv.n->exact;
                if (lex && a1 < (u128)d) return mkLin(h, hc, len);
            }
        }
    }
    std::vector<XTerm> t;
    u128 c = 0;
    asX(a, from, t, c, false);
    for (auto& x : t)
        for (auto& y : x.col) y = (y >> lo) & maskw(len);
    return mkX(t, (c >> lo) & maskw(len), len);
}

V trunc(V a, int from, int to) {
    if (a.isC()) return K(a.c & maskw(to));
    return extract(a, from, 0, to);
}
V zext(V a, int from, int to) {
    if (a.isC() || from == to) return a;
    Node* n = a.n;
    if (n->k == KXLin) {
        std::vector<XTerm> t = n->xt;
        return mkX(t, n->xc, to);
    }
    if (n->k == KUn && to <= 64) return mkUn(n->f, n->s, to, O_ZEXT, {a}, from);
    Terms t;
    i128 c = 0;
    asLin(a, from, t, c, 1, true);
    return mkLin(t, c, to);
}
V sext(V a, int from, int to) {
    if (a.isC()) return K((u128)sxt(a.c, from) & maskw(to));
    if (from == to) return a;
    if (from > 1 && nonneg(a, from)) return zext(a, from, to);
    V r;
    if (unOp(O_SEXT, a, K(0), to, from, r)) return r;
    // signed-exact linear form
    if (a.n->k == KLin && !a.n->f->big) {
        Node* n = a.n;
        i128 x = n->f->lo * n->m, y = n->f->hi * n->m;
        if (x > y) std::swap(x, y);
        i128 half = (i128)1 << (from - 1);
        i128 base = x + n->c0;
        // representative with base in [-half, half)
        i128 M = (i128)1 << from;
        i128 q = base + half;
        i128 k = q / M;
        if (q % M < 0) k--;
        i128 c = n->c0 - k * M;
        if (y + c < half) {
            Terms t = n->f->t;
            for (auto& z : t) z.second *= n->m;
            return mkLin(t, c, to);
        }
    }
    V s = extract(a, from, from - 1, 1);
    std::vector<XTerm> t, ts;
    u128 c = 0, cs = 0;
    asX(a, from, t, c, false);
    asX(s, 1, ts, cs, false);
    u128 ext = maskw(to) & ~maskw(from);
    for (auto& x : ts) {
        for (auto& y : x.col) y = y ? ext : 0;
        t.push_back(x);
    }
    if (cs) c ^= ext;
    return mkX(t, c, to);
}
V concat(V h, int wh, V l, int wl) {
    if (h.isC() && l.isC()) return K((h.c << wl) | l.c);
    if (h.isC() && h.c == 0) return zext(l, wl, wh + wl);
    std::vector<XTerm> t, th;
    u128 c = 0, ch = 0;
    asX(l, wl, t, c, false);
    asX(h, wh, th, ch, false);
    for (auto& x : th) {
        for (auto& y : x.col) y <<= wl;
        t.push_back(x);
    }
    V r = mkX(t, c | (ch << wl), wh + wl);
    return r;
}

V shl(V a, V b, int w) {
    if (b.isC()) {
        if (b.c >= (u128)w) return K(0);
        int k = (int)b.c;
        if (k == 0) return a;
        if (a.isC()) return K((a.c << k) & maskw(w));
        if (isX(a)) {
            std::vector<XTerm> t = a.n->xt;
            for (auto& x : t)
                for (auto& c : x.col) c = (c << k) & maskw(w);
            return mkX(t, (a.n->xc << k) & maskw(w), w);
        }
        V r;
        if (unOp(O_SHL, a, b, w, 0, r)) return r;
        Terms t;
        i128 c = 0;
        asLin(a, w, t, c, (i128)1 << k, false);
        return mkLin(t, c, w);
    }
    V r;
    if (unOp(O_SHL, a, b, w, 0, r)) return r;
    return mkOp(O_SHL, w, {a, b});
}
V lshr(V a, V b, int w) {
    if (b.isC()) {
        if (b.c >= (u128)w) return K(0);
        int k = (int)b.c;
        if (k == 0) return a;
        if (a.isC()) return K(a.c >> k);
        return zext(extract(a, w, k, w - k), w - k, w);
    }
    V r;
    if (unOp(O_LSHR, a, b, w, 0, r)) return r;
    u128 lo, hi;
    interval(a, lo, hi);
    return mkOp(O_LSHR, w, {a, b}, 0, 0, hi);
}
V ashr(V a, V b, int w) {
    bool ok;
    if (a.isC() && b.isC()) return K(fold(O_ASHR, a.c, b.c, w, w, ok));
    if (b.isC()) {
        int k = b.c >= (u128)w ? w - 1 : (int)b.c;
        if (k == 0) return a;
        if (nonneg(a, w)) return lshr(a, K(k), w);
        V r;
        if (unOp(O_ASHR, a, K(k), w, 0, r)) return r;
        return sext(extract(a, w, k, w - k), w - k, w);
    }
    V r;
    if (unOp(O_ASHR, a, b, w, 0, r)) return r;
    return mkOp(O_ASHR, w, {a, b});
}

// value set {0, all ones}?
static bool isMask(V v, int w, V& bit) {
    Form* f;
    Shape* s;
    if (!v.n || w < 2 || w > 64) return false;
    if (v.n->k == KXLin) { // replicated single bit
        u64 ones = (u64)maskw(w);
        if (v.n->xc != 0 && v.n->xc != ones) return false;
        for (auto& x : v.n->xt)
            for (u128 c : x.col)
                if (c != 0 && c != ones) return false;
        bit = extract(v, w, 0, 1);
        return true;
    }
    if (v.n->hi != maskw(w)) return false;
    if (!unary(v, w, f, s)) return false;
    u64 ones = (u64)maskw(w);
    for (u64 x : s->v)
        if (x != 0 && x != ones) return false;
    bit = extract(v, w, 0, 1);
    return true;
}

V band(V a, V b, int w) {
    if (a.isC() && b.isC()) return K(a.c & b.c);
    if (a.isC()) std::swap(a, b);
    if (a == b) return a;
    if (b.isC()) {
        if (b.c == 0) return K(0);
        if (b.c == maskw(w)) return a;
        u128 kz = knownZero(a, w);
        if ((b.c | kz) == maskw(w)) return a;
        if ((b.c & ~kz & maskw(w)) == 0) return K(0);
        if (isX(a)) {
            std::vector<XTerm> t = a.n->xt;
            for (auto& x : t)
                for (auto& c : x.col) c &= b.c;
            return mkX(t, a.n->xc & b.c, w);
        }
        V r;
        if (unOp(O_AND, a, b, w, 0, r)) return r;
        // contiguous mask -> extract + shift
        u128 m = b.c;
        int lo = 0;
        while (!((m >> lo) & 1)) lo++;
        int hi = bitsOf(m);
        if ((m >> lo) == maskw(hi - lo)) {
            V e = extract(a, w, lo, hi - lo);
            return shl(zext(e, hi - lo, w), K(lo), w);
        }
        std::vector<XTerm> t;
        u128 c = 0;
        asX(a, w, t, c, false);
        for (auto& x : t)
            for (auto& y : x.col) y &= b.c;
        return mkX(t, c & b.c, w);
    }
    V r;
    if (unOp(O_AND, a, b, w, 0, r)) return r;
    V bit;
    if (isMask(a, w, bit)) return ite(bit, b, K(0), w);
    if (isMask(b, w, bit)) return ite(bit, a, K(0), w);
    if (w == 1 && bnot1(a) == b) return K(0);
    if (a.n->id > b.n->id) std::swap(a, b);
    return mkOp(O_AND, w, {a, b}, 0, 0, std::min(a.n->hi, b.n->hi));
}
V bor(V a, V b, int w) {
    if (a.isC() && b.isC()) return K(a.c | b.c);
    if (a.isC()) std::swap(a, b);
    if (a == b) return a;
    if (b.isC() && b.c == 0) return a;
    if (b.isC() && b.c == maskw(w)) return b;
    u128 za = knownZero(a, w), zb = knownZero(b, w);
    if ((za | zb) == maskw(w)) {
        // disjoint
        bool useX = isX(a) || isX(b);
        if (!useX) {
            V r;
            if (unOp(O_OR, a, b, w, 0, r)) return r;
        }
        std::vector<XTerm> t;
        u128 c = 0;
        asX(a, w, t, c, false);
        asX(b, w, t, c, false);
        return mkX(t, c, w);
    }
    if (b.isC()) {
        // (a & ~c) | c
        if (isX(a)) return bxor(band(a, K(~b.c & maskw(w)), w), b, w);
    }
    V r;
    if (unOp(O_OR, a, b, w, 0, r)) return r;
    if (b.isC()) return bxor(band(a, K(~b.c & maskw(w)), w), b, w);
    V bit;
    if (isMask(a, w, bit)) return ite(bit, K(maskw(w)), b, w);
    if (isMask(b, w, bit)) return ite(bit, K(maskw(w)), a, w);
    if (w == 1 && bnot1(a) == b) return K(1);
    if (a.n->id > b.n->id) std::swap(a, b);
    u128 hi = maskw(bitsOf1(a.n->hi | b.n->hi));
    return mkOp(O_OR, w, {a, b}, 0, std::max(a.n->lo, b.n->lo), hi);
}
V bxor(V a, V b, int w) {
    if (a.isC() && b.isC()) return K(a.c ^ b.c);
    if (a == b) return K(0);
    if (a.isC()) std::swap(a, b);
    if (b.isC() && b.c == 0) return a;
    std::vector<XTerm> t;
    u128 c = 0;
    if ((isX(a) || isX(b) || w > 1) && asX(a, w, t, c, true) && asX(b, w, t, c, true)) return mkX(t, c, w);
    V r;
    if (unOp(O_XOR, a, b, w, 0, r)) return r;
    t.clear();
    c = 0;
    asX(a, w, t, c, false);
    asX(b, w, t, c, false);
    return mkX(t, c, w);
}

static bool modView(V v, u128& p, Terms& t, i128& c, int w) {
    // v as a single Mod atom plus nothing
    if (!v.n) return false;
    if (v.n->k == KMod) { p = v.n->p; t = v.n->mt; c = v.n->c0; return true; }
    if (v.n->k == KLin && v.n->exact && v.n->f->t.size() == 1 && v.n->m == 1 && v.n->c0 == 0 && v.n->f->t[0].first->k == KMod)
        return modView(V(v.n->f->t[0].first), p, t, c, w);
    return false;
}

V eq(V a, V b, int w) {
    if (a.isC() && b.isC()) return K(a.c == b.c);
    if (a == b) return K(1);
    if (a.isC()) std::swap(a, b);
    u128 al, ah, bl, bh;
    interval(a, al, ah);
    interval(b, bl, bh);
    if (ah < bl || bh < al) return K(0);
    if (w == 1) {
        if (b.isC()) return b.c ? a : bnot1(a);
        return bnot1(bxor(a, b, 1));
    }
    if (isX(a) || isX(b)) {
        std::vector<XTerm> t;
        u128 c = 0;
        asX(a, w, t, c, false);
        asX(b, w, t, c, false);
        V d = mkX(t, c, w);
        if (d.isC()) return K(d.c == 0);
        if (d.n->k == KXLin) {
            u128 all = 0;
            for (auto& x : d.n->xt)
                for (u128 y : x.col) all |= y;
            if (d.n->xc & ~all) return K(0);
            if (w > 64) { // the bits in use may be narrow
                int tz = 0;
                while (!((all >> tz) & 1)) tz++;
                int len = bitsOf(all) - tz;
                if (len <= 64) {
                    std::vector<XTerm> q = d.n->xt;
                    for (auto& x : q)
                        for (u128& y : x.col) y >>= tz;
                    V e = mkX(q, d.n->xc >> tz, len);
                    return eq(e, K(0), len);
                }
            }
            V r;
            if (unOp(O_EQ, d, K(0), 1, w, r)) return r;
            // a single possible bit: the comparison is that bit
            if (!(all & (all - 1)) && !(d.n->xc & ~all)) {
                int k = bitsOf(all) - 1;
                return bnot1(extract(d, w, k, 1));
            }
            return mkOp(O_EQ, 1, {d, K(0)}, w);
        }
        V r;
        if (unOp(O_EQ, d, K(0), 1, w, r)) return r;
        return mkOp(O_EQ, 1, {d, K(0)}, w);
    }
    V r;
    if (unOp(O_EQ, a, b, 1, w, r)) return r;
    // modular difference
    {
        u128 p = 0, q = 0;
        Terms ta, tb;
        i128 ca = 0, cb = 0;
        bool ma = modView(a, p, ta, ca, w), mb = modView(b, q, tb, cb, w);
        u128 P = ma ? p : q;
        if ((ma || mb) && (!ma || !mb || p == q)) {
            bool ok = true;
            if (!ma) {
                ta.clear();
                ca = 0;
                ok = ah < P;
                asLin(a, w, ta, ca, 1, true);
            }
            if (!mb) {
                tb.clear();
                cb = 0;
                ok = ok && bh < P;
                asLin(b, w, tb, cb, 1, true);
            }
            if (ok) {
                Terms d = ta;
                for (auto& x : tb) addTerm(d, x.first, -x.second);
                V m = mkMod(d, ca - cb, P, 128);
                if (m.isC()) return K(m.c == 0);
            }
        }
    }
    // integer difference of exact linear values
    {
        Terms t;
        i128 c = 0;
        asLin(a, w, t, c, 1, true);
        asLin(b, w, t, c, -1, true);
        if (t.empty()) return K(c == 0);
        Terms tt = t;
        i128 m;
        Form* f = normForm(tt, m);
        if (!f->big) {
            // m*f + c == 0
            if (c % m != 0) return K(0);
            i128 v = -c / m;
            if (v < f->lo || v > f->hi) return K(0);
            if (smallForm(f)) {
                std::vector<u64> tv((u64)(f->hi - f->lo + 1), 0);
                tv[(u64)(v - f->lo)] = 1;
                return mkUn(f, mkShape((i64)f->lo, (i64)f->hi, 1, std::move(tv)), 1, O_EQ, {a, b}, w);
            }
        }
    }
    if (!b.isC() && a.n->id > b.n->id) std::swap(a, b);
    return mkOp(O_EQ, 1, {a, b}, w);
}

static bool linCmp(V a, V b, int w, bool sgn, OpK op, V& out) {
    // exact integer comparison a < b through the pivot a-b
    auto view = [&](V v, Terms& t, i128& c, i128 mul) -> bool {
        if (v.isC()) { c += mul * (sgn ? sxt(v.c, w) : (i128)v.c); return true; }
        Node* n = v.n;
        if (!sgn || n->hi < (u128(1) << (w - 1))) {
            if (n->k == KLin && !n->exact) {
                addTerm(t, n, mul);
                return true;
            }
            asLin(v, w, t, c, mul, true);
            return true;
        }
        if (n->k == KLin && !n->f->big && w < 120) {
            i128 x = n->f->lo * n->m, y = n->f->hi * n->m;
            if (x > y) std::swap(x, y);
            i128 half = (i128)1 << (w - 1), M = (i128)1 << w, q = x + n->c0 + half, k = q / M;
            if (q % M < 0) k--;
            i128 cc = n->c0 - k * M;
            if (y + cc >= half) return false;
            for (auto& z : n->f->t) addTerm(t, z.first, z.second * n->m * mul);
            c += cc * mul;
            return true;
        }
        return false;
    };
    if (w >= 120) return false;
    Terms t;
    i128 c = 0;
    if (!view(a, t, c, 1) || !view(b, t, c, -1)) return false;
    if (t.empty()) { out = K(c < 0); return true; }
    i128 m;
    Form* f = normForm(t, m);
    if (f->big) return false;
    i128 x = f->lo * m + c, y = f->hi * m + c;
    if (x > y) std::swap(x, y);
    if (y < 0) { out = K(1); return true; }
    if (x >= 0) { out = K(0); return true; }
    if (smallForm(f)) {
        u64 N = (u64)(f->hi - f->lo + 1);
        std::vector<u64> tv(N);
        i128 v = f->lo * m + c;
        for (u64 i = 0; i < N; i++, v += m) tv[i] = v < 0;
        out = mkUn(f, mkShape((i64)f->lo, (i64)f->hi, 1, std::move(tv)), 1, op, {a, b}, w);
        return true;
    }
    return false;
}

V ult(V a, V b, int w) {
    if (a.isC() && b.isC()) return K(a.c < b.c);
    if (a == b) return K(0);
    u128 al, ah, bl, bh;
    interval(a, al, ah);
    interval(b, bl, bh);
    if (ah < bl) return K(1);
    if (al >= bh) return K(0);
    if (w == 1) return band(bnot1(a), b, 1);
    V r;
    if (unOp(O_ULT, a, b, 1, w, r)) return r;
    if (b.isC() && !(b.c & (b.c - 1)) && isX(a)) { // a < 2^k : high bits zero
        int k = bitsOf(b.c) - 1;
        return eq(extract(a, w, k, w - k), K(0), w - k);
    }
    if (linCmp(a, b, w, false, O_ULT, r)) return r;
    return mkOp(O_ULT, 1, {a, b}, w);
}
V slt(V a, V b, int w) {
    bool ok;
    if (a.isC() && b.isC()) return K(fold(O_SLT, a.c, b.c, 1, w, ok));
    if (a == b) return K(0);
    if (w == 1) return band(a, bnot1(b), 1);
    if (nonneg(a, w) && nonneg(b, w)) return ult(a, b, w);
    V r;
    if (unOp(O_SLT, a, b, 1, w, r)) return r;
    if (b.isC() && b.c == 0) return extract(a, w, w - 1, 1).isC() || !(a.n->k == KLin) ? extract(a, w, w - 1, 1)
                                     : (linCmp(a, b, w, true, O_SLT, r) ? r : extract(a, w, w - 1, 1));
    if (b.isC() && b.c == maskw(w)) { // a < -1 <=> a <= -2 ; a > -1 <=> a >= 0 handled by swapped form
        if (linCmp(a, b, w, true, O_SLT, r)) return r;
    }
    if (a.isC() && a.c == maskw(w)) return bnot1(slt(b, K(0), w));
    if (linCmp(a, b, w, true, O_SLT, r)) return r;
    return mkOp(O_SLT, 1, {a, b}, w);
}

// substitute the atom x by a term of the same value range; `fail` when a part cannot be rebuilt
static bool dependsOn(Node* n, Node* x) {
    return std::find_first_of(n->syms.begin(), n->syms.end(), x->syms.begin(), x->syms.end()) != n->syms.end();
}
V substV(V v, int w, Node* x, V val, int wv, std::unordered_map<Node*, V>& memo, bool& fail) {
    if (!v.n || fail) return v;
    Node* n = v.n;
    if (n == x) return wv == w ? val : wv > w ? trunc(val, wv, w) : zext(val, wv, w);
    if (!dependsOn(n, x)) return v;
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    V r = v;
    auto atomSub = [&](Node* a) { return a == x ? val : substV(V(a), a->w, x, val, wv, memo, fail); };
    auto asub = [&](Node* a, Terms& t, i128& c, i128 k) { asLin(atomSub(a), a == x ? wv : a->w, t, c, k, true); };
    switch (n->k) {
    case KSym: break;
    case KLin: {
        Terms t;
        i128 c = n->c0;
        for (auto& y : n->f->t) {
            i128 k = (i128)((u128)y.second * (u128)n->m);
            if (!dependsOn(y.first, x) && y.first != x) { addTerm(t, y.first, k); continue; }
            asub(y.first, t, c, k);
        }
        r = mkLin(t, c, w);
        break;
    }
    case KMod: {
        Terms t;
        i128 c = n->c0;
        i128 P = (i128)n->p;
        for (auto& y : n->mt) {
            if (!dependsOn(y.first, x) && y.first != x) { addTerm(t, y.first, y.second); continue; }
            Terms q;
            i128 qc = 0;
            asub(y.first, q, qc, 1);
            for (auto& z : q) addTerm(t, z.first, (i128)((z.second % P) * (y.second % P) % P));
            c += (qc % P) * (y.second % P) % P;
        }
        r = mkMod(t, c, n->p, w);
        break;
    }
    case KXLin: {
        std::vector<XTerm> t;
        u128 c = n->xc;
        for (auto& y : n->xt) {
            if (!dependsOn(y.a, x) && y.a != x) { t.push_back(y); continue; }
            V s = y.a == x && wv > x->w ? trunc(val, wv, x->w) : atomSub(y.a);
            std::vector<XTerm> q;
            u128 qc = 0;
            if (fail || !asX(s, y.a->w, q, qc, false)) { fail = true; return v; }
            auto app = [&](u128 z) {
                u128 o = 0;
                for (size_t b = 0; b < y.col.size(); b++)
                    if ((z >> b) & 1) o ^= y.col[b];
                return o;
            };
            c ^= app(qc);
            for (auto& z : q) {
                XTerm e;
                e.a = z.a;
                for (u128 col : z.col) e.col.push_back(app(col));
                t.push_back(e);
            }
        }
        r = mkX(t, c, w);
        break;
    }
    case KUn: {
        Terms t;
        i128 c = 0;
        for (auto& y : n->f->t) asub(y.first, t, c, y.second);
        V g = mkLin(t, c, 64); // the pivot's value (two's complement)
        if (g.isC()) {
            i128 q = sxt(g.c, 64);
            if (q < n->s->lo || q > n->s->hi) { fail = true; return v; }
            r = K(n->s->v[(u64)(q - n->s->lo)]);
            break;
        }
        Form* f2;
        Shape* s2;
        if (!unary(g, 64, f2, s2)) { fail = true; return v; }
        std::vector<u64> tv(s2->v.size());
        for (size_t i = 0; i < tv.size(); i++) {
            i128 q = sxt(s2->v[i], 64);
            // a pivot value outside the table cannot occur together with the equality that defines the substitution
            tv[i] = q < n->s->lo || q > n->s->hi ? n->s->v[0] : n->s->v[(u64)(q - n->s->lo)];
        }
        r = mkUn(f2, mkShape(s2->lo, s2->hi, w, std::move(tv)), w, O_NONE, {}, w);
        break;
    }
    case KOp: {
        auto A = [&](size_t i, int ww) { return substV(n->args[i], ww, x, val, wv, memo, fail); };
        int aw = n->args[0].n ? n->args[0].n->w : n->args.size() > 1 && n->args[1].n ? n->args[1].n->w : 0;
        switch (n->op) {
        case O_ADD: r = add(A(0, w), A(1, w), w); break;
        case O_SUB: r = sub(A(0, w), A(1, w), w); break;
        case O_MUL: r = mul(A(0, w), A(1, w), w); break;
        case O_UDIV: r = udiv(A(0, w), A(1, w), w); break;
        case O_UREM: r = urem(A(0, w), A(1, w), w); break;
        case O_AND: r = band(A(0, w), A(1, w), w); break;
        case O_OR: r = bor(A(0, w), A(1, w), w); break;
        case O_XOR: r = bxor(A(0, w), A(1, w), w); break;
        case O_EQ: if (aw <= 0) fail = true; else r = eq(A(0, aw), A(1, aw), aw); break;
        case O_ULT: if (aw <= 0) fail = true; else r = ult(A(0, aw), A(1, aw), aw); break;
        case O_SLT: if (aw <= 0) fail = true; else r = slt(A(0, aw), A(1, aw), aw); break;
        default: fail = true;
        }
        break;
    }
    }
    if (fail) return v;
    memo[n] = r;
    return r;
}

// substitute atom x := val
static V substAtom(V v, int w, Node* x, u128 val, bool& ch) {
    if (!v.n) return v;
    Node* n = v.n;
    if (std::find_first_of(n->syms.begin(), n->syms.end(), x->syms.begin(), x->syms.end()) == n->syms.end()) return v;
    switch (n->k) {
    case KLin: {
        Terms t;
        i128 c = n->c0;
        bool hit = false;
        for (auto& y : n->f->t) {
            if (y.first == x) { c += y.second * n->m * (i128)val; hit = true; }
            else addTerm(t, y.first, y.second * n->m);
        }
        if (!hit) return v;
        ch = true;
        return mkLin(t, c, w);
    }
    case KMod: {
        if (n == x) { ch = true; return K(val); }
        Terms t;
        i128 c = n->c0;
        bool hit = false;
        for (auto& y : n->mt) {
            if (y.first == x) { c += (i128)(((u128)y.second * val) % n->p); hit = true; }
            else addTerm(t, y.first, y.second);
        }
        if (!hit) return v;
        ch = true;
        return mkMod(t, c, n->p, w);
    }
    case KXLin: {
        if (n == x) { ch = true; return K(val); }
        std::vector<XTerm> t;
        u128 c = n->xc;
        bool hit = false;
        for (auto& y : n->xt) {
            if (y.a == x) {
                hit = true;
                for (size_t j = 0; j < y.col.size(); j++)
                    if ((val >> j) & 1) c ^= y.col[j];
            } else
                t.push_back(y);
        }
        if (!hit) return v;
        ch = true;
        return mkX(t, c, w);
    }
    case KUn:
        if (n->f->t.size() == 1 && n->f->t[0].first == x) {
            ch = true;
            return K(n->s->v[(u64)((i128)val - n->s->lo)]);
        }
        return v;
    default:
        if (n == x) { ch = true; return K(val); }
        return v;
    }
}
V substForm(V v, int w, Form* f, i128 val, bool& ch) {
    if (!v.n) return v;
    Node* n = v.n;
    if (n->k == KUn && n->f == f) { ch = true; return K(n->s->v[(u64)(val - n->s->lo)]); }
    if (n->k == KLin && n->f == f) { ch = true; return K((u128)(n->m * val + n->c0) & maskw(w)); }
    if (f->t.size() == 1) {
        Node* x = f->t[0].first;
        V r = substAtom(v, w, x, (u128)val, ch);
        // the pivot may be a Mod atom nested in a Lin wrapper of v
        return r;
    }
    // multi-term pivot: use it to eliminate its first unit-coefficient atom from Lin / Mod
    for (auto& pv : f->t) {
        if (pv.second != 1 && pv.second != -1) continue;
        Node* x = pv.first;
        // x = s*(val - rest)
        auto elim = [&](const Terms& in, i128 mult, Terms& out, i128& c) -> bool {
            i128 k = 0;
            for (auto& y : in)
                if (y.first == x) k = y.second * mult;
            if (!k) return false;
            for (auto& y : in)
                if (y.first != x) addTerm(out, y.first, y.second * mult);
            i128 s = pv.second;
            c += k * s * val;
            for (auto& y : f->t)
                if (y.first != x) addTerm(out, y.first, -k * s * y.second);
            return true;
        };
        Terms out;
        i128 c = n->c0;
        if (n->k == KLin && elim(n->f->t, n->m, out, c)) { ch = true; return mkLin(out, c, w); }
        if (n->k == KMod && elim(n->mt, 1, out, c)) { ch = true; return mkMod(out, c, n->p, w); }
        return v;
    }
    return v;
}

V ite(V c, V a, V b, int w) {
    if (c.isC()) return c.c ? a : b;
    if (a == b) return a;
    if (w == 1) {
        if (a.isC() && b.isC()) return a.c ? c : bnot1(c);
        if (a.isC()) return a.c ? bor(c, b, 1) : band(bnot1(c), b, 1);
        if (b.isC()) return b.c ? bor(bnot1(c), a, 1) : band(c, a, 1);
    }
    V r;
    if (unIte(c, a, b, w, r)) return r;
    Form* f;
    Shape* sc;
    if (unary(c, 1, f, sc)) {
        u64 cnt = 0;
        for (u64 x : sc->v) cnt += x;
        u64 N = sc->v.size();
        if (cnt == 1 || N - cnt == 1) {
            u64 want = cnt == 1 ? 1 : 0;
            u64 i = 0;
            while (sc->v[i] != want) i++;
            bool ch = false;
            V a1 = substForm(a, w, f, (i128)i + sc->lo, ch), b1 = substForm(b, w, f, (i128)i + sc->lo, ch);
            if (ch && a1 == b1) return want ? b : a;
        }
    }
    // a ^ b constant
    if (isX(a) || isX(b) || (w <= 64 && false)) {
        std::vector<XTerm> t;
        u128 x = 0;
        asX(a, w, t, x, false);
        asX(b, w, t, x, false);
        V d = mkX(t, x, w);
        if (d.isC()) {
            std::vector<XTerm> tc;
            u128 cc = 0;
            asX(c, 1, tc, cc, false);
            std::vector<XTerm> tb;
            u128 cb = 0;
            asX(b, w, tb, cb, false);
            for (auto& y : tc) {
                for (auto& z : y.col) z = z ? d.c : 0;
                tb.push_back(y);
            }
            if (cc) cb ^= d.c;
            return mkX(tb, cb, w);
        }
        // mask replicated bit times a GF(2)-linear value of the same single bit is handled by tables only
    }
    // a - b constant
    if (w > 1) {
        Terms t;
        i128 k = 0;
        asLin(a, w, t, k, 1, false);
        asLin(b, w, t, k, -1, false);
        for (size_t i = 0; i < t.size();) {
            if (((u128)t[i].second & maskw(w)) == 0) t.erase(t.begin() + i);
            else i++;
        }
        if (t.empty()) {
            Terms tb;
            i128 cb = 0;
            asLin(b, w, tb, cb, 1, false);
            V cz = c;
            Terms tc;
            i128 kc = 0;
            asLin(cz, 1, tc, kc, 1, true);
            i128 d = sxt((u128)k & maskw(w), w);
            for (auto& x : tc) addTerm(tb, x.first, x.second * d);
            return mkLin(tb, cb + kc * d, w);
        }
    }
    u128 al, ah, bl, bh;
    interval(a, al, ah);
    interval(b, bl, bh);
    return mkOp(O_ITE, w, {c, a, b}, 1, std::min(al, bl), std::max(ah, bh));
}

// ---------------------------------------------------------------- allowed sets
Shape* andShapes(Shape* a, Shape* b) {
    if (!a) return b;
    if (a == b) return a;
    std::vector<u64> v(a->v.size());
    for (size_t i = 0; i < v.size(); i++) v[i] = a->v[i] & b->v[i];
    return mkShape(a->lo, a->hi, 1, std::move(v));
}
Shape* notShape(Shape* a) {
    std::vector<u64> v(a->v.size());
    for (size_t i = 0; i < v.size(); i++) v[i] = a->v[i] ^ 1;
    return mkShape(a->lo, a->hi, 1, std::move(v));
}
bool shapeEmpty(Shape* s) { return s->mx == 0; }
u64 shapeCount(Shape* s) {
    u64 c = 0;
    for (u64 x : s->v) c += x;
    return c;
}

std::vector<V> splitBits(V d, u128 fixed, u128 val) {
    std::vector<V> r;
    if (!d.n || d.n->k != KXLin || d.n->xt.size() < 2) return r;
    u128 seen = 0;
    for (auto& x : d.n->xt) {
        u128 m = 0;
        for (u128 y : x.col) m |= y;
        if (m & seen) return r;
        seen |= m;
    }
    for (auto& x : d.n->xt) {
        u128 m = 0;
        for (u128 y : x.col) m |= y;
        if (m & ~fixed) continue;
        std::vector<XTerm> t{x};
        u128 c = (d.n->xc ^ val) & m;
        int tz = 0;
        while (!((m >> tz) & 1)) tz++;
        for (auto& y : t[0].col) y >>= tz;
        c >>= tz;
        r.push_back(eq(mkX(t, c, d.n->w), K(0), d.n->w));
    }
    return r;
}

V refine(const Allowed& al, V v, int w, bool keepBits) {
    if (!v.n || al.empty()) return v;
    Node* n = v.n;
    if (!keepBits && (n->k == KXLin || n->k == KLin)) { // tables inside a packed value
        auto special = [&](Node* a) { return a->k == KUn && al.count(a->f); };
        bool any = false;
        if (n->k == KXLin) for (auto& x : n->xt) any |= special(x.a);
        else for (auto& x : n->f->t) any |= special(x.first);
        if (any && n->k == KLin) {
            Terms t;
            i128 c = n->c0;
            for (auto& x : n->f->t) {
                i128 k = (i128)((u128)x.second * (u128)n->m);
                if (special(x.first)) asLin(refine(al, V(x.first), x.first->w, false), x.first->w, t, c, k, true);
                else addTerm(t, x.first, k);
            }
            V r = mkLin(t, c, w);
            if (r != v) return refine(al, r, w, false);
            return r;
        }
        if (any) {
            std::vector<XTerm> t;
            u128 c = n->xc;
            for (auto& x : n->xt) {
                if (!special(x.a)) { t.push_back(x); continue; }
                V r = refine(al, V(x.a), x.a->w, false);
                std::vector<XTerm> q;
                u128 qc = 0;
                if (r.n == x.a || !asX(r, x.a->w, q, qc, false)) { t.push_back(x); continue; }
                auto app = [&](u128 z) {
                    u128 o = 0;
                    for (size_t b = 0; b < x.col.size(); b++)
                        if ((z >> b) & 1) o ^= x.col[b];
                    return o;
                };
                c ^= app(qc);
                for (auto& y : q) {
                    XTerm z;
                    z.a = y.a;
                    for (u128 col : y.col) z.col.push_back(app(col));
                    t.push_back(z);
                }
            }
            V r = mkX(t, c, w);
            if (r != v) return refine(al, r, w, false);
        }
    }
    Form* f = nullptr;
    if (n->k == KUn || n->k == KLin) f = n->f;
    else if (n->k == KXLin && n->xt.size() == 1) f = atomForm(n->xt[0].a);
    else f = atomForm(n);
    auto it = al.find(f);
    if (it == al.end()) return v;
    Shape* A = it->second;
    Form* ff;
    Shape* s;
    if (!unary(v, w, ff, s) || ff != f) return v;
    struct R { int k; i128 m, c; };
    static std::unordered_map<u64, R> cache;
    u64 key = ((u64)s->id << 32) | A->id;
    auto ci = cache.find(key);
    R r;
    if (ci != cache.end())
        r = ci->second;
    else {
        r.k = 0;
        r.m = r.c = 0;
        size_t N = s->v.size(), i = 0;
        while (i < N && !A->v[i]) i++;
        if (i < N) {
            size_t j = i + 1;
            while (j < N && !A->v[j]) j++;
            if (j >= N) { r.k = 1; r.c = s->v[i]; }
            else {
                i128 dv = (i128)s->v[j] - (i128)s->v[i], dt = (i128)(j - i);
                if (dv % dt == 0) {
                    i128 m = dv / dt;
                    bool ok = true;
                    for (size_t q = j; q < N; q++)
                        if (A->v[q] && (i128)s->v[q] - (i128)s->v[i] != m * (i128)(q - i)) { ok = false; break; }
                    if (ok) {
                        r.k = m == 0 ? 1 : 2;
                        r.m = m;
                        r.c = (i128)s->v[i] - m * ((i128)i + s->lo);
                        if (m == 0) r.c = s->v[i];
                    }
                }
            }
        }
        cache[key] = r;
    }
    if (r.k == 1) return K((u128)r.c);
    if (r.k == 2 && n->k != KLin) {
        if (n->k == KUn || n->k == KXLin) {
            V q = linValue(f, r.m, r.c, w);
            if (keepBits && q.n && bitsOf1(q.n->hi) > bitsOf1(s->mx)) return v; // stays within its known bits
            return q;
        }
    }
    return v;
}

// ---------------------------------------------------------------- evaluation
i128 evalForm(Form* f, const Model& m, std::unordered_map<Node*, u128>& memo) {
    i128 r = 0;
    for (auto& x : f->t) r += x.second * (i128)eval(V(x.first), m, memo);
    return r;
}
u128 eval(V v, const Model& m, std::unordered_map<Node*, u128>& memo) {
    if (!v.n) return v.c;
    Node* n = v.n;
    if (n->k == KSym) {
        auto it = m.find(n);
        return it == m.end() ? n->lo : it->second;
    }
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    u128 r = 0;
    switch (n->k) {
    case KLin: {
        u128 s = (u128)n->c0;
        for (auto& x : n->f->t) s += (u128)x.second * (u128)n->m * eval(V(x.first), m, memo);
        r = s & maskw(n->w);
        break;
    }
    case KMod: {
        u128 s = (u128)n->c0 % n->p;
        for (auto& x : n->mt) {
            u128 a = eval(V(x.first), m, memo) % n->p, b = (u128)x.second, q = 0;
            if (n->p < (u128(1) << 63)) q = (a * b) % n->p;
            else while (b) { if (b & 1) q = (q + a) % n->p; a = (a + a) % n->p; b >>= 1; }
            s = (s + q) % n->p;
        }
        r = s;
        break;
    }
    case KXLin: {
        r = n->xc;
        for (auto& x : n->xt) {
            u128 a = eval(V(x.a), m, memo);
            for (size_t j = 0; j < x.col.size(); j++)
                if ((a >> j) & 1) r ^= x.col[j];
        }
        break;
    }
    case KUn: {
        i128 t = evalForm(n->f, m, memo);
        r = n->s->v[(u64)(t - n->s->lo)];
        break;
    }
    case KOp: {
        bool ok;
        if (n->op == O_ITE) r = eval(n->args[0], m, memo) ? eval(n->args[1], m, memo) : eval(n->args[2], m, memo);
        else {
            u128 a = eval(n->args[0], m, memo), b = n->args.size() > 1 ? eval(n->args[1], m, memo) : 0;
            r = fold(n->op, a, b, n->w, n->aw ? n->aw : n->w, ok);
            if (!ok) r = 0;
        }
        break;
    }
    default: break;
    }
    memo[n] = r;
    return r;
}

static std::string s128(i128 v) {
    if (v < 0) return "-" + s128(-v);
    char b[64];
    if (v >> 64) { snprintf(b, 64, "0x%llx%016llx", (unsigned long long)((u128)v >> 64), (unsigned long long)v); return b; }
    snprintf(b, 64, "%llu", (unsigned long long)v);
    return b;
}
std::string str(V v, int d) {
    if (!v.n) return s128((i128)v.c);
    Node* n = v.n;
    if (d <= 0) return "#" + std::to_string(n->id);
    std::string r;
    switch (n->k) {
    case KSym: return n->name;
    case KLin:
        r = n->exact ? "L(" : "Lw(";
        for (auto& x : n->f->t) r += s128(x.second * n->m) + "*" + str(V(x.first), d - 1) + "+";
        return r + s128(n->c0) + ")";
    case KMod:
        r = "M" + s128(n->p) + "(";
        for (auto& x : n->mt) r += s128(x.second) + "*" + str(V(x.first), d - 1) + "+";
        return r + s128(n->c0) + ")";
    case KXLin:
        r = "X" + std::to_string(n->w) + "(";
        for (auto& x : n->xt) r += str(V(x.a), d - 1) + "[" + s128(x.col[0]) + "..]^";
        return r + s128(n->xc) + ")";
    case KUn:
        r = "U" + std::to_string(n->s->id) + "{";
        for (auto& x : n->f->t) r += s128(x.second) + "*" + str(V(x.first), d - 1) + "+";
        return r + "}";
    case KOp: {
        static const char* nm[] = {"add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "eq", "ult", "slt", "ite", "trunc", "zext", "sext", "none"};
        r = std::string(nm[n->op]) + std::to_string(n->w) + "(";
        for (auto& x : n->args) r += str(x, d - 1) + ",";
        return r + ")";
    }
    }
    return "?";
}
} // namespace ex
