// Term layer of the symbolic executor: hash-consed terms with word-level normal forms.
//
//   Lin   (m*f + c0) mod 2^w        f: integer linear form over atoms, with an interval
//   Mod   (form + c0) mod p         value in [0,p)
//   XLin  const ^ M_1(atom_1) ^ ... GF(2)-linear map of the bits of atoms
//   Un    s[f]                      table over a small-range pivot form f
//   Op    everything else           kept as a bit-vector term
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

struct Node;
struct V {
    Node* n;
    u128 c;
    V() : n(nullptr), c(0) {}
    V(Node* n_) : n(n_), c(0) {}
    explicit V(Node* n_, u128 c_) : n(n_), c(c_) {}
    bool isC() const { return n == nullptr; }
    bool operator==(const V& o) const { return n == o.n && (n || c == o.c); }
    bool operator!=(const V& o) const { return !(*this == o); }
};
inline V K(u128 c) { return V(nullptr, c); }

struct Form { // gcd-normalised, first coefficient positive, sorted by atom id
    std::vector<std::pair<Node*, i128>> t;
    i128 lo, hi;
    bool big; // interval not representable
    uint32_t id;
    i128 size() const { return hi - lo + 1; }
};

struct Recog {
    enum { NONE, CONST, AFF, MOD, XL } k = NONE;
    i128 m = 0, c = 0; // AFF / MOD
    u128 p = 0;        // MOD
};

struct Shape {
    i64 lo, hi;
    int w;
    std::vector<u64> v;
    uint32_t id;
    u64 mn, mx;
    bool rec_done = false;
    Recog rec;
    bool lin_ok = false; // GF(2) linear (only meaningful when domain is [0,2^k-1])
    bool lin_done = false;
    int runs = -1;
    bool or_done = false;
    u64 orv = 0;
};

enum Kind { KSym, KLin, KMod, KXLin, KUn, KOp };
enum OpK {
    O_ADD, O_SUB, O_MUL, O_UDIV, O_UREM, O_SDIV, O_SREM, O_SHL, O_LSHR, O_ASHR,
    O_AND, O_OR, O_XOR, O_EQ, O_ULT, O_SLT, O_ITE, O_TRUNC, O_ZEXT, O_SEXT, O_NONE, O_EXTRACT, O_CONCAT
};

struct XTerm {
    Node* a;
    std::vector<u128> col;
    bool operator==(const XTerm& o) const { return a == o.a && col == o.col; }
};

struct Node {
    Kind k;
    int w;
    uint32_t id;
    u128 lo, hi; // unsigned interval of the value
    // Sym
    std::string name;
    // Lin / Un
    Form* f = nullptr;
    i128 m = 0, c0 = 0;
    bool exact = false; // Lin: interval of m*f+c0 lies in [0,2^w)
    Shape* s = nullptr;
    // Mod
    std::vector<std::pair<Node*, i128>> mt;
    u128 p = 0;
    // XLin
    std::vector<XTerm> xt;
    u128 xc = 0;
    // Op (and derivation of Un)
    OpK op = O_NONE;
    std::vector<V> args;
    int aw = 0; // width of args[0] for comparisons / casts
    std::vector<Node*> syms; // symbols this depends on (sorted by id)
};

inline u128 maskw(int w) { return w >= 128 ? ~u128(0) : ((u128(1) << w) - 1); }
inline i128 sxt(u128 v, int w) {
    if (w >= 128) return (i128)v;
    u128 s = u128(1) << (w - 1);
    return (i128)((v ^ s) - s);
}

typedef std::map<Form*, Shape*> Allowed;

namespace ex {
extern i128 LIM; // largest pivot domain that is tabulated
extern bool log_lemmas;

V sym(const std::string& name, int w, u128 lo, u128 hi);
V add(V a, V b, int w);
V sub(V a, V b, int w);
V mul(V a, V b, int w);
V udiv(V a, V b, int w);
V urem(V a, V b, int w);
V sdiv(V a, V b, int w);
V srem(V a, V b, int w);
V shl(V a, V b, int w);
V lshr(V a, V b, int w);
V ashr(V a, V b, int w);
V band(V a, V b, int w);
V bor(V a, V b, int w);
V bxor(V a, V b, int w);
V eq(V a, V b, int w);
V ult(V a, V b, int w);
V slt(V a, V b, int w);
inline V bnot1(V a) { return bxor(a, K(1), 1); }
V ite(V c, V a, V b, int w);
V trunc(V a, int from, int to);
V zext(V a, int from, int to);
V sext(V a, int from, int to);
V extract(V a, int from, int lo, int len); // result width len
V concat(V hi, int wh, V lo, int wl);      // result width wh+wl

// value of an operation on constants
u128 fold(OpK op, u128 a, u128 b, int w, int aw, bool& ok);

// unary view over a pivot: returns true and (f, shape) if v is a table over a small pivot
bool unary(V v, int w, Form*& f, Shape*& s);
V mkUn(Form* f, Shape* s, int w, OpK op, const std::vector<V>& args, int aw);
Shape* andShapes(Shape* a, Shape* b);
Shape* notShape(Shape* a);
bool shapeEmpty(Shape* s);
u64 shapeCount(Shape* s);
Shape* mkShape(i64 lo, i64 hi, int w, std::vector<u64>&& v);
std::vector<V> splitBits(V d, u128 fixed, u128 val); // (d & fixed) == val as conditions on the atoms whose bits are all fixed
V refine(const Allowed& al, V v, int w, bool keepBits);
V substForm(V v, int w, Form* f, i128 val, bool& changed); // substitute pivot value
V substV(V v, int w, Node* x, V val, int wv, std::unordered_map<Node*, V>& memo, bool& fail); // substitute an atom by a term
V modTerm(const std::vector<std::pair<Node*, i128>>& t, i128 c0, u128 p, int w);
Form* atomForm(Node* n);
V linValue(Form* f, i128 m, i128 c0, int w);

typedef std::unordered_map<Node*, u128> Model;
u128 eval(V v, const Model& m, std::unordered_map<Node*, u128>& memo);
i128 evalForm(Form* f, const Model& m, std::unordered_map<Node*, u128>& memo);
std::string str(V v, int depth = 4);
extern u64 n_nodes, n_shapes, n_forms, n_recog, n_unops;

struct Lemma { // a recognised table: table over [lo,hi] equals rec; derivation kept for the solver
    Node* un;
    V result;
};
extern std::vector<Lemma> lemmas;
} // namespace ex
