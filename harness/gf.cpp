// Arithmetic of one prime field (-DTY) or one extension of GF(2).
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
typedef unsigned __int128 u128;
#ifndef TY
#define TY uint32_t
#endif
// reference arithmetic, written independently of the code under test
static uint64_t P;
static uint64_t rmul(uint64_t a, uint64_t b) { return P <= 0x100000000ull ? (a * b) % P : (uint64_t)(((u128)a * b) % P); }
static uint64_t radd(uint64_t a, uint64_t b) { return (uint64_t)(((u128)a + b) % P); }
static uint64_t rpow(uint64_t a, uint64_t e)
{
    uint64_t r = 1 % P;
    while (e) {
        if (e & 1)
            r = rmul(r, a);
        a = rmul(a, a);
        e >>= 1;
    }
    return r;
}
static uint64_t gcd_(uint64_t a, uint64_t b) { return b ? gcd_(b, a % b) : a; }
// x has exactly order d
static void exact_order(uint64_t x, uint64_t d, const char* msg)
{
    sx_assert(rpow(x, d) == 1, msg);
    uint64_t m = d;
    for (uint64_t q = 2; q <= m; q++) {
        if (m % q)
            continue;
        while (m % q == 0)
            m /= q;
        sx_assert(rpow(x, d / q) != 1, msg);
    }
}
static int prime_main(unsigned what)
{
    P = sx_param("p", 257);
    auto gf = gf::create<gf::Prime<TY>>((TY)P);
    if (what == 0) {
        uint64_t a = sx_sym("a", 0, P - 1), b = sx_sym("b", 0, P - 1);
        sx_assert(gf.card() == P && gf.card_minus_one() == P - 1, "size of the field");
        sx_assert_eq(gf.add(a, b), P <= (1ull << 62) ? (a + b) % P : radd(a, b), "sum");
        sx_assert_eq(gf.sub(a, b), P <= (1ull << 62) ? (a + (P - b)) % P : radd(a, P - b), "difference");
        sx_assert_eq(gf.neg(a), P <= (1ull << 62) ? (P - a) % P : radd(0, P - a), "opposite");
        if (sx_param("mul", 1))
            sx_assert_eq(gf.mul(a, b), rmul(a, b), "product");
        uint64_t c = sx_sym("c", 0, (TY)~(TY)0);
        sx_assert(gf.check(c) == (c < P), "membership");
        sx_assert(gf.replicate(a) == a, "replicate");
        sx_reach("ops");
    } else if (what == 1) {
        uint64_t a = sx_sym("a", 1, P - 1);
        uint64_t i = gf.inv(a);
        sx_out("inv", i);
        sx_assert(i < P, "an inverse is an element of the field");
        sx_assert_eq(rmul(i, a), 1, "an element times its inverse");
        sx_assert_eq(gf.inv_exp(a), i, "both ways to invert agree");
        static const uint64_t n[] = {0, 1, 2, 3, 100};
        for (uint64_t v : n) {
            uint64_t c = v == 100 ? P - 1 : v % P;
            uint64_t q = gf.div(c, a);
            sx_assert(q < P, "a quotient is an element of the field");
            sx_assert_eq(rmul(q, a), c, "quotient times divisor");
        }
        sx_reach("inv");
    } else if (what == 2) { // powers
        uint64_t a = sx_sym("a", 0, P - 1);
        static const uint64_t es[] = {0, 1, 2, 3, 4, 5, 7, 8, 10, 13, 16, 100, 101};
        uint64_t e = es[sx_choice("e", 0, 12)];
        if (e >= 100)
            e = P - (e - 99);
        uint64_t r = rpow(a, e);
        sx_assert_eq(gf.exp(a, e), r, "power");
        sx_assert_eq(gf.exp_quick(a, e), r, "power by squaring");
        if (e <= 16)
            sx_assert_eq(gf.exp_naive(a, e), r, "power by repeated product");
        sx_reach("exp");
    } else if (what == 3) { // powers of a fixed base, any exponent; logarithms
        uint64_t g = sx_choice("base", 1, sx_param("bases", P - 1));
        uint64_t e = sx_choice("e", 0, P - 1);
        uint64_t r = rpow(g, e);
        sx_assert_eq(gf.exp(g, e), r, "power");
        sx_assert_eq(gf.exp_naive(g, e), r, "power by repeated product");
        uint64_t x = sx_sym("x", 1, P - 1);
        try {
            uint64_t l = gf.log(g, x);
            sx_assert(rpow(g, l) == x, "logarithm");
            for (uint64_t i = 1; i < l; i++)
                sx_assert(rpow(g, i) != x, "logarithm is not the smallest one");
        } catch (const NoSolution&) {
            for (uint64_t i = 0; i < P; i++)
                sx_assert(rpow(g, i) != x, "a logarithm exists but was not found");
        }
        sx_reach("log");
    } else if (what == 4) { // orders
        uint64_t x = sx_sym("x", 1, P - 1);
        uint64_t d = gf.get_order(x);
        sx_assert(d >= 1 && d <= P - 1 && (P - 1) % d == 0, "an order divides the order of the group");
        exact_order(x, d, "get_order is not the order of the element");
        sx_assert((d == P - 1) == gf.check_primitive_root(x), "check_primitive_root");
        sx_assert((d == P - 1) == gf.is_primitive_root(x), "is_primitive_root");
        sx_reach("order");
    } else if (what == 5) { // roots and code lengths
        uint64_t n = sx_choice("n", 1, sx_param("N", P - 1));
        exact_order(gf.get_root(), P - 1, "get_root is not a primitive root");
        sx_assert(gf.get_root() == gf.get_primitive_root(), "get_primitive_root");
        uint64_t w = gf.get_nth_root(n);
        exact_order(w, gcd_(n, P - 1), "get_nth_root does not have the order asked for");
        uint64_t c = gf.get_code_len(n), best = n;
        while ((P - 1) % best)
            best++;
        sx_assert(c == best, "get_code_len is not the smallest divisor that is large enough");
        uint64_t h = gf.get_code_len_high_compo(n);
        sx_assert(h >= n && (P - 1) % h == 0, "get_code_len_high_compo is not a divisor that is large enough");
        unsigned len = n < 12 ? n : 12;
        vec::Vector<TY> W(gf, len);
        gf.compute_omegas(W, len, w);
        for (unsigned i = 0; i < len; i++)
            sx_assert(W.get(i) == rpow(w, i), "compute_omegas");
        sx_reach("roots");
    } else if (what == 6) { // quadratic residues, orders checked naively
        uint64_t q = sx_sym("q", 0, P - 1);
        bool r = false;
        for (uint64_t i = 0; i < P; i++)
            r |= (i * i) % P == q;
        sx_assert(gf.is_quadratic_residue(q) == r, "is_quadratic_residue");
        uint64_t d = sx_choice("d", 1, P - 1);
        bool o = rpow(q, d) == 1;
        for (uint64_t i = 1; i < d; i++)
            o &= rpow(q, i) != 1;
        sx_assert(gf.check_order_naive(q, d) == o, "check_order_naive");
        sx_reach("residue");
    }
    return 0;
}
// carry-less product reduced by the polynomial of the field
static uint64_t bmul(uint64_t a, uint64_t b, unsigned n, uint64_t low)
{
    uint64_t r = 0;
    for (unsigned i = 0; i < n; i++) {
        r ^= (0 - (a & 1)) & b;
        a >>= 1;
        uint64_t top = (b >> (n - 1)) & 1;
        b = (n == 64 ? b << 1 : (b << 1) & ((1ull << n) - 1)) ^ ((0 - top) & low);
    }
    return r;
}
static int ext_main(unsigned what)
{
    unsigned n = sx_param("n", 8);
    uint64_t low = n == 1 ? 1 : n == 2 ? 3 : n == 3 ? 3 : n == 4 ? 3 : n == 8 ? 0x1d : n == 16 ? 0x100b : n == 32 ? 0x8d : 0x1b;
    uint64_t top = n == 64 ? ~0ull : (1ull << n) - 1;
    auto gf = gf::create<gf::BinExtension<TY>>((TY)n);
    if (what == 0) {
        uint64_t a;
        if (n <= 8)
            a = sx_choice("a", 0, top);
        else {
            unsigned s = sx_choice("a", 0, n + 5);
            static const uint64_t sp[] = {0, 3, 0xffffffffffffffffull, 0x8000000180018181ull, 0x123456789abcdef1ull, 0xfedcba9876543210ull};
            a = s < n ? 1ull << s : sp[s - n] & top;
        }
        uint64_t b = sx_sym("b", 0, top), c = sx_sym("c", 0, top);
        uint64_t m = bmul(a, b, n, low);
        sx_assert_eq(gf.add(b, c), b ^ c, "sum");
        sx_assert_eq(gf.sub(b, c), b ^ c, "difference");
        sx_assert_eq(gf.mul(a, b), m, "product");
        sx_assert_eq(gf.mul(b, a), m, "product of exchanged operands");
        TY x[2] = {(TY)a, (TY)b}, y[2] = {(TY)b, (TY)a};
        gf.hadamard_mul(2, x, y);
        sx_assert(x[0] == m && x[1] == m, "element-wise product");
        TY s[2] = {(TY)b, (TY)a}, d[2] = {(TY)0x55, (TY)0x55};
        gf.mul_coef_to_buf(a, s, d, 2);
        sx_assert(d[0] == m && d[1] == bmul(a, a, n, low), "product of a buffer by a coefficient");
        sx_reach("ops");
    } else if (what == 1) { // inverse and quotient
        uint64_t a;
        if (n <= 16)
            a = sx_sym("a", 1, top);
        else
            a = sx_sym("a", 1, 255) << (8 * sx_choice("byte", 0, n / 8 - 1));
        uint64_t i = gf.inv(a);
        sx_out("inv", i);
        sx_assert(i <= top, "an inverse is an element of the field");
        sx_assert_eq(bmul(a, i, n, low), 1, "an element times its inverse");
        uint64_t c = sx_choice("c", 0, 3);
        c = c == 3 ? top : c;
        uint64_t q = gf.div(c, a);
        sx_assert(q <= top, "a quotient is an element of the field");
        sx_assert_eq(bmul(q, a, n, low), c, "quotient times divisor");
        sx_reach("inv");
    } else if (what == 2) { // field laws through the code itself, powers of the root
        uint64_t e = sx_choice("e", 0, sx_param("E", 300)), r = 1;
        for (uint64_t i = 0; i < e; i++)
            r = bmul(r, gf.get_root(), n, low);
        if (e <= top)
            sx_assert_eq(gf.exp(gf.get_root(), e), r, "power of the root");
        // the root generates the whole group
        uint64_t h = gf.card_minus_one();
        sx_assert(h == top, "order of the group");
        uint64_t m = h;
        for (uint64_t q = 3; q * q <= m; q += 2) {
            if (m % q)
                continue;
            while (m % q == 0)
                m /= q;
            sx_assert(gf.exp(gf.get_root(), h / q) != 1, "the root is not primitive");
        }
        sx_assert(m == 1 || m == h || gf.exp(gf.get_root(), h / m) != 1, "the root is not primitive");
        sx_assert(gf.exp(gf.get_root(), h) == 1, "order of the root");
        uint64_t k = sx_choice("k", 1, 12);
        uint64_t d = gcd_(k, h), w = gf.get_nth_root(k);
        uint64_t x = 1;
        for (uint64_t i = 1; i <= d; i++) {
            x = bmul(x, w, n, low);
            sx_assert((x == 1) == (i == d), "get_nth_root does not have the order asked for");
        }
        sx_reach("root");
    } else if (what == 3) { // logarithms and orders of any element
        uint64_t x = sx_sym("x", 1, top);
        uint64_t d = gf.get_order(x);
        sx_assert(d >= 1 && top % d == 0, "an order divides the order of the group");
        uint64_t y = 1;
        for (uint64_t i = 1; i <= top; i++) {
            y = gf.mul(y, x);
            if (i == d)
                break;
            sx_assert(y != 1, "get_order is not the smallest");
        }
        sx_assert(y == 1, "get_order is not an order");
        uint64_t l = gf.log(gf.get_root(), x), z = 1;
        for (uint64_t i = 0; i < l; i++)
            z = bmul(z, gf.get_root(), n, low);
        sx_assert(z == x, "logarithm");
        sx_reach("log");
    } else if (what == 4) { // powers and laws of any element (fields with tables)
        uint64_t x = sx_sym("x", 0, top), e = sx_choice("e", 0, 9), r = 1;
        for (uint64_t i = 0; i < e && e < 8; i++)
            r = gf.mul(r, x);
        if (e == 8)
            r = x != 0; // x^(q-1)
        if (e == 9)
            r = x; // x^q
        sx_assert_eq(e == 9 ? gf.mul(gf.exp(x, top), x) : gf.exp(x, e == 8 ? top : e), r, "power");
        uint64_t y = sx_choice("y", 0, 7), z = (y * 0x9e37) & top;
        sx_assert_eq(gf.mul(gf.add(x, y), z), gf.add(gf.mul(x, z), gf.mul(y, z)), "distributivity");
        sx_assert_eq(gf.mul(gf.mul(x, y & top), z), gf.mul(x, gf.mul(y & top, z)), "associativity");
        sx_reach("exp");
    }
    return 0;
}
int main()
{
    return sx_param("ext", 0) ? ext_main(sx_param("what", 0)) : prime_main(sx_param("what", 0));
}
