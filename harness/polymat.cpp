// Polynomials and matrices over a field against their definitions.
#include "common.h"
#include "quadiron.h"
#include "vec_matrix.h"
#include "vec_poly.h"
using namespace quadiron;
#ifndef TY
#define TY uint32_t
#endif
#ifdef EXT
typedef gf::BinExtension<TY> F;
#else
typedef gf::Prime<TY> F;
#endif
typedef std::vector<uint64_t> M;
static uint64_t P, LOW;
static unsigned EXTN;
static uint64_t rmul(uint64_t a, uint64_t b) // reference product
{
    if (!EXTN)
        return (a * b) % P;
    uint64_t r = 0;
    for (unsigned i = 0; i < EXTN; i++) {
        r ^= (0 - (a & 1)) & b;
        a >>= 1;
        b = ((b << 1) & (P - 1)) ^ ((0 - ((b >> (EXTN - 1)) & 1)) & LOW);
    }
    return r;
}
static uint64_t radd(uint64_t a, uint64_t b)
{
    return EXTN ? a ^ b : (a + b) % P;
}
static uint64_t rneg(uint64_t a)
{
    return EXTN ? a : (P - a) % P;
}
static uint64_t times(unsigned k, uint64_t a) // a + .. + a
{
    return EXTN ? (k % 2) * a : (k * a) % P;
}
static uint64_t known(uint32_t i)
{
    uint32_t f = filler(i);
    return f % 5 == 0 ? 0 : f % 5 == 1 ? P - 1 : f % P;
}
static uint64_t scalar(unsigned c)
{
    return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? P - 1 : c == 3 ? 2 : filler(c) % P;
}
static uint64_t det(std::vector<M> a) // cofactors along the first row
{
    const size_t n = a.size();
    if (n == 1)
        return a[0][0];
    uint64_t s = 0;
    for (size_t j = 0; j < n; j++) {
        std::vector<M> b;
        for (size_t i = 1; i < n; i++) {
            M r;
            for (size_t k = 0; k < n; k++)
                if (k != j)
                    r.push_back(a[i][k]);
            b.push_back(r);
        }
        uint64_t t = rmul(a[0][j], det(b));
        s = radd(s, j % 2 ? rneg(t) : t);
    }
    return s;
}
int main()
{
    const unsigned what = sx_param("what", 0), N = sx_param("n", 5);
    EXTN = sx_param("ext", 0);
    LOW = EXTN == 4 ? 3 : EXTN == 8 ? 0x1d : 0x100b;
    P = EXTN ? 1ull << EXTN : sx_param("p", 257);
#ifdef EXT
    auto gf = gf::create<F>((TY)EXTN);
#else
    auto gf = gf::create<F>((TY)P);
#endif
    switch (what) {
    case 0: { // evaluation, derivative, opposite, copies
        const unsigned d = sx_choice("deg", 0, N);
        vec::Poly<TY> p(gf, d + 2);
        p.zero_fill();
        M a;
        for (unsigned i = 0; i <= d; i++)
            a.push_back(sx_sym("a", i == d ? 1 : 0, P - 1));
        for (unsigned i = 0; i <= d; i++)
            p.set(i, a[i]);
        sx_assert((unsigned)p.get_deg() == d, "degree");
        const uint64_t x = scalar(sx_choice("x", 0, sx_param("xs", 6)));
        uint64_t v = 0, y = 1;
        for (unsigned i = 0; i <= d; i++, y = rmul(y, x))
            v = EXTN ? v ^ rmul(y, a[i]) : v + y * a[i];
        sx_assert_eq(p.eval(x), EXTN ? v : v % P, "value of a polynomial");
        vec::Poly<TY> q(p), r(p);
        sx_assert((unsigned)q.get_deg() == d && (unsigned)q.get_n() == d + 2, "copy of a polynomial");
        q.neg();
        r.derivative();
        sx_assert(r.get_deg() == (int)d - 1, "degree of the derivative");
        for (unsigned i = 0; i <= d + 1; i++) {
            sx_assert_eq(p.get(i), i <= d ? a[i] : 0, "coefficients");
            sx_assert_eq(q.get(i), i <= d ? rneg(a[i]) : 0, "opposite");
            sx_assert_eq(r.get(i), i < d ? times(i + 1, a[i + 1]) : 0, "derivative");
        }
        sx_reach("eval");
        break;
    }
    case 1: { // value at any point
        const unsigned d = sx_choice("deg", 0, N);
        vec::Poly<TY> p(gf, d + 1);
        const uint64_t x = sx_sym("x", 0, P - 1);
        uint64_t v = 0;
        for (unsigned i = d + 1; i-- > 0;) {
            uint64_t c = i == d ? 1 + filler(i) % (P - 1) : known(i + d);
            p.set(i, c);
        }
        for (unsigned i = d + 1; i-- > 0;)
            v = radd(rmul(v, x), p.get(i));
        sx_assert_eq(p.eval(x), v, "value of a polynomial");
        sx_reach("point");
        break;
    }
    case 2: { // products
        const unsigned d = sx_choice("deg", 0, N), e = sx_choice("e", 0, N), out = sx_choice("out", 0, N + 2), swapped = sx_choice("swapped", 0, 1);
        const unsigned n = std::max(d, out) + 1, m = std::max(e, out) + 1;
        vec::Poly<TY> p(gf, n), q(gf, m);
        p.zero_fill();
        q.zero_fill();
        M a(n, 0), b(m, 0);
        for (unsigned i = 0; i <= d; i++)
            p.set(i, a[i] = swapped ? (i == d ? 1 + filler(i) % (P - 1) : known(i)) : sx_sym("a", i == d ? 1 : 0, P - 1));
        for (unsigned i = 0; i <= e; i++)
            q.set(i, b[i] = !swapped ? (i == e ? 1 + filler(i + 7) % (P - 1) : known(i + 7)) : sx_sym("b", i == e ? 1 : 0, P - 1));
        p.mul(&q, out);
        for (unsigned i = 0; i < m; i++)
            sx_assert_eq(q.get(i), b[i], "product changed its argument");
        for (unsigned i = 0; i < n; i++) {
            uint64_t v = 0;
            for (unsigned j = 0; j <= i && j < n; j++)
                if (i - j < m) {
                    uint64_t k = swapped ? a[j] : b[i - j], s = swapped ? b[i - j] : a[j];
                    v = EXTN ? v ^ rmul(k, s) : v + k * s;
                }
            sx_assert_eq(p.get(i), i > out ? a[i] : EXTN ? v : v % P, "product");
        }
        sx_reach("mul");
        break;
    }
    case 3: { // product by X + c
        const unsigned d = sx_choice("deg", 0, N), known_c = sx_choice("known", 0, 1);
        const uint64_t c = known_c ? scalar(sx_choice("c", 0, 6)) : sx_sym("c", 0, P - 1);
        vec::Poly<TY> p(gf, d + 2);
        p.zero_fill();
        M a;
        for (unsigned i = 0; i <= d; i++) {
            a.push_back(!known_c ? (i == d ? 1 + filler(i) % (P - 1) : known(i)) : sx_sym("a", i == d ? 1 : 0, P - 1));
            p.set(i, a[i]);
        }
        p.mul_to_x_plus_coef(c);
        sx_assert((unsigned)p.get_deg() == d + 1, "degree of the product");
        for (unsigned i = 0; i <= d + 1; i++) {
            uint64_t t = i <= d ? rmul(known_c ? c : a[i], known_c ? a[i] : c) : 0;
            sx_assert_eq(p.get(i), i ? radd(t, a[i - 1]) : t, "product by X + c");
        }
        sx_reach("plus");
        break;
    }
    case 4: { // matrix times vector
        const unsigned r = sx_choice("rows", 1, N), c = sx_choice("cols", 1, N), vm = sx_choice("kind", 0, 1);
        vec::Matrix<TY> m(gf, r, c);
        sx_assert((unsigned)m.get_n_rows() == r && (unsigned)m.get_n_cols() == c, "sizes");
        m.zero_fill();
        std::vector<M> a(r, M(c, 0));
        if (vm == 0)
            m.vandermonde();
        for (unsigned i = 0; i < r; i++) {
            uint64_t y = 1;
            for (unsigned j = 0; j < c; j++, y = rmul(y, i)) {
                if (vm == 0) {
                    sx_assert_eq(m.get(i, j), y, "Vandermonde matrix");
                    a[i][j] = y;
                } else {
                    sx_assert(m.get(i, j) == 0, "zero matrix");
                    m.set(i, j, a[i][j] = known(i * 16 + j));
                }
            }
        }
        vec::Vector<TY> v(gf, c), o(gf, r);
        M x;
        for (unsigned j = 0; j < c; j++) {
            x.push_back(sx_sym("x", 0, P - 1));
            v.set(j, x[j]);
        }
        m.mul(&o, &v);
        for (unsigned i = 0; i < r; i++) {
            uint64_t s = 0;
            for (unsigned j = 0; j < c; j++)
                s = EXTN ? s ^ rmul(a[i][j], x[j]) : s + a[i][j] * x[j];
            sx_assert_eq(o.get(i), EXTN ? s : s % P, "matrix times vector");
        }
        for (unsigned j = 0; j < c; j++)
            sx_assert_eq(v.get(j), x[j], "the product changed its argument");
        sx_reach("matvec");
        break;
    }
    case 5: { // inverses: one entry symbolic at every place, many fixed surroundings; exactly the singular ones are refused
        const unsigned n = sx_choice("n", 1, N), at = sx_choice("at", 0, n * n - 1), salt = sx_choice("salt", 0, sx_param("salts", 3)), low = sx_param("low", 0);
        vec::Matrix<TY> m(gf, n, n);
        std::vector<M> a(n, M(n, 0));
        for (unsigned i = 0; i < n; i++)
            for (unsigned j = 0; j < n; j++) {
                uint64_t v = i * n + j == at ? sx_sym("x", 0, P - 1) : low ? filler(salt * 100 + i * n + j) % 3 % P : salt == 0 ? (i == j) : known(salt * 100 + i * n + j);
                a[i][j] = v;
                m.set(i, j, v);
            }
        bool singular = det(a) == 0, refused = false;
        try {
            m.inv();
        } catch (const DomainError&) {
            refused = true;
        }
        sx_assert(refused == singular, "exactly the singular matrices are refused");
        if (refused) {
            for (unsigned i = 0; i < n; i++)
                for (unsigned j = 0; j < n; j++)
                    sx_assert_eq(m.get(i, j), a[i][j], "a refused matrix was changed");
            sx_reach("refused");
            return 0;
        }
        for (unsigned i = 0; i < n; i++)
            for (unsigned j = 0; j < n; j++) {
                uint64_t s = 0;
                for (unsigned k = 0; k < n; k++)
                    s = radd(s, rmul(a[i][k], m.get(k, j)));
                sx_assert_eq(s, i == j ? 1 : 0, "product with the inverse");
            }
        sx_reach("inverse");
        break;
    }
    }
    return 0;
}
