// Additive Fourier transform over GF(2^n): evaluation of a polynomial at every point of a subspace; Taylor expansions.
#include "common.h"
#include "fft_add.h"
#include "quadiron.h"
using namespace quadiron;
#ifndef TY
#define TY uint32_t
#endif
static unsigned EXTN;
static uint64_t kmul(uint64_t k, uint64_t x)
{
    const uint64_t low = EXTN == 4 ? 3 : EXTN == 8 ? 0x1d : 0x100b, top = (1ull << EXTN) - 1;
    uint64_t r = 0;
    for (unsigned i = 0; i < EXTN; i++) {
        if (k & 1)
            r ^= x;
        k >>= 1;
        x = ((x << 1) & top) ^ ((0 - ((x >> (EXTN - 1)) & 1)) & low);
    }
    return r;
}
static uint64_t kpow(uint64_t a, unsigned e)
{
    uint64_t r = 1;
    while (e--)
        r = kmul(a, r);
    return r;
}
int main()
{
    EXTN = sx_param("ext", 8);
    const uint64_t top = (1ull << EXTN) - 1;
    const unsigned what = sx_param("what", 0), m = sx_param("m", 3), n = 1u << m;
    auto gf = gf::create<gf::BinExtension<TY>>((TY)EXTN);
    if (what == 0) {
        std::shared_ptr<vec::Vector<TY>> betas;
        const unsigned basis = sx_param("basis", 0);
        if (basis) { // a basis given by the caller
            betas = std::make_shared<vec::Vector<TY>>(gf, m);
            for (unsigned i = 0; i < m; i++)
                betas->set(i, basis == 1 ? 1u << i : basis == 2 ? 1u << (EXTN - 1 - i) : (3u << i) & top);
        }
        fft::Additive<TY> f(gf, m, betas);
        vec::Vector<TY> B(gf, n);
        f.compute_B(B);
        for (unsigned i = 0; i < n; i++) {
            sx_assert(B.get(i) <= top, "point outside the field");
            for (unsigned j = 0; j < i; j++) {
                sx_assert(B.get(i) != B.get(j), "two equal points");
                sx_assert(B.get(i ^ j) == (B.get(i) ^ B.get(j)), "the points are not in the order of the subspace");
            }
        }
        if (basis)
            for (unsigned i = 0; i < m; i++)
                sx_assert(B.get(1u << i) == betas->get(i), "the points are not those of the basis");
        // The inverse transform branches on every intermediate value, so that it gets `w` symbolic values at every position among fixed
        // ones; the transform itself gets symbolic values only.
        const unsigned mode = sx_param("mode", 0), in = sx_param("anylen", 0) ? sx_choice("in", 1, n) : n, w = sx_param("w", n);
        const unsigned at = mode && w < in ? sx_choice("at", 0, in - w) : 0;
        for (unsigned round = 0; round < 2; round++) {
            vec::Vector<TY> a(gf, in), b(gf, n), c(gf, n);
            std::vector<uint64_t> x;
            for (unsigned i = 0; i < n; i++) {
                b.set(i, filler(i + 1) & top);
                c.set(i, filler(i + 50) & top);
            }
            for (unsigned i = 0; i < in; i++) {
                const bool sym = mode == 0 || (round == 1 && i >= at && i < at + w);
                x.push_back(sym ? sx_sym("x", 0, top) : filler(i + 100) % 5 ? filler(i + 150) & top : 0);
                a.set(i, x[i]);
            }
            if (mode < 2) {
                if (in < n) {
                    vec::ZeroExtended<TY> z(a, n);
                    f.fft(b, z);
                } else
                    f.fft(b, a);
                for (unsigned i = 0; i < n; i++) {
                    uint64_t s = 0;
                    for (unsigned j = 0; j < in; j++)
                        s ^= kmul(kpow(B.get(i), j), x[j]);
                    sx_assert_eq(b.get(i), s, "value at a point of the subspace");
                }
                for (unsigned i = 0; i < in; i++)
                    sx_assert_eq(a.get(i), x[i], "the transform changed its input");
            }
            if (mode == 1) {
                if (round)
                    f.ifft(c, b);
                else
                    f.fft_inv(c, b);
                for (unsigned i = 0; i < n; i++)
                    sx_assert_eq(c.get(i), i < in ? x[i] : 0, "inverse of the transform");
            } else if (mode == 2) {
                f.ifft(c, a);
                for (unsigned i = 0; i < n; i++) {
                    uint64_t s = 0;
                    for (unsigned j = 0; j < n; j++)
                        s ^= kmul(kpow(B.get(i), j), c.get(j));
                    sx_assert_eq(s, x[i], "the inverse transform does not interpolate");
                }
            }
        }
        sx_reach("transform");
    } else if (what == 1) {
        fft::Additive<TY> f(gf, m);
        const unsigned l = sx_choice("l", 1, n), t = sx_choice("t", 2, sx_param("T", 6));
        const unsigned k = (l + t - 1) / t;
        vec::Vector<TY> a(gf, l), h(gf, k * t), r(gf, l);
        std::vector<uint64_t> x;
        for (unsigned i = 0; i < l; i++) {
            x.push_back(sx_sym("x", 0, top));
            a.set(i, x[i]);
            r.set(i, filler(i) & top);
        }
        for (unsigned i = 0; i < k * t; i++)
            h.set(i, filler(i + 77) & top);
        f.taylor_expand(h, a, l, t);
        // sum of h_i(x) (x^t - x)^i by Horner's rule
        std::vector<uint64_t> s(k * t + t, 0);
        for (int i = k - 1; i >= 0; i--) {
            std::vector<uint64_t> u(s.size(), 0);
            for (unsigned j = 0; j < s.size(); j++) {
                if (j + t < s.size())
                    u[j + t] ^= s[j];
                if (j + 1 < s.size())
                    u[j + 1] ^= s[j];
            }
            for (unsigned j = 0; j < t; j++)
                u[j] ^= h.get(i * t + j);
            s = u;
        }
        for (unsigned i = 0; i < k * t; i++)
            sx_assert_eq(s[i], i < l ? x[i] : 0, "expansion at x^t - x");
        for (unsigned i = 0; i < l; i++)
            sx_assert_eq(a.get(i), x[i], "the expansion changed its input");
        f.inv_taylor_expand(r, h, t);
        for (unsigned i = 0; i < l; i++)
            sx_assert_eq(r.get(i), x[i], "inverse of an expansion");
        sx_reach("expansion");
    } else {
        fft::Additive<TY> f(gf, m);
        const unsigned l = 1u << sx_choice("l", 0, m);
        vec::Vector<TY> a(gf, l), r(gf, l);
        std::vector<uint64_t> x;
        for (unsigned i = 0; i < l; i++) {
            x.push_back(sx_sym("x", 0, top));
            a.set(i, x[i]);
            r.set(i, filler(i) & top);
        }
        f.taylor_expand_t2(a, l);
        f.inv_taylor_expand_t2(r);
        for (unsigned i = 0; i < l; i++)
            sx_assert_eq(r.get(i), x[i], "inverse of an expansion at x^2 - x");
        sx_reach("t2");
    }
    return 0;
}
