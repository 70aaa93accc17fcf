// Discrete Fourier transforms against the definition: output[i] = sum_j w^(ij) input[j].
#include "common.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "quadiron.h"
using namespace quadiron;
#ifndef TY
#define TY uint32_t
#endif
#ifdef EXT
typedef gf::BinExtension<TY> F;
#else
typedef gf::Prime<TY> F;
#endif
static uint64_t P, LOW;
static unsigned N, D, EXTN; // transform length, positions per buffer
static uint64_t rmul(uint64_t a, uint64_t b)
{
    if (!EXTN)
        return (a * b) % P;
    uint64_t r = 0;
    for (unsigned i = 0; i < EXTN; i++) {
        r ^= (0 - (a & 1)) & b;
        a >>= 1;
        b = ((b << 1) & ((1ull << EXTN) - 1)) ^ ((0 - ((b >> (EXTN - 1)) & 1)) & LOW);
    }
    return r;
}
// product of a known element by any element
static uint64_t kmul(uint64_t k, uint64_t x)
{
    if (!EXTN)
        return k * x;
    uint64_t r = 0;
    for (unsigned i = 0; i < EXTN; i++) {
        if (k & 1)
            r ^= x;
        k >>= 1;
        x = ((x << 1) & ((1ull << EXTN) - 1)) ^ ((0 - ((x >> (EXTN - 1)) & 1)) & LOW);
    }
    return r;
}
static uint64_t rpow(uint64_t a, uint64_t e)
{
    uint64_t r = 1;
    for (; e; e >>= 1, a = rmul(a, a))
        if (e & 1)
            r = rmul(r, a);
    return r;
}
static uint64_t element(uint32_t i)
{
    return filler(i) % P;
}
static std::vector<uint64_t> dft(const std::vector<uint64_t>& x, uint64_t w, uint64_t scale)
{
    std::vector<uint64_t> r(N);
    for (unsigned i = 0; i < N; i++) {
        uint64_t s = 0;
        for (unsigned j = 0; j < x.size(); j++) {
            uint64_t t = kmul(rmul(scale, rpow(w, (uint64_t)i * j % N)), x[j]);
            s = EXTN ? s ^ t : s + t;
        }
        r[i] = EXTN ? s : s % P;
    }
    return r;
}
static std::vector<uint64_t> symbols(const char* name, unsigned n)
{
    std::vector<uint64_t> v;
    for (unsigned i = 0; i < n; i++)
        v.push_back(sx_sym(name, 0, P - 1));
    return v;
}
int main()
{
    const unsigned kind = sx_param("kind", 0);
    EXTN = sx_param("ext", 0);
    LOW = EXTN == 4 ? 3 : EXTN == 8 ? 0x1d : 0x100b;
    P = EXTN ? 1ull << EXTN : sx_param("p", 65537);
    const unsigned pkt = sx_param("pkt", 0); // 0: the Vector interface
    N = sx_param("n", 8);
#ifdef EXT
    auto gf = gf::create<F>((TY)EXTN);
#else
    auto gf = gf::create<F>((TY)P);
#endif
    uint64_t w = kind == 1 ? P - 1 : kind == 2 ? 1 : gf.get_nth_root(N);
    if (kind != 2) {
        uint64_t x = 1;
        for (unsigned i = 1; i <= N; i++) {
            x = rmul(x, w);
            sx_assert((x == 1) == (i == N), "the root does not have the order of the transform");
        }
    }
    unsigned data = sx_param("data", 0), in = sx_param("in", 0);
    if (kind == 0 && sx_param("anylen", 0)) {
        data = sx_choice("data", 1, N);
        in = sx_choice("in", 1, N);
    }
    if (!in)
        in = data ? data : N;
    if (kind == 2)
        in = 1;
    std::unique_ptr<fft::FourierTransform<TY>> f;
    switch (kind) {
    case 0: f.reset(new fft::Radix2<TY>(gf, N, data, pkt)); break;
    case 1: f.reset(new fft::Size2<TY>(gf)); break;
    case 2: f.reset(new fft::Single<TY>(gf, N)); break;
    case 3: f.reset(new fft::CooleyTukey<TY>(gf, N)); break;
    case 4: f.reset(new fft::GoodThomas<TY>(gf, N)); break;
    case 5: f.reset(new fft::Naive<TY>(gf, N, w, pkt)); break;
    default: {
        unsigned l = 0;
        while ((1u << l) < N)
            l++;
        f.reset(new fft::Large<TY>(gf, l, w));
    }
    }
    sx_assert((unsigned)f->get_n() == N, "length of the transform");
    const uint64_t iw = rpow(w, N - 1), in_n = EXTN ? 1 : rpow(N % P, P - 2);
    const unsigned rounds = sx_param("rounds", 2);
    for (unsigned round = 0; round < rounds; round++) { // an object can be used again and again
        auto x = symbols("x", in);
        auto y = symbols("y", N);
        if (kind == 2) // a transform of constants only: its inverse takes N equal values
            for (auto& v : y)
                v = y[0];
        auto X = dft(x, w, 1), Y = dft(y, iw, 1), Z = dft(y, iw, in_n);
        if (kind == 2) {
            Y = std::vector<uint64_t>(N, y[0]);
            Z = std::vector<uint64_t>(N, 0);
            Z[0] = y[0];
        }
        if (pkt == 0) {
            vec::Vector<TY> a(gf, kind == 0 ? in : N), b(gf, N), c(gf, N), d(gf, N), e(gf, N), g(gf, N);
            a.zero_fill();
            for (unsigned i = 0; i < in; i++)
                a.set(i, x[i]);
            for (unsigned i = 0; i < N; i++) {
                b.set(i, element(i + 1));
                d.set(i, element(i + 101));
                e.set(i, element(i + 201));
                g.set(i, element(i + 301));
                c.set(i, y[i]);
            }
            f->fft(b, a);
            for (unsigned i = 0; i < N; i++)
                sx_assert_eq(b.get(i), X[i], "transform");
            for (unsigned i = 0; i < in; i++)
                sx_assert_eq(a.get(i), x[i], "the transform changed its input");
            f->ifft(g, b);
            for (unsigned i = 0; i < N; i++)
                sx_assert_eq(g.get(i), i < in ? x[i] : 0, "inverse of the transform");
            f->fft_inv(d, c);
            f->ifft(e, c);
            for (unsigned i = 0; i < N; i++) {
                sx_assert_eq(d.get(i), Y[i], "unscaled inverse transform");
                sx_assert_eq(e.get(i), Z[i], "inverse transform");
                sx_assert_eq(c.get(i), y[i], "the inverse transform changed its input");
            }
            sx_reach("vector");
            continue;
        }
        // one symbolic position of the buffers, fixed values elsewhere
        const unsigned at = sx_choice("at", 0, pkt - 1), iin = kind == 0 ? sx_param("iin", 0) ? sx_choice("iin", 1, N) : N : N;
        vec::Buffers<TY> a(kind == 0 ? in : N, pkt), b(N, pkt), c(iin, pkt), d(N, pkt), e(N, pkt), g(N, pkt);
        std::vector<std::vector<uint64_t>> A(pkt), C(pkt);
        for (unsigned k = 0; k < pkt; k++) {
            A[k] = x;
            C[k] = y;
            C[k].resize(iin);
            if (k != at) {
                for (unsigned i = 0; i < in; i++)
                    A[k][i] = element(1000 + 37 * k + i);
                for (unsigned i = 0; i < iin; i++)
                    C[k][i] = element(2000 + 41 * k + (kind == 2 ? 0 : i));
            }
            for (unsigned i = 0; i < (unsigned)a.get_n(); i++)
                a.get(i)[k] = i < in ? A[k][i] : 0;
            for (unsigned i = 0; i < iin; i++)
                c.get(i)[k] = C[k][i];
            for (unsigned i = 0; i < N; i++) {
                b.get(i)[k] = element(3000 + 43 * k + i);
                d.get(i)[k] = element(4000 + 47 * k + i);
                e.get(i)[k] = element(5000 + 53 * k + i);
                g.get(i)[k] = element(6000 + 59 * k + i);
            }
        }
        std::vector<const TY*> rows;
        for (unsigned i = 0; i < N; i++)
            rows.push_back(d.get(i));
        f->fft(b, a);
        f->ifft(g, b);
        f->fft_inv(d, c);
        f->ifft(e, c);
        for (unsigned i = 0; i < N; i++)
            sx_assert(d.get(i) == rows[i], "the rows of the output were exchanged");
        for (unsigned k = 0; k < pkt; k++) {
            auto U = dft(A[k], w, 1), V = dft(C[k], iw, 1), W = dft(C[k], iw, in_n);
            if (kind == 2) {
                V = std::vector<uint64_t>(N, C[k][0]);
                W = std::vector<uint64_t>(N, 0);
                W[0] = C[k][0];
            }
            for (unsigned i = 0; i < N; i++) {
                sx_assert_eq(b.get(i)[k], U[i], "transform of buffers");
                sx_assert_eq(g.get(i)[k], i < in ? A[k][i] : 0, "inverse of the transform of buffers");
                sx_assert_eq(d.get(i)[k], V[i], "unscaled inverse transform of buffers");
                sx_assert_eq(e.get(i)[k], W[i], "inverse transform of buffers");
            }
            for (unsigned i = 0; i < in; i++)
                sx_assert_eq(a.get(i)[k], A[k][i], "the transform changed its input");
            for (unsigned i = 0; i < iin; i++)
                sx_assert_eq(c.get(i)[k], C[k][i], "the inverse transform changed its input");
        }
        sx_reach("buffers");
    }
    return 0;
}
