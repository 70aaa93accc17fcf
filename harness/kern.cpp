// Element-wise kernels of a prime field over buffers: in every build they equal the operation on each element, and leave
// everything else alone.
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
#ifndef TY
#define TY uint32_t
#endif
static uint64_t P;
static unsigned L, S; // elements processed, elements allocated
static uint64_t fixed_value(unsigned c)
{
    switch (c) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 2;
    case 3: return P - 1;
    case 4: return P - 2;
    case 5: return P / 2;
    case 6: return P / 2 + 1;
    default: return c < 24 ? filler(c) % P : c < 40 ? (1ull << (c - 24)) % P : P - 1 - ((1ull << (c - 40)) % (P - 1));
    }
}
// Symbolic elements in the window [at, at+w), fixed ones around it.
static void fill(TY* b, unsigned n, unsigned at, unsigned w, unsigned salt, const char* name)
{
    for (unsigned i = 0; i < n; i++) {
        uint32_t f = filler(i * 31 + salt);
        b[i] = i >= at && i < at + w ? sx_sym(name, 0, P - 1) : f % 7 == 0 ? P - 1 : f % 7 == 1 ? 0 : f % P;
    }
}
int main()
{
    const unsigned what = sx_param("what", 0);
    P = sx_param("p", 65537);
    L = sx_param("len", 19);
    S = L + 3;
    auto gf = gf::create<gf::Prime<TY>>((TY)P);
    const unsigned w = sx_param("w", 3);
    const unsigned at = w >= L ? 0 : sx_choice("at", 0, L - w);
    vec::Buffers<TY> A(2, S), B(2, S), R(2, S);
    TY *a = A.get(0), *b = B.get(0), *r = R.get(0);
    for (int k = 0; k < 2; k++) {
        fill(A.get(k), S, k ? S : at, w, 1 + k, "a");
        fill(B.get(k), S, S, 0, 3 + k, "b");
        fill(R.get(k), S, S, 0, 5 + k, "r");
    }
    // The second operand runs over fixed values inside the window, so that every special value meets every element.
    if (sx_param("both", 0)) {
        fill(b, S, at, w, 3, "b");
    } else if (what != 0 && what != 4) {
        unsigned c = sx_choice("c", 0, sx_param("consts", 9));
        for (unsigned i = 0; i < w && at + i < L; i++)
            b[at + i] = fixed_value(c + i);
        if (sx_param("swap", 0))
            for (unsigned i = 0; i < S; i++)
                std::swap(a[i], b[i]);
    }
    std::vector<TY> a0(a, a + S), b0(b, b + S), r0(r, r + S);
    const auto keep = [&](TY* p, std::vector<TY>& o, unsigned from, const char* m) {
        for (unsigned i = from; i < S; i++)
            sx_assert_eq(p[i], o[i], m);
    };
    switch (what) {
    case 0:
        gf.neg(L, a);
        for (unsigned i = 0; i < L; i++)
            sx_assert_eq(a[i], a0[i] == 0 ? 0 : P - a0[i], "opposite of an element");
        keep(a, a0, L, "neg wrote past the end");
        sx_reach("neg");
        break;
    case 1:
        gf.hadamard_mul(L, a, b);
        for (unsigned i = 0; i < L; i++)
            sx_assert_eq(a[i], ((uint64_t)a0[i] * b0[i]) % P, "element-wise product");
        keep(a, a0, L, "hadamard_mul wrote past the end");
        keep(b, b0, 0, "hadamard_mul changed its second operand");
        sx_reach("mul");
        break;
    case 2:
        gf.add_two_bufs(b, a, L);
        for (unsigned i = 0; i < L; i++)
            sx_assert_eq(a[i], ((uint64_t)a0[i] + b0[i]) % P, "sum of an element");
        keep(a, a0, L, "add_two_bufs wrote past the end");
        keep(b, b0, 0, "add_two_bufs changed its source");
        sx_reach("add");
        break;
    case 3:
        gf.sub_two_bufs(a, b, r, L);
        for (unsigned i = 0; i < L; i++)
            sx_assert_eq(r[i], ((uint64_t)a0[i] + (P - b0[i])) % P, "difference of an element");
        keep(r, r0, L, "sub_two_bufs wrote past the end");
        keep(a, a0, 0, "sub_two_bufs changed an operand");
        keep(b, b0, 0, "sub_two_bufs changed an operand");
        sx_reach("sub");
        break;
    case 4: { // one coefficient times a buffer
        uint64_t k = fixed_value(sx_choice("c", 0, sx_param("consts", 12)));
        if (k == P - 1 && sx_param("nomax", 1)) // documented domain of the vectorised kernel: 1 < coefficient < p - 1
            return 0;
        gf.mul_coef_to_buf(k, a, r, L);
        for (unsigned i = 0; i < L; i++)
            sx_assert_eq(r[i], (k * a0[i]) % P, "product of an element by a coefficient");
        keep(r, r0, L, "mul_coef_to_buf wrote past the end");
        keep(a, a0, 0, "mul_coef_to_buf changed its source");
        gf.mul_coef_to_buf(k, a, a, L);
        for (unsigned i = 0; i < L; i++)
            sx_assert_eq(a[i], (k * a0[i]) % P, "product in place");
        sx_reach("coef");
        break;
    }
    case 5: { // a vector of coefficients times a list of buffers; sums and differences of lists
        vec::Vector<TY> u(gf, 2);
        const TY k0 = fixed_value(sx_choice("k", 0, 8)), k1 = fixed_value(sx_choice("k", 3, 5));
        u.set(0, k0);
        u.set(1, k1);
        gf.mul_vec_to_vecp(u, A, R);
        std::vector<TY> a1(A.get(1), A.get(1) + S), b1(B.get(1), B.get(1) + S);
        for (unsigned i = 0; i < S; i++) {
            sx_assert_eq(r[i], ((uint64_t)k0 * a0[i]) % P, "coefficients times buffers");
            sx_assert_eq(R.get(1)[i], ((uint64_t)k1 * a1[i]) % P, "coefficients times buffers");
        }
        keep(a, a0, 0, "mul_vec_to_vecp changed its source");
        gf.add_vecp_to_vecp(A, B);
        for (unsigned i = 0; i < S; i++) {
            sx_assert_eq(b[i], ((uint64_t)a0[i] + b0[i]) % P, "sum of lists of buffers");
            sx_assert_eq(B.get(1)[i], ((uint64_t)a1[i] + b1[i]) % P, "sum of lists of buffers");
        }
        gf.sub_vecp_to_vecp(A, B, R);
        for (unsigned i = 0; i < S; i++) {
            sx_assert_eq(r[i], (P - b0[i]) % P, "difference of lists of buffers");
            sx_assert_eq(R.get(1)[i], (P - b1[i]) % P, "difference of lists of buffers");
        }
        gf.neg(R);
        for (unsigned i = 0; i < S; i++)
            sx_assert_eq(r[i], b0[i], "opposite of a list of buffers");
        sx_reach("lists");
        break;
    }
    }
    return 0;
}
