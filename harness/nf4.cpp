// Groups of elements of GF(65537): every operation must act on each element separately.
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
#ifndef TY
#define TY uint64_t
#endif
// The base class looks for a root of the group by brute force; NF4 takes its roots from the field of 65537 elements.
struct NoInit {
};
namespace quadiron {
namespace gf {
template <>
NF4<TY> create<NF4<TY>, unsigned, NoInit>(unsigned n, NoInit)
{
    return NF4<TY>(n);
}
} // namespace gf
} // namespace quadiron
static const uint32_t P = 65537;
static uint32_t rpow(uint32_t a, uint32_t e)
{
    uint64_t r = 1, b = a;
    while (e) {
        if (e & 1)
            r = r * b % P;
        b = b * b % P;
        e >>= 1;
    }
    return r;
}
static TY group(const std::vector<uint32_t>& v)
{
    TY r = 0;
    for (int i = (int)v.size() - 1; i >= 0; i--)
        r = ((r << 16) << 16) | v[i];
    return r;
}
static uint32_t element(TY v, unsigned i)
{
    return (uint32_t)(v >> (32 * i));
}
static std::vector<uint32_t> elements(const char* name, unsigned n, uint32_t lo = 0)
{
    std::vector<uint32_t> v;
    for (unsigned i = 0; i < n; i++)
        v.push_back(sx_sym(name, lo, P - 1));
    return v;
}
static void same(TY v, const std::vector<uint32_t>& e, const char* msg)
{
    for (unsigned i = 0; i < sizeof(TY) / 4; i++)
        sx_assert_eq(element(v, i), i < e.size() ? e[i] : 0, msg);
}
int main()
{
    const unsigned what = sx_param("what", 0), n = sx_param("n", sizeof(TY) / 4);
    auto gf = gf::create<gf::NF4<TY>>(n, NoInit());
    std::vector<uint32_t> r(n);
    if (what == 0) {
        auto a = elements("a", n), b = elements("b", n);
        TY ga = group(a), gb = group(b);
        for (unsigned i = 0; i < n; i++)
            r[i] = (a[i] + b[i]) % P;
        same(gf.add(ga, gb), r, "sum");
        for (unsigned i = 0; i < n; i++)
            r[i] = a[i] >= b[i] ? a[i] - b[i] : P + a[i] - b[i];
        same(gf.sub(ga, gb), r, "difference");
        for (unsigned i = 0; i < n; i++)
            r[i] = a[i] ? P - a[i] : 0;
        same(gf.neg(ga), r, "opposite");
        for (unsigned i = 0; i < n; i++)
            r[i] = a[0];
        same(gf.replicate(a[0]), r, "replicate");
        for (unsigned i = 0; i < n; i++)
            r[i] = 1;
        same(gf.get_unit(), r, "unit");
        sx_reach("add");
    } else if (what == 1) { // products: one operand concrete (extreme values included), the other symbolic
        static const uint32_t sp[] = {0, 1, 2, 3, 255, 256, 32768, 65535, 65536, 65534, 40503, 12345};
        unsigned c = sx_choice("c", 0, 11);
        auto a = elements("a", n);
        std::vector<uint32_t> b;
        for (unsigned i = 0; i < n; i++)
            b.push_back(sp[(c + 5 * i) % 12]);
        TY ga = group(a), gb = group(b);
        for (unsigned i = 0; i < n; i++)
            r[i] = (uint64_t)a[i] * b[i] % P;
        same(gf.mul(ga, gb), r, "product");
        same(gf.mul(gb, ga), r, "product of exchanged operands");
        alignas(32) TY x[3] = {ga, gb, ga}, y[3] = {gb, ga, gb};
        gf.hadamard_mul(3, x, y);
        for (unsigned i = 0; i < 3; i++)
            same(x[i], r, "element-wise product");
        alignas(32) TY s[3] = {ga, ga, ga}, d[3] = {};
        gf.mul_coef_to_buf(gb, s, d, 3);
        for (unsigned i = 0; i < 3; i++)
            same(d[i], r, "product of a buffer by a coefficient");
        sx_reach("mul");
    } else if (what == 2) { // inverses, quotients, powers
        static const uint32_t sp[] = {0, 1, 2, 65535, 65536, 300};
        unsigned c = sx_choice("c", 0, 5);
        auto a = elements("a", n, 1);
        TY ga = group(a), inv = gf.inv(ga);
        std::vector<uint32_t> b;
        for (unsigned i = 0; i < n; i++)
            b.push_back(sp[(c + i) % 6]);
        TY q = gf.div(group(b), ga);
        TY e = gf.exp(ga, group(b));
        for (unsigned i = 0; i < sizeof(TY) / 4; i++) {
            uint32_t v = element(inv, i), w = element(q, i), x = element(e, i);
            if (i >= n) {
                sx_assert(v == 0 && w == 0 && x == 0, "unused elements");
                continue;
            }
            sx_assert(v < P && w < P, "an element of the field");
            sx_assert_eq((uint64_t)v * a[i] % P, 1, "an element times its inverse");
            sx_assert_eq((uint64_t)w * a[i] % P, b[i], "quotient times divisor");
            sx_assert_eq(x, rpow(a[i], b[i]), "power");
        }
        sx_reach("inv");
    } else if (what == 3) { // pack / unpack
        auto a = elements("a", n);
        TY ga = group(a);
        GroupedValues<TY> u = gf.unpack(ga), u2;
        gf.unpack(ga, u2);
        sx_assert(u.values == u2.values && u.flag == u2.flag, "both ways to unpack agree");
        for (unsigned i = 0; i < sizeof(TY) / 2; i++) {
            uint16_t h = (uint16_t)(u.values >> (16 * i));
            sx_assert(i >= n ? h == 0 : h == (a[i] == 65536 ? 0 : a[i]), "unpacked value");
        }
        for (unsigned i = 0; i < 32; i++)
            sx_assert(((u.flag >> i) & 1) == (i < n && a[i < n ? i : 0] == 65536), "flag of an element that does not fit 16 bits");
        same(gf.pack(u.values, u.flag), a, "packing what was unpacked");
        // any 16-bit values, any flags
        TY w = 0;
        std::vector<uint32_t> h(n);
        for (unsigned i = 0; i < n; i++) {
            h[i] = sx_sym("h", 0, 65535);
            w |= (TY)h[i] << (16 * i);
        }
        same(gf.pack(w), h, "packed values");
        uint32_t flag = sx_sym("flag", 0, (1u << n) - 1);
        for (unsigned i = 0; i < n; i++)
            r[i] = (flag >> i) & 1 ? 65536 : h[i];
        same(gf.pack(w, flag), r, "packed values with flags");
        sx_reach("pack");
    } else if (what == 4) { // roots and constants of the transforms
        unsigned k = sx_choice("k", 1, 16);
        unsigned d = k & -k; // gcd(k, 65536)
        TY w = gf.get_nth_root(k);
        for (unsigned i = 0; i < n; i++) {
            uint32_t e = element(w, i), x = 1;
            sx_assert(e == element(w, 0), "the same root in every element");
            for (unsigned j = 1; j <= d; j++) {
                x = (uint64_t)x * e % P;
                sx_assert((x == 1) == (j == d), "order of the root");
            }
        }
        TY iv = gf.get_inv_n_mod_p(k);
        for (unsigned i = 0; i < n; i++)
            sx_assert((uint64_t)element(iv, i) * k % P == 1, "inverse of the length");
        vec::Vector<TY> W(gf, k);
        gf.compute_omegas(W, k, w);
        for (unsigned j = 0; j < k; j++)
            for (unsigned i = 0; i < n; i++)
                sx_assert(element(W.get(j), i) == rpow(element(w, 0), j), "powers of the root");
        sx_reach("roots");
    }
    return 0;
}
