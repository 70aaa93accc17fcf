// Vectors, slices, views, zero extensions, lists of buffers, packing: the elements they show and the ones they touch.
#include "common.h"
#include "quadiron.h"
#include "vec_cast.h"
#include "vec_slice.h"
#include "vec_view.h"
#include "vec_zero_ext.h"
using namespace quadiron;
#ifndef TY
#define TY uint32_t
#endif
typedef vec::Vector<TY> V;
typedef vec::Buffers<TY> B;
typedef std::vector<uint64_t> M;
static uint64_t P;
static M syms(const char* name, unsigned n)
{
    M m;
    for (unsigned i = 0; i < n; i++)
        m.push_back(sx_sym(name, 0, P - 1));
    return m;
}
static void put(V& v, const M& m)
{
    for (unsigned i = 0; i < m.size(); i++)
        v.set(i, m[i]);
}
static void is(const V& v, const M& m, const char* what)
{
    sx_assert((unsigned)v.get_n() == m.size(), what);
    for (unsigned i = 0; i < m.size(); i++)
        sx_assert_eq(v.get(i), m[i], what);
}
static uint64_t scalar(unsigned c)
{
    static const uint64_t k[] = {0, 1, 2, 3, 255, 256, 0x8001, 0x10000};
    return c < 8 ? k[c] % P : filler(c) % P;
}
static void fill(B& b, std::vector<M>& m, unsigned salt, unsigned at)
{
    m.clear();
    for (int i = 0; i < b.get_n(); i++) {
        M r;
        for (size_t j = 0; j < b.get_size(); j++) {
            r.push_back(j == at ? sx_sym("b", 0, P - 1) : filler(salt + 97 * i + j) % P);
            b.get(i)[j] = r[j];
        }
        m.push_back(r);
    }
}
static void row_is(const B& b, int i, const M& m, const char* what)
{
    for (size_t j = 0; j < m.size(); j++)
        sx_assert_eq(b.get(i)[j], m[j], what);
}
int main()
{
    const unsigned what = sx_param("what", 0), N = sx_param("n", 5);
    P = sx_param("p", 257);
    auto gf = gf::create<gf::Prime<TY>>((TY)P);
    switch (what) {
    case 0: { // arithmetic on vectors
        const unsigned n = sx_choice("n", 1, N), op = sx_choice("op", 0, 9), l = sx_choice("l", 0, n), off = sx_choice("off", 0, n - l);
        M a = syms("a", n), b = syms("b", l), r = a;
        V u(gf, n), v(gf, l ? l : 1);
        put(u, a);
        put(v, b);
        switch (op) {
        case 0: {
            if (l != n)
                return 0;
            u.add(&v);
            for (unsigned i = 0; i < n; i++)
                r[i] = (a[i] + b[i]) % P;
            is(v, b, "add changed its argument");
            break;
        }
        case 1:
        case 2:
        case 3: {
            if (l == 0 || (op == 2 && off))
                return 0;
            const unsigned len = op == 3 ? sx_choice("len", 0, l) : l;
            if (op == 1)
                u.add(&v, off);
            else if (op == 2)
                u.add_mutual(&v);
            else
                u.add_mutual(&v, off, len);
            for (unsigned i = 0; i < len; i++)
                r[off + i] = (a[off + i] + b[i]) % P;
            is(v, b, "add changed its argument");
            break;
        }
        case 4: {
            if (l == 0)
                return 0;
            u.add_mutual(&v, off);
            for (unsigned i = 0; i < l; i++)
                r[off + i] = (a[off + i] + b[i]) % P;
            break;
        }
        case 5:
        case 6: {
            if (l || off)
                return 0;
            const uint64_t k = scalar(sx_choice("k", 0, 9));
            if (op == 5)
                u.mul_scalar(k);
            else
                u.mul_beta(k);
            uint64_t c = op == 5 ? k : 1;
            for (unsigned i = 0; i < n; i++) {
                r[i] = (a[i] * c) % P;
                if (op == 6)
                    c = c * k % P;
            }
            break;
        }
        case 7: {
            if (l || off)
                return 0;
            V w(gf, n);
            for (unsigned i = 0; i < n; i++) {
                w.set(i, scalar(i + n));
                r[i] = (a[i] * scalar(i + n)) % P;
            }
            u.hadamard_mul(&w);
            break;
        }
        case 8: {
            if (l || off)
                return 0;
            u.neg();
            for (unsigned i = 0; i < n; i++)
                r[i] = (P - a[i]) % P;
            break;
        }
        default: {
            if (l || off)
                return 0;
            u.fill(P - 1);
            is(u, M(n, P - 1), "fill");
            u.zero_fill();
            r = M(n, 0);
        }
        }
        is(u, r, "vector after an operation");
        sx_reach("arithmetic");
        break;
    }
    case 1: { // copies
        const unsigned n = sx_choice("n", 1, N), l = sx_choice("l", 1, N), op = sx_choice("op", 0, 6);
        M a = syms("a", n), b = syms("b", l), r = a;
        V u(gf, n), v(gf, l);
        put(u, a);
        put(v, b);
        switch (op) {
        case 0:
            if (l > n)
                return 0;
            u.copy(&v);
            for (unsigned i = 0; i < l; i++)
                r[i] = b[i];
            break;
        case 1:
        case 2:
        case 3: { // n elements of v from `src` on, zeros after its end
            const unsigned cnt = sx_choice("cnt", 0, n), off = op >= 2 ? sx_choice("off", 0, n - cnt) : 0, src = op == 3 ? sx_choice("src", 0, l) : 0;
            if (op == 1)
                u.copy(&v, cnt);
            else if (op == 2)
                u.copy(&v, cnt, off);
            else
                u.copy(&v, cnt, off, src);
            for (unsigned i = 0; i < cnt; i++)
                r[off + i] = src + i < l ? b[src + i] : 0;
            break;
        }
        case 4: { // copies are independent, assignments take the length
            V w(u), x(v);
            x = u;
            w.set(0, (a[0] + 1) % P);
            x.set(n - 1, (a[n - 1] + 1) % P);
            M y = a, z = a;
            y[0] = (a[0] + 1) % P;
            z[n - 1] = (a[n - 1] + 1) % P;
            is(w, y, "copied vector");
            is(x, z, "assigned vector");
            V t(std::move(w));
            is(t, y, "moved vector");
            x = std::move(t);
            is(x, y, "move-assigned vector");
            bool same = l == n;
            for (unsigned i = 0; i < n && i < l; i++)
                same = same & (a[i] == b[i]);
            sx_assert((u == v) == same, "comparison");
            break;
        }
        case 5: { // exchanges
            swap(u, v);
            is(u, b, "exchange of vectors");
            is(v, a, "exchange of vectors");
            swap(u, v);
            const unsigned i = sx_choice("i", 0, n - 1), j = sx_choice("j", 0, n - 1);
            u.swap(i, j);
            std::swap(r[i], r[j]);
            break;
        }
        default: { // a vector over given memory
            if (l > n)
                return 0;
            V w(gf, l, u.get_mem() + (n - l), l);
            for (unsigned i = 0; i < l; i++)
                w.set(i, b[i]);
            is(w, b, "vector over given memory");
            for (unsigned i = 0; i < l; i++)
                r[n - l + i] = b[i];
        }
        }
        is(u, r, "vector after a copy");
        sx_reach("copies");
        break;
    }
    case 2: { // slices, views, zero extensions
        const unsigned n = sx_choice("n", 1, N);
        M a = syms("a", n);
        V u(gf, n);
        put(u, a);
        const unsigned op = sx_choice("op", 0, 2), l = sx_choice("l", 1, n), off = sx_choice("off", 0, n);
        if (op == 0) {
            vec::Slice<TY> s(&u, l, off);
            unsigned at = off;
            for (unsigned round = 0; round < 2; round++) {
                M w;
                for (unsigned i = 0; i < l && at + i < n; i++)
                    w.push_back(a[at + i]);
                is(s, w, "slice");
                sx_assert((unsigned)s.get_offset() == at, "offset of a slice");
                if (!w.empty()) {
                    uint64_t x = sx_sym("x", 0, P - 1);
                    s.set(w.size() - 1, x);
                    a[at + w.size() - 1] = x;
                    s.neg();
                    for (unsigned i = 0; i < w.size(); i++)
                        a[at + i] = (P - a[at + i]) % P;
                }
                is(u, a, "vector under a slice");
                if (round == 0) {
                    at = sx_choice("next", off, n);
                    s.set_map(at);
                }
            }
        } else if (op == 1) {
            unsigned step = sx_choice("step", 1, 3), o = off;
            vec::View<TY> s(&u, l, off, step);
            for (unsigned round = 0; round < 2; round++) {
                M w;
                for (unsigned i = 0; i < l; i++)
                    w.push_back(a[(o + step * i) % n]);
                is(s, w, "view");
                uint64_t x = sx_sym("x", 0, P - 1);
                s.set(l - 1, x);
                a[(o + step * (l - 1)) % n] = x;
                is(u, a, "vector under a view");
                if (round == 0) {
                    o = sx_choice("next", 0, n);
                    step = 4 - step;
                    s.set_map(o, step);
                }
            }
            M b = syms("b", n);
            V v(gf, n);
            put(v, b);
            s.set_vec(&v);
            s.set_len(1);
            sx_assert(s.get_n() == 1, "length of a view");
            sx_assert_eq(s.get(0), b[o % n], "view of another vector");
        } else {
            const unsigned len = n + off;
            vec::ZeroExtended<TY> s(u, len);
            M w = a;
            w.resize(len, 0);
            is(s, w, "zero extension");
        }
        sx_reach("views");
        break;
    }
    case 3: { // lists of buffers
        const unsigned n = sx_choice("n", 1, N), size = sx_choice("size", 1, 3), at = sx_choice("at", 0, size - 1), op = sx_choice("op", 0, 7);
        std::vector<M> m, m2;
        B b(n, size);
        fill(b, m, 1, at);
        sx_assert((unsigned)b.get_n() == n && b.get_size() == size && b.get_mem_len() == (int)(n * size) && b.get_mem().size() == n, "sizes");
        switch (op) {
        case 0: { // clones
            const unsigned k = sx_choice("k", 0, N + 1), len = k ? k : n;
            B c(b, k);
            sx_assert((unsigned)c.get_n() == len && c.get_size() == size && c.get_mem_len() == (int)(len * size) && c.get_mem().size() == len, "sizes of a clone");
            for (unsigned i = 0; i < len; i++) {
                row_is(c, i, i < n ? m[i] : M(size, 0), "clone");
                sx_assert(i >= n || c.get(i) != b.get(i), "a clone shares memory");
            }
            c.fill(0, 3 % P);
            row_is(c, 0, M(size, 3 % P), "fill");
            bool same = len == n;
            for (unsigned i = 0; same && i < n; i++)
                for (unsigned j = 0; j < size; j++)
                    same = same & (c.get(i)[j] == m[i][j]);
            sx_assert((c == b) == same, "comparison");
            c.zero_fill();
            for (unsigned i = 0; i < len; i++)
                row_is(c, i, M(size, 0), "zero_fill");
            break;
        }
        case 1: { // ranges, extended by zeros
            const unsigned from = sx_choice("from", 0, n), to = sx_choice("to", 1, N + 2);
            if (from >= to)
                return 0;
            B c(b, (int)from, (int)to);
            sx_assert((unsigned)c.get_n() == to - from && c.get_size() == size && c.get_mem().size() == to - from, "sizes of a range");
            for (unsigned i = 0; i < to - from; i++) {
                row_is(c, i, from + i < n ? m[from + i] : M(size, 0), "range");
                sx_assert((c.get(i) == (from + i < n ? b.get(from + i) : c.get(to - from - 1))), "memory of a range");
            }
            break;
        }
        case 2: { // concatenation
            const unsigned k = sx_choice("k", 1, 3);
            B c(k, size);
            fill(c, m2, 5, at);
            B d(b, c);
            sx_assert((unsigned)d.get_n() == n + k && d.get_size() == size && d.get_mem().size() == n + k, "sizes of a concatenation");
            for (unsigned i = 0; i < n + k; i++)
                sx_assert(d.get(i) == (i < n ? b.get(i) : c.get(i - n)), "concatenation");
            break;
        }
        case 3: { // shuffles, extended by zeros; then used as a part of a list
            const unsigned len = sx_choice("len", 1, N + 1), k = sx_choice("k", 1, n), rot = sx_choice("rot", 0, len - 1);
            if (k > len)
                return 0;
            V map(gf, k);
            for (unsigned i = 0; i < k; i++)
                map.set(i, (i + rot) % len);
            if (n >= len && k < len) // the other rows are unspecified
                return 0;
            B c(b, map, len);
            sx_assert((unsigned)c.get_n() == len && c.get_mem().size() == len, "sizes of a shuffle");
            for (unsigned i = 0; i < len; i++) {
                unsigned from = (i + len - rot) % len;
                row_is(c, i, from < k ? m[from] : M(size, 0), "shuffle");
            }
            B d(c, b);
            for (unsigned i = 0; i < len + n; i++)
                row_is(d, i, i >= len ? m[i - len] : (i + len - rot) % len < k ? m[(i + len - rot) % len] : M(size, 0), "shuffle within a list");
            break;
        }
        case 4: { // copies of rows
            B c(n, size + 1);
            fill(c, m2, 9, at);
            c.copy(b);
            for (unsigned i = 0; i < n; i++) {
                M w = m[i];
                w.push_back(m2[i][size]);
                row_is(c, i, w, "copy");
            }
            b.copy((int)(n - 1), c.get(0));
            m[n - 1] = m[0];
            break;
        }
        case 5: { // exchange of rows, even and odd rows
            const unsigned i = sx_choice("i", 0, n - 1), j = sx_choice("j", 0, n - 1);
            b.swap(i, j);
            std::swap(m[i], m[j]);
            if (n % 2 == 0) {
                std::vector<TY*> none(n / 2, nullptr);
                B even(b, 0, n / 2), odd(b, 0, n / 2);
                b.separate_even_odd(even, odd);
                for (unsigned q = 0; q < n / 2; q++) {
                    row_is(even, q, m[2 * q], "even rows");
                    row_is(odd, q, m[2 * q + 1], "odd rows");
                }
                b.separate_even_odd();
                std::vector<M> w;
                for (unsigned q = 0; q < n; q++)
                    w.push_back(m[q < n / 2 ? 2 * q : 2 * (q - n / 2) + 1]);
                m = w;
            }
            break;
        }
        case 6: { // given memory is used in place and left alone
            std::vector<std::vector<TY>> own(n, std::vector<TY>(size, 7 % P));
            std::vector<TY*> ptr;
            for (auto& o : own)
                ptr.push_back(o.data());
            {
                B c(n, size, ptr);
                c.copy(b);
                for (unsigned i = 0; i < n; i++)
                    sx_assert(c.get(i) == own[i].data(), "given memory");
            }
            for (unsigned i = 0; i < n; i++)
                for (unsigned j = 0; j < size; j++)
                    sx_assert_eq(own[i][j], m[i][j], "given memory");
            break;
        }
        default: { // rows replaced in a range
            B c(b, 0, (int)n);
            std::vector<TY> row(size, 5 % P);
            c.set(n - 1, row.data());
            row_is(c, n - 1, M(size, 5 % P), "replaced row");
        }
        }
        for (unsigned i = 0; i < n; i++)
            row_is(b, i, m[i], "list of buffers after an operation");
        sx_reach("buffers");
        break;
    }
    case 4: { // packing words of 1, 2, 4, .. bytes into elements and back
        const unsigned n = 2, size = sx_choice("size", 1, N);
        unsigned ws = 1u << sx_choice("ws", 0, 4);
        if (ws > sizeof(TY))
            return 0;
        std::vector<std::vector<uint8_t>> in(n, std::vector<uint8_t>(ws * size + 4)), out = in;
        std::vector<std::vector<TY>> el(n, std::vector<TY>(size + 2));
        for (unsigned i = 0; i < n; i++) {
            for (unsigned j = 0; j < in[i].size(); j++) {
                in[i][j] = sx_sym("byte", 0, 255);
                out[i][j] = 0xa5;
            }
            for (auto& x : el[i])
                x = 77;
        }
        std::vector<uint8_t*> pi, po;
        std::vector<TY*> pe;
        for (unsigned i = 0; i < n; i++) {
            pi.push_back(in[i].data());
            po.push_back(out[i].data());
            pe.push_back(el[i].data());
        }
        auto keep = in;
        vec::pack<uint8_t, TY>(pi, pe, n, size, ws);
        for (unsigned i = 0; i < n; i++) {
            for (unsigned j = 0; j < size + 2; j++) {
                TY x = 0;
                for (unsigned k = 0; j < size && k < ws; k++)
                    x |= (TY)keep[i][j * ws + k] << (8 * k);
                sx_assert(el[i][j] == (j < size ? x : (TY)77), "packed element");
            }
            for (unsigned j = 0; j < in[i].size(); j++)
                sx_assert_eq(in[i][j], keep[i][j], "packing changed its input");
        }
        vec::unpack<TY, uint8_t>(pe, po, n, size, ws);
        for (unsigned i = 0; i < n; i++)
            for (unsigned j = 0; j < out[i].size(); j++)
                sx_assert_eq(out[i][j], j < ws * size ? keep[i][j] : 0xa5, "unpacked byte");
        // an element that does not fit keeps its low bytes
        TY big = 0;
        for (unsigned k = 0; k < sizeof(TY); k++)
            big |= (TY)sx_sym("big", 0, 255) << (8 * k);
        el[0][0] = big;
        vec::unpack<TY, uint8_t>(pe, po, 1, 1, ws);
        for (unsigned k = 0; k < ws; k++)
            sx_assert_eq(out[0][k], (uint8_t)(big >> (8 * k)), "truncated element");
        sx_reach("packing");
        break;
    }
    }
    return 0;
}
