// Word-level encode / erase / decode with every data word symbolic.
//   CODE: 1 RsFnt, 2 RsGf2n Vandermonde, 3 RsGf2n Cauchy, 4 RsGf2nFft, 5 RsGf2nFftAdd, 6 RsGfpFft, 7 RsNf4
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
#ifndef TY
#define TY uint32_t
#endif
typedef TY T;
#ifdef NOINIT
// The base class looks for a root of the whole group by brute force (10^8 steps and more for groups of
// elements); NF4 takes its roots from the field of 65537 elements instead.
namespace quadiron {
namespace gf {
template <>
std::unique_ptr<Field<T>> alloc<Field<T>, NF4<T>, NOINIT>(NOINIT n)
{
    std::unique_ptr<Field<T>> gf(new NF4<T>(n));
    gf->compute_factors_of_order();
    return gf;
}
} // namespace gf
} // namespace quadiron
#endif
// refusing parameters: an assertion or an exception of the constructor
static bool refusing = false;
#ifdef REFUSE
extern "C" void __assert_fail(const char* e, const char* file, unsigned line, const char*) noexcept
{
    if (refusing) {
        sx_reach("refused");
        exit(0);
    }
    sx_fail(e);
    abort();
}
#endif
static uint64_t lo(T v) { return (uint64_t)v; }
int main()
{
    const unsigned k = sx_param("k", 3), m = sx_param("m", 2), ws = sx_param("ws", 1), W = sx_param("words", 1);
    const unsigned first = sx_param("offset", 0);
    const uint64_t lim = sx_param("subsets", 1000);
    std::unique_ptr<fec::FecCode<T>> code;
    refusing = true;
    try {
#if CODE == 1
    code.reset(new fec::RsFnt<T>(sx_param("sys", 0) ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC, ws, k, m, sx_param("pkt", 8)));
#elif CODE == 2
    code.reset(new fec::RsGf2n<T>(ws, k, m, fec::RsMatrixType::VANDERMONDE));
#elif CODE == 3
    code.reset(new fec::RsGf2n<T>(ws, k, m, fec::RsMatrixType::CAUCHY));
#elif CODE == 4
    code.reset(new fec::RsGf2nFft<T>(ws, k, m));
#elif CODE == 5
    code.reset(new fec::RsGf2nFftAdd<T>(ws, k, m));
#elif CODE == 6
    code.reset(new fec::RsGfpFft<T>(ws, k, m));
#elif CODE == 7
    code.reset(new fec::RsNf4<T>(ws, k, m, sx_param("pkt", 8)));
#endif
    } catch (const std::exception&) {
        sx_reach("refused");
        return 0;
    }
    refusing = false;
#ifdef REFUSE
    sx_fail("a code that its field cannot serve is accepted");
#endif
    const bool sys = code->type == fec::FecType::SYSTEMATIC;
    const unsigned n = k + m;
    const uint64_t maxv = ws >= 8 ? ~0ull : (1ull << (8 * ws)) - 1;
    const gf::Field<T>& gf = code->get_gf();
    std::vector<Properties> props(code->n_outputs);
    std::vector<std::vector<T>> data(W), frag(W);
    const unsigned lanes = ws <= 2 || CODE == 6 ? 1 : ws / 2;
    std::vector<uint64_t> lane;
    // nsym words of each row are symbolic (spread over the row), the others fixed
    const unsigned nsym = sx_param("nsym", k), shift = sx_param("shift", 0);
    std::vector<bool> symb(k, nsym >= k);
    for (unsigned i = 0; i < nsym && nsym < k; i++)
        symb[(shift + i * (k - 1) / (nsym > 1 ? nsym - 1 : 1)) % k] = true;
    const bool nomark = sx_param("nomark", 0);
    for (unsigned o = 0; o < W; o++) {
        vec::Vector<T> words(gf, k), output(gf, code->get_n_outputs());
        for (unsigned i = 0; i < k; i++) {
            T v = 0;
            if (!symb[i])
                v = filler(i + 1) & maxv;
            else if (ws <= 2 || CODE == 6)
                v = sx_sym("d", 0, maxv);
            else
                for (unsigned h = 0; h < lanes; h++) {
                    lane.push_back(sx_sym("d", 0, 65535));
                    v |= (T)lane.back() << (16 * h);
                }
            data[o].push_back(v);
            words.set(i, v);
        }
        code->encode(output, props, first + o, words);
        if (nomark)
            for (unsigned i = 0; i < code->n_outputs; i++)
                sx_assume(props[i].get_map().empty());
        for (unsigned i = 0; i < code->n_outputs; i++) {
            frag[o].push_back(output.get(i) & (T)maxv); // what a fragment of ws-byte words can carry
            sx_out("frag", lo(frag[o][i]));
        }
    }
    // which k fragments survive
    std::vector<int> ids = any_subset("survivors", n, k, lim);
    unsigned idx = 0, nd = 0;
    vec::Vector<T> fragments_ids(gf, k);
    for (int id : ids) {
        if (sys && (unsigned)id < k) {
            code->decode_add_data(idx, id);
            nd++;
        } else
            code->decode_add_parities(idx, sys ? id - k : id);
        fragments_ids.set(idx++, id);
    }
    if (sys && nd == k) {
        sx_reach("all data present");
        return 0;
    }
    code->decode_build();
    std::unique_ptr<fec::DecodeContext<T>> ctx = code->init_context_dec(fragments_ids, props);
    for (unsigned o = 0; o < W; o++) {
        vec::Vector<T> words(gf, sys ? k : n), output(gf, k);
        words.zero_fill();
        for (unsigned i = 0; i < k; i++) {
            unsigned id = ids[i];
            words.set(i, sys ? (id < k ? data[o][id] : frag[o][id - k]) : frag[o][id]);
        }
        code->decode(*ctx, output, props, first + o, words);
        for (unsigned i = 0; i < k; i++) {
            T v = output.get(i);
            if (lanes > 1) {
                for (unsigned h = 0; h < lanes; h++)
                    sx_assert_eq((uint64_t)(v >> (16 * h)) & 0xffff, lane[(o * k + i) * lanes + h], "decoded word differs from the encoded one");
                sx_assert((v & ~(T)maxv) == 0, "decoded word differs from the encoded one");
            } else
                sx_assert(v == data[o][i], "decoded word differs from the encoded one");
        }
    }
    sx_reach("decoded");
    return 0;
}
