// Block interface of the codes: encode_blocks_vertical / decode_blocks_vertical.
// One word position per block is symbolic in every data fragment, the others hold fixed values
// (among them positions whose fragments carry out-of-range markers).
//   CODE: 1 RsFnt, 7 RsNf4
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
#ifndef TY
#define TY uint32_t
#endif
typedef TY T;
#ifdef NOINIT
// The base class looks for a root of the whole group by brute force (10^8 steps and more for groups of
// elements); NF4 takes its roots from the field of 65537 elements instead.
namespace quadiron {
namespace gf {
template <>
std::unique_ptr<Field<T>> alloc<Field<T>, NF4<T>, NOINIT>(NOINIT n)
{
    std::unique_ptr<Field<T>> gf(new NF4<T>(n));
    gf->compute_factors_of_order();
    return gf;
}
} // namespace gf
} // namespace quadiron
#endif
static uint64_t word(const uint8_t* p, unsigned ws)
{
    uint64_t v = 0;
    for (unsigned b = 0; b < ws; b++)
        v |= (uint64_t)p[b] << (8 * b);
    return v;
}
int main()
{
    const unsigned k = sx_param("k", 2), m = sx_param("m", 1), ws = sx_param("ws", 1), pkt = sx_param("pkt", 4);
    const unsigned sys = sx_param("sys", 0), words = sx_param("words", 6), extra = sx_param("fewer", 0);
    const uint64_t lim = sx_param("subsets", 1000);
#if CODE == 1
    fec::RsFnt<T> code(sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC, ws, k, m, pkt);
#else
    fec::RsNf4<T> code(ws, k, m, pkt);
#endif
    const unsigned n = k + m, nout = sys ? m : n, bs = words * ws;
    // which word of the block is symbolic
    const unsigned nsym = sx_param("nsym", 1);
    unsigned pos = sx_param("pos", 0);
    if (sx_param("anypos", 0))
        pos = sx_choice("pos", 0, words - nsym);
    std::vector<std::vector<uint8_t>> orig(k);
    std::vector<uint8_t*> data(k);
    const bool marks = sx_param("marks", 1);
    // number of data fragments with symbolic words, spread over all of them
    const unsigned nfrag = sx_param("nfrag", k);
    std::vector<bool> symf(k, nfrag >= k);
    for (unsigned i = 0; i < nfrag && nfrag < k; i++)
        symf[(i + 1) * k / (nfrag + 1)] = true;
    for (unsigned i = 0; i < k; i++) {
        data[i] = (uint8_t*)malloc(bs);
        for (unsigned w = 0; w < words; w++) {
            const bool sym = symf[i] && w >= pos && w < pos + nsym;
            uint64_t val = 0;
            if (sym)
                for (unsigned h = 0; h < ws; h += 2)
                    val |= sx_sym("d", 0, ws == 1 ? 255 : 65535) << (8 * h);
            for (unsigned b = 0; b < ws; b++) {
                uint8_t v = filler(i * 977 + w * 31 + b);
                if (marks && w % 3 == 2) // column (max, 1, 0, ...): sums to p-1
                    v = i == 0 ? 255 : (i == 1 && b == 0 ? 1 : 0);
                if (sym)
                    v = val >> (8 * b);
                data[i][w * ws + b] = v;
                orig[i].push_back(v);
            }
        }
    }
    // which fragments survive, and at most one output that the caller does not want
    const unsigned keep = k - extra;
    std::vector<int> ids = any_subset("survivors", n, keep, lim);
    std::vector<int> alive(n, 0);
    for (int id : ids)
        alive[id] = 1;
    std::vector<uint8_t*> out(nout);
    std::vector<bool> wanted(nout, true);
    if (sx_param("encwant", 0)) {
        // outputs which nobody needs are not asked for
        for (unsigned i = 0; i < nout; i++)
            if (!alive[sys ? k + i : i])
                wanted[i] = false;
    }
    for (unsigned i = 0; i < nout; i++)
        out[i] = wanted[i] ? (uint8_t*)malloc(bs) : nullptr;
    std::vector<Properties> props(nout);
    props[0].add(1, OOR_MARK); // stale entries must not survive
    code.encode_blocks_vertical(data, out, props, wanted, bs);
    for (unsigned i = 0; i < k; i++)
        for (unsigned b = 0; b < bs; b += ws)
            sx_assert(word(data[i] + b, ws) == word(&orig[i][b], ws), "encoding modified a data fragment");
    for (unsigned i = 0; i < nout; i++)
        if (wanted[i])
            for (unsigned b = pos * ws; b < (pos + nsym) * ws; b++)
                sx_out("frag", out[i][b]);
    sx_reach("encoded");
    // erase
    std::vector<int> missing(n, 1);
    std::vector<uint8_t*> rdata(k, nullptr), rpar(nout, nullptr);
    std::vector<bool> want(k, false);
    const unsigned wantmax = sx_param("wantmax", 1);
    unsigned skip = wantmax ? sx_choice("notwanted", 0, wantmax) : 0; // 0: everything is wanted
    for (unsigned i = 0; i < n; i++)
        missing[i] = alive[i] ? 0 : 1;
    for (unsigned i = 0; i < k; i++) {
        bool present = sys && alive[i];
        want[i] = !present && skip != i + 1;
        if (present || want[i] || skip == i + 1) {
            rdata[i] = (uint8_t*)malloc(bs);
            for (unsigned b = 0; b < bs; b++)
                rdata[i][b] = present ? data[i][b] : 0x5a;
        }
    }
    for (unsigned i = 0; i < nout; i++)
        if (alive[sys ? k + i : i]) {
            rpar[i] = out[i];
        } else if (out[i]) {
            free(out[i]);
            out[i] = nullptr;
        }
    std::vector<std::vector<uint8_t>> keepout(nout);
    for (unsigned i = 0; i < nout; i++)
        if (rpar[i])
            keepout[i].assign(rpar[i], rpar[i] + bs);
    if (sx_param("hostile", 0)) { // marks the encoder never makes
        const int f = ids[sx_choice("bad", 0, ids.size() - 1)];
        if (!sys || f >= (int)k)
            for (unsigned i = 0; i < sx_param("hostile", 0); i++)
                props[sys ? f - k : f].add(sx_sym("loc", 0, ~0ull), sx_sym("mark", 0, 0xffffffff));
        code.decode_blocks_vertical(rdata, rpar, props, missing, want, bs);
        for (unsigned i = 0; i < k; i++)
            if (rdata[i] && sys && alive[i])
                for (unsigned b = 0; b < bs; b += ws)
                    sx_assert(word(rdata[i] + b, ws) == word(&orig[i][b], ws), "a surviving data fragment was modified");
        for (unsigned i = 0; i < nout; i++)
            if (rpar[i])
                for (unsigned b = 0; b < bs; b += ws)
                    sx_assert(word(rpar[i] + b, ws) == word(&keepout[i][b], ws), "decoding modified a parity fragment");
        sx_reach("hostile marks survived");
        return 0;
    }
    if (sx_param("rev", 0)) // the marks in another order
        for (auto& p : props) {
            auto l = p.get_map();
            p.clear();
            for (size_t i = l.size(); i > 0; i--)
                p.add(l[i - 1].first, l[i - 1].second);
        }
    bool ok = code.decode_blocks_vertical(rdata, rpar, props, missing, want, bs);
    if (extra) {
        sx_assert(!ok, "decoding from too few fragments reports success");
        for (unsigned i = 0; i < k; i++)
            if (rdata[i])
                for (unsigned b = 0; b < bs; b++)
                    sx_assert(rdata[i][b] == (sys && alive[i] ? orig[i][b] : 0x5a), "a failed decode wrote a buffer");
        sx_reach("refused");
        return 0;
    }
    sx_assert(ok, "decoding from k fragments reports failure");
    for (unsigned i = 0; i < k; i++) {
        if (!rdata[i])
            continue;
        bool present = sys && alive[i];
        for (unsigned b = 0; b < bs; b += ws)
            if (present)
                sx_assert(word(rdata[i] + b, ws) == word(&orig[i][b], ws), "a surviving data fragment was modified");
            else if (want[i])
                sx_assert(word(rdata[i] + b, ws) == word(&orig[i][b], ws), "a rebuilt data fragment differs from the original");
            else
                sx_assert(word(rdata[i] + b, ws) == (0x5a5a5a5a5a5a5a5aull & (ws >= 8 ? ~0ull : (1ull << (8 * ws)) - 1)), "a fragment nobody wanted was written");
    }
    for (unsigned i = 0; i < nout; i++)
        if (rpar[i])
            for (unsigned b = 0; b < bs; b += ws)
                sx_assert(word(rpar[i] + b, ws) == word(&keepout[i][b], ws), "decoding modified a parity fragment");
    sx_reach("decoded");
    return 0;
}
