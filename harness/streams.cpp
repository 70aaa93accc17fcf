// Stream interface of the codes: encode_streams_{horizontal,vertical} and decode_streams_{horizontal,vertical}.
// One word position per stream is symbolic in every data stream (all of them with nsym=words), the others hold fixed
// values (among them positions whose fragments carry out-of-range markers).
//   CODE: 1 RsFnt, 2 RsGf2n Vandermonde, 3 RsGf2n Cauchy, 4 RsGf2nFft, 5 RsGf2nFftAdd, 6 RsGfpFft, 7 RsNf4
#include <cstddef>
// the streams themselves are executed too
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "common.h"
#include "memstream.h"
#include <istream>
#include <ostream>
#include <cstring>
#include <streambuf>
#include "quadiron.h"
using namespace quadiron;
#ifndef TY
#define TY uint32_t
#endif
typedef TY T;
static std::unique_ptr<fec::FecCode<T>> make(unsigned sys, unsigned ws, unsigned k, unsigned m, unsigned pkt)
{
    std::unique_ptr<fec::FecCode<T>> code;
#if CODE == 1
    code.reset(new fec::RsFnt<T>(sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC, ws, k, m, pkt));
#elif CODE == 2
    code.reset(new fec::RsGf2n<T>(ws, k, m, fec::RsMatrixType::VANDERMONDE));
#elif CODE == 3
    code.reset(new fec::RsGf2n<T>(ws, k, m, fec::RsMatrixType::CAUCHY));
#elif CODE == 4
    code.reset(new fec::RsGf2nFft<T>(ws, k, m));
#elif CODE == 5
    code.reset(new fec::RsGf2nFftAdd<T>(ws, k, m));
#elif CODE == 6
    code.reset(new fec::RsGfpFft<T>(ws, k, m));
#elif CODE == 7
    code.reset(new fec::RsNf4<T>(ws, k, m, pkt));
#endif
    return code;
}
// how: 0 encode_streams_horizontal, 1 encode_streams_vertical, 2 encode_blocks_vertical
static void encode(fec::FecCode<T>& code, unsigned how, const std::vector<Bytes>& data, std::vector<Bytes>& out, std::vector<Properties>& props)
{
    if (how == 2) {
        std::vector<Bytes> d = data;
        out.assign(code.n_outputs, Bytes(data[0].size()));
        std::vector<uint8_t*> in, o;
        for (auto& x : d)
            in.push_back(x.data());
        for (auto& x : out)
            o.push_back(x.data());
        std::vector<bool> wanted(code.n_outputs, true);
        code.encode_blocks_vertical(in, o, props, wanted, data[0].size());
        return;
    }
    std::vector<std::unique_ptr<Mem>> bi, bo;
    std::vector<std::unique_ptr<std::istream>> si;
    std::vector<std::unique_ptr<std::ostream>> so;
    std::vector<std::istream*> in;
    std::vector<std::ostream*> o;
    for (auto& d : data) {
        bi.emplace_back(new Mem(d));
        si.emplace_back(new std::istream(bi.back().get()));
        in.push_back(si.back().get());
    }
    for (unsigned i = 0; i < code.n_outputs; i++) {
        bo.emplace_back(new Mem());
        so.emplace_back(new std::ostream(bo.back().get()));
        o.push_back(so.back().get());
    }
    if (how == 1)
        code.encode_streams_vertical(in, o, props);
    else
        code.encode_streams_horizontal(in, o, props);
    out.clear();
    for (auto& b : bo)
        out.push_back(b->b);
}
// decode from the fragments in `alive`; rebuilt[i] is filled where wanted[i]
static bool decode(fec::FecCode<T>& code, unsigned how, const std::vector<int>& alive, const std::vector<Bytes>& data, const std::vector<Bytes>& frag,
                   std::vector<Properties>& props, const std::vector<bool>& wanted, std::vector<Bytes>& rebuilt)
{
    const unsigned k = code.n_data, nout = code.n_outputs;
    const bool sys = code.type == fec::FecType::SYSTEMATIC;
    rebuilt.assign(k, Bytes());
    if (how == 2) {
        const size_t bs = frag[0].size();
        std::vector<Bytes> d(data), f(frag);
        std::vector<uint8_t*> pd(k, nullptr), pf(nout, nullptr);
        std::vector<int> missing(alive.size());
        std::vector<bool> want(wanted);
        for (unsigned i = 0; i < alive.size(); i++)
            missing[i] = !alive[i];
        for (unsigned i = 0; i < k; i++)
            if (sys && alive[i]) {
                pd[i] = d[i].data();
                want[i] = false;
            } else if (wanted[i]) {
                rebuilt[i].resize(bs);
                pd[i] = rebuilt[i].data();
            }
        for (unsigned i = 0; i < nout; i++)
            if (alive[sys ? k + i : i])
                pf[i] = f[i].data();
        return code.decode_blocks_vertical(pd, pf, props, missing, want, bs);
    }
    std::vector<std::unique_ptr<Mem>> bufs, outs(k);
    std::vector<std::unique_ptr<std::istream>> is;
    std::vector<std::unique_ptr<std::ostream>> os;
    std::vector<std::istream*> din(k, nullptr), pin(nout, nullptr);
    std::vector<std::ostream*> dout(k, nullptr);
    for (unsigned i = 0; i < k; i++) {
        if (sys && alive[i]) {
            bufs.emplace_back(new Mem(data[i]));
            is.emplace_back(new std::istream(bufs.back().get()));
            din[i] = is.back().get();
        }
        if (wanted[i]) {
            outs[i].reset(new Mem());
            os.emplace_back(new std::ostream(outs[i].get()));
            dout[i] = os.back().get();
        }
    }
    for (unsigned i = 0; i < nout; i++)
        if (alive[sys ? k + i : i]) {
            bufs.emplace_back(new Mem(frag[i]));
            is.emplace_back(new std::istream(bufs.back().get()));
            pin[i] = is.back().get();
        }
    const bool ok = how == 1 ? code.decode_streams_vertical(din, pin, props, dout) : code.decode_streams_horizontal(din, pin, props, dout);
    for (unsigned i = 0; i < k; i++)
        if (outs[i])
            rebuilt[i] = outs[i]->b;
    return ok;
}
static uint64_t word(const uint8_t* p, unsigned ws)
{
    uint64_t v = 0;
    for (unsigned b = 0; b < ws; b++)
        v |= (uint64_t)p[b] << (8 * b);
    return v;
}
static bool same_marks(const Properties& a, const Properties& b)
{
    return a.get_map() == b.get_map();
}
// something else done with the same object before: another encoding, a decoding, a failing decoding
static void before(fec::FecCode<T>& code, const std::vector<Bytes>& like, unsigned words, unsigned ws)
{
    const unsigned k = code.n_data, n = k + code.n_parities;
    const bool sys = code.type == fec::FecType::SYSTEMATIC;
    std::vector<Bytes> d(k), frag, rebuilt;
    for (unsigned i = 0; i < k; i++)
        for (unsigned b = 0; b < words * ws; b++)
            d[i].push_back(filler(5000 + 131 * i + b));
    for (unsigned b = 0; b < words * ws; b++) // sums to p-1
        for (unsigned i = 0; i < k; i++)
            if (b / ws % 2)
                d[i][b] = i == 0 ? 255 : i == 1 && b % ws == 0 ? 1 : 0;
    std::vector<Properties> props(code.n_outputs);
    const unsigned how = sx_choice("howbefore", sx_param("howmin", 0), sx_param("hows", 2));
    encode(code, how, d, frag, props);
    const unsigned what = sx_choice("before", 0, 2);
    if (what == 0)
        return;
    std::vector<int> alive(n, 0);
    std::vector<int> ids = any_subset("survivorsbefore", n, what == 1 ? k : k - 1, 4);
    for (int id : ids)
        alive[id] = 1;
    const bool ok = decode(code, how, alive, d, frag, props, std::vector<bool>(k, true), rebuilt);
    sx_assert(ok == (what == 1), "result of the decoding before");
    for (unsigned i = 0; ok && i < k; i++)
        if (!(sys && alive[i]))
            sx_assert(rebuilt[i] == d[i], "data rebuilt before");
}
int main()
{
    const unsigned k = sx_param("k", 2), m = sx_param("m", 1), ws = sx_param("ws", 1), pkt = sx_param("pkt", 4);
    const bool sysp = sx_param("sys", 0);
    const unsigned vert = sx_param("vert", 1);
    const unsigned words = sx_param("anywords", 0) ? sx_choice("words", 0, sx_param("words", 6)) : sx_param("words", 6);
    auto code = make(sysp, ws, k, m, pkt);
    const bool sys = code->type == fec::FecType::SYSTEMATIC;
    const unsigned n = k + m, nout = code->n_outputs, nsym = std::min<unsigned>(words, sx_param("nsym", 1));
    unsigned pos = sx_param("pos", 0);
    if (sx_param("anypos", 0))
        pos = sx_choice("pos", 0, words - nsym);
    if (pos + nsym > words)
        pos = 0;
    std::vector<Bytes> data(k);
    for (unsigned i = 0; i < k; i++)
        for (unsigned w = 0; w < words; w++) {
            uint64_t val = 0;
            const bool sym = w >= pos && w < pos + nsym;
            if (sym)
                for (unsigned h = 0; h < ws; h += 2)
                    val |= sx_sym("d", 0, ws == 1 ? 255 : 65535) << (8 * h);
            for (unsigned b = 0; b < ws; b++) {
                uint8_t v = filler(i * 977 + w * 31 + b);
                if (w % 3 == 2) // column (max, 1, 0, ...): sums to p-1
                    v = i == 0 ? 255 : (i == 1 && b == 0 ? 1 : 0);
                data[i].push_back(sym ? (uint8_t)(val >> (8 * b)) : v);
            }
        }
    std::vector<Properties> props(nout);
    props[0].add(1, OOR_MARK); // stale entries must not survive
    std::vector<Bytes> frag;
    if (sx_param("history", 0))
        for (unsigned i = 0; i < sx_param("history", 0); i++)
            before(*code, data, sx_choice("wordsbefore", 1, 3) * 2 + 1, ws);
    encode(*code, vert, data, frag, props);
    for (unsigned i = 0; i < nout; i++)
        sx_assert(frag[i].size() == words * ws, "length of an output stream");
    for (unsigned i = 0; i < nout; i++)
        for (unsigned b = pos * ws; b < (pos + nsym) * ws; b++)
            sx_out("frag", frag[i][b]);
    if (sx_param("compare", 0)) { // another packet size, the other interfaces: same bytes, same marks
        const unsigned other = sx_choice("other", 1, sx_param("others", 9));
        auto code2 = make(sysp, ws, k, m, other);
        std::vector<Properties> props2(nout);
        std::vector<Bytes> frag2;
        const unsigned how = sx_choice("how", sx_param("howmin", 0), sx_param("hows", 2));
        encode(*code2, how, data, frag2, props2);
        for (unsigned i = 0; i < nout; i++) {
            sx_assert(frag2[i].size() == words * ws, "length of an output");
            for (unsigned b = 0; b < words * ws; b++)
                sx_assert_eq(frag2[i][b], frag[i][b], "the fragments depend on the packet size or the interface");
            sx_assert(same_marks(props[i], props2[i]), "the marks depend on the packet size or the interface");
        }
        sx_reach("same");
        return 0;
    }
    const unsigned extra = sx_param("fewer", 0);
    std::vector<int> ids = any_subset("survivors", n, k - extra, sx_param("subsets", 1000));
    std::vector<int> alive(n, 0);
    for (int id : ids)
        alive[id] = 1;
    const unsigned skip = sx_choice("notwanted", 0, sx_param("wantmax", 1));
    const bool all = sx_param("wantall", 0); // also the data that survive
    bool nothing = sys;
    std::vector<bool> wanted(k);
    for (unsigned i = 0; i < k; i++) {
        const bool present = sys && alive[i];
        if (!present)
            nothing = false;
        wanted[i] = skip != i + 1 && (all || !present);
    }
    std::vector<Bytes> rebuilt;
    std::unique_ptr<fec::FecCode<T>> fresh;
    if (!sx_param("history", 0))
        fresh = make(sysp, ws, k, m, sx_param("pkt2", pkt));
    const bool ok = decode(fresh ? *fresh : *code, sx_param("vert2", vert), alive, data, frag, props, wanted, rebuilt);
    if (extra) {
        sx_assert(!ok, "decoding from too few fragments reports success");
        for (unsigned i = 0; i < k; i++)
            sx_assert(rebuilt[i].empty(), "a failed decode wrote a stream");
        sx_reach("refused");
        return 0;
    }
    sx_assert(ok, "decoding from k fragments reports failure");
    for (unsigned i = 0; i < k; i++) {
        if (!wanted[i] || nothing) // nothing was lost
            continue;
        sx_assert(rebuilt[i].size() == words * ws, "length of a rebuilt stream");
        for (unsigned b = 0; b < words * ws; b += ws)
            sx_assert(word(&rebuilt[i][b], ws) == word(&data[i][b], ws), "a rebuilt stream differs from the original");
    }
    sx_reach("decoded");
    return 0;
}
