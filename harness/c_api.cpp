// The C interface: encode, lose fragments, decode / rebuild one fragment.  Every buffer has exactly the size the
// interface asks for, so an access outside is reported.
//   what=0 decode, 1 reconstruct, 2 too few fragments, 3 more markers than the metadata area holds,
//   4 one surviving fragment carries arbitrary metadata (decode, or with rec=1 reconstruct)
#include "common.h"
#include <stddef.h>
extern "C" {
#include "quadiron_c.h"
}
static uint64_t word(const uint8_t* p, unsigned ws) { return ws == 1 ? p[0] : p[0] | p[1] << 8; }
static uint8_t* block(unsigned size, uint8_t fill)
{
    uint8_t* p = (uint8_t*)malloc(size);
    memset(p, fill, size);
    return p;
}
int main()
{
    const unsigned k = sx_param("k", 2), m = sx_param("m", 2), ws = sx_param("ws", 2), sys = sx_param("sys", 1);
    const unsigned words = sx_param("words", 3), what = sx_param("what", 0), nsym = sx_param("nsym", 1);
    const uint64_t lim = sx_param("subsets", 1000);
    const unsigned n = k + m, nout = sys ? m : n, bs = words * ws;
    unsigned pos = sx_param("pos", 0);
    if (sx_param("anypos", 0))
        pos = sx_choice("pos", 0, words - nsym);
    struct QuadironFnt32* f = quadiron_fnt32_new(ws, k, m, sys);
    sx_assert(f != nullptr, "no instance for a supported word size");
    int md = quadiron_fnt32_get_metadata_size(f, bs);
    sx_assert(md >= 12, "metadata size");
    std::vector<uint8_t*> data(k), par(m);
    std::vector<std::vector<uint8_t>> orig(k);
    const unsigned marks = sx_param("marks", 3), dense = what == 3; // every marks-th column carries a marker
    // number of data fragments with symbolic words, spread over all of them
    const unsigned nfrag = sx_param("nfrag", k);
    std::vector<bool> symf(k, nfrag >= k);
    for (unsigned i = 0; i < nfrag && nfrag < k; i++)
        symf[(i + 1) * k / (nfrag + 1)] = true;
    for (unsigned i = 0; i < k; i++) {
        data[i] = block(md + bs, 0xee);
        for (unsigned w = 0; w < words; w++) {
            const bool sym = symf[i] && w >= pos && w < pos + nsym;
            uint64_t val = 0;
            if (sym)
                val = sx_sym("d", 0, ws == 1 ? 255 : 65535);
            else
                for (unsigned b = 0; b < ws; b++)
                    val |= (uint64_t)(uint8_t)filler(i * 977 + w * 31 + b) << (8 * b);
            if (!sym && (dense || (marks && w % marks == 1))) // column (max, 1, 0, ...): its first output is p-1
                val = i == 0 ? (ws == 1 ? 255 : 65535) : i == 1 ? 1 : 0;
            for (unsigned b = 0; b < ws; b++) {
                data[i][md + w * ws + b] = val >> (8 * b);
                orig[i].push_back(val >> (8 * b));
            }
        }
    }
    std::vector<int> alive(n, 0), want(nout, 1), missing(n, 1);
    std::vector<int> ids;
    if (what == 2)
        ids = any_subset("survivors", n, k - 1, lim);
    else if (what == 3)
        ids = {};
    else
        ids = any_subset("survivors", n, sx_param("keep", k), lim);
    for (int id : ids) {
        alive[id] = 1;
        missing[id] = 0;
    }
    const bool encwant = sx_param("encwant", 0);
    for (unsigned i = 0; i < m; i++) {
        if (encwant && !alive[k + i]) {
            want[sys ? i : k + i] = 0;
            par[i] = nullptr;
        } else
            par[i] = block(md + bs, 0xee);
    }
    int rc = quadiron_fnt32_encode(f, data.data(), par.data(), want.data(), bs);
    if (what == 3) {
        // first output of the non-systematic code: the sum of the data words; every fixed column makes it p-1
        const uint64_t p = (1u << (8 * ws)) + 1;
        uint64_t sum = 0;
        for (unsigned i = 0; i < k; i++)
            sum += word(&orig[i][pos * ws], ws);
        bool fits = words - 1 <= (unsigned)md / 4 - 2;
        bool full = words - 1 == (unsigned)md / 4 - 2;
        if (full)
            fits = sum % p != p - 1;
        sx_assert((rc == 0) == fits, "encoding must fail exactly when the markers do not fit into the metadata");
        sx_reach("metadata full");
        return 0;
    }
    sx_assert(rc == 0, "encoding reports failure");
    if (sys)
        for (unsigned i = 0; i < k; i++)
            for (unsigned b = 0; b < bs; b += ws)
                sx_assert(word(data[i] + md + b, ws) == word(&orig[i][b], ws), "encoding modified a data fragment");
    std::vector<std::vector<uint8_t>> frag(n);
    for (unsigned i = 0; i < n; i++) {
        uint8_t* p = i < k ? data[i] : par[i - k];
        if (p)
            frag[i].assign(p, p + md + bs);
        for (int b = 0; p && b < md + (int)bs; b++)
            sx_out("frag", p[b]);
    }
    unsigned dest = n;
    if (what == 1) {
        std::vector<unsigned> cand;
        for (unsigned i = 0; i < n; i++)
            if (missing[i])
                cand.push_back(i);
        dest = cand[sx_choice("destination", 0, cand.size() - 1)];
    }
    // lose the others
    for (unsigned i = 0; i < n; i++) {
        if (alive[i])
            continue;
        uint8_t*& p = i < k ? data[i] : par[i - k];
        free(p);
        // decode wants every data buffer, reconstruct only the one of the destination
        p = (what == 1 ? i == dest : i < k) ? block(md + bs, 0xa5) : nullptr;
    }
    if (what == 4) {
        unsigned bad = ids[sx_choice("bad", 0, ids.size() - 1)];
        uint8_t* q = bad < k ? data[bad] : par[bad - k];
        auto dword = [&](unsigned i, uint32_t v) {
            for (unsigned b = 0; b < 4; b++)
                q[4 * i + b] = v >> (24 - 8 * b);
        };
        if (sx_choice("magic", 0, 1))
            dword(0, sx_sym("magicval", 0, 0xffffffff));
        dword(1, sx_param("max", 0) ? sx_sym("count", 0, sx_param("max", 0)) : sx_sym("count", 0, 0xffffffff));
        for (unsigned i = 0; i < sx_param("locs", 2); i++)
{
            const uint32_t l = sx_sym("loc", 0, 0xffffffff);
            sx_assume(l < words + 3 || l >= 1022); // the packet holds 1024 words
            dword(2 + i, l);
        }
        if (sx_param("rec", 0)) {
            unsigned d = 0;
            while (d < n && alive[d])
                d++;
            uint8_t*& p = d < k ? data[d] : par[d - k];
            if (!p)
                p = block(md + bs, 0xa5);
            rc = quadiron_fnt32_reconstruct(f, data.data(), par.data(), missing.data(), d, bs);
        } else
            rc = quadiron_fnt32_decode(f, data.data(), par.data(), missing.data(), bs);
        sx_assert(rc == 0 || rc == -1, "return value");
        for (unsigned i = 0; i < n; i++)
            if (alive[i] && (sys || i >= k || sx_param("rec", 0))) {
                uint8_t* r = i < k ? data[i] : par[i - k];
                for (unsigned b = 0; b < bs; b += ws)
                    sx_assert(word(r + md + b, ws) == word(&frag[i][md + b], ws), "a surviving fragment was modified");
            }
        sx_reach(rc ? "bad metadata refused" : "bad metadata accepted");
        return 0;
    }
    if (what == 1) {
        rc = quadiron_fnt32_reconstruct(f, data.data(), par.data(), missing.data(), dest, bs);
        sx_assert(rc == 0, "reconstruction reports failure");
        uint8_t* p = dest < k ? data[dest] : par[dest - k];
        for (int b = 0; b < md; b += 4) {
            uint32_t x, y;
            memcpy(&x, p + b, 4);
            memcpy(&y, &frag[dest][b], 4);
            sx_assert(x == y, "metadata of the rebuilt fragment differs from the lost one");
        }
        for (unsigned b = 0; b < bs; b += ws)
            sx_assert(word(p + md + b, ws) == word(&frag[dest][md + b], ws), "the rebuilt fragment differs from the lost one");
        for (unsigned i = 0; i < n; i++)
            if (alive[i]) {
                uint8_t* q = i < k ? data[i] : par[i - k];
                for (unsigned b = 0; b < bs; b += ws)
                    sx_assert(word(q + md + b, ws) == word(&frag[i][md + b], ws), "reconstruction modified a surviving fragment");
            }
        sx_reach("rebuilt");
    } else {
        rc = quadiron_fnt32_decode(f, data.data(), par.data(), missing.data(), bs);
        if (what == 2) {
            sx_assert(rc == -1, "decoding from too few fragments reports success");
            sx_reach("refused");
        } else {
            sx_assert(rc == 0, "decoding reports failure");
            for (unsigned i = 0; i < k; i++)
                for (unsigned b = 0; b < bs; b += ws)
                    sx_assert(word(data[i] + md + b, ws) == word(&orig[i][b], ws), "decoded data differ from the original");
            sx_reach("decoded");
        }
    }
    for (auto p : data)
        free(p);
    for (auto p : par)
        free(p);
    quadiron_fnt32_delete(f);
    return 0;
}
