// The text form of the marks: what is written is read back.
#include <cstddef>
// the streams themselves are executed too
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "common.h"
#include "property.h"
#include <istream>
#include <ostream>
#include <streambuf>
#include <string>
#include "memstream.h"
#include "misc.h"
using namespace quadiron;
// numbers of 128 bits in decimal
static int wide()
{
    const uint64_t range = sx_param("range", 999);
    __uint128_t v = sx_sym("v", 0, range);
    const unsigned base = sx_choice("base", 0, 6);
    bool neg = false;
    Mem out;
    switch (base) {
    case 1: v += ~0ull - range / 2; break;
    case 2: v += (__uint128_t)1 << 127; break;
    case 3: v += ~(__uint128_t)0 - range; break;
    case 4: v += ((__uint128_t)1 << 127) - 1 - range; break; // the greatest signed ones
    case 5: neg = v != 0; break;
    case 6: v += ((__uint128_t)1 << 127) - range, neg = true; break; // the least signed ones
    }
    {
        Out os(&out);
        if (base < 4)
            os << v;
        else
            os << (__int128_t)(neg ? -v : v);
    }
    size_t i = 0;
    sx_assert((!out.b.empty() && out.b[0] == '-') == neg, "sign");
    i = neg;
    sx_assert(i < out.b.size() && (out.b.size() == i + 1 || out.b[i] != '0'), "digits without leading zeros");
    __uint128_t w = 0;
    for (; i < out.b.size(); i++) {
        sx_assert(out.b[i] >= '0' && out.b[i] <= '9', "digits");
        w = w * 10 + (out.b[i] - '0');
    }
    sx_assert_eq(w, v, "number (low half)");
    sx_assert_eq(w >> 64, v >> 64, "number (high half)");
    sx_reach("decimal");
    return 0;
}
int main()
{
    if (sx_param("what", 0) == 1)
        return wide();
    const unsigned n = sx_choice("n", 0, sx_param("n", 2));
    const uint64_t range = sx_param("range", 999);
    Properties p, q;
    std::vector<std::pair<uint64_t, uint64_t>> l;
    for (unsigned i = 0; i < n; i++) {
        uint64_t a = sx_sym("loc", 0, range), b = sx_sym("mark", 0, range);
        switch (sx_choice("where", 0, 3)) {
        case 1: a += (1ull << 32) - 100; break;
        case 2: a += ~0ull - range; break;
        case 3: b += (1ull << 32) - 1 - range; break;
        }
        l.push_back({a, b});
        p.add(a, b);
    }
    Mem out;
    {
        Out os(&out);
        os << p;
    }
    for (uint8_t c : out.b)
        sx_out("text", c);
    Mem in;
    std::vector<uint8_t> gap;
    const unsigned g = sx_choice("gap", 0, sx_param("gaps", 0));
    auto say = [&](unsigned at, char c) {
        if (g == at)
            gap.push_back(c);
    };
    say(1, '\n');
    for (char c : {'#', ' ', '3', '=', '4', '\n'})
        say(2, c);
    for (char c : {' ', '\t', ';', '3', '=', '4', '\n', ' ', '\t', '\n'})
        say(3, c);
    in.b.assign(gap.begin(), gap.end());
    for (uint8_t c : out.b) {
        in.b.push_back(c);
        if (c == '\n')
            in.b.insert(in.b.end(), gap.begin(), gap.end());
    }
    {
        In is(&in);
        is >> q;
    }
    sx_assert(q.get_map().size() == n, "number of marks read back");
    for (unsigned i = 0; i < n; i++) {
        sx_assert_eq(q.get_map()[i].first, l[i].first, "location read back");
        sx_assert_eq(q.get_map()[i].second, l[i].second, "kind read back");
    }
    sx_reach("read back");
    return 0;
}
