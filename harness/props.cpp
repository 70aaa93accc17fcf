// Fragment metadata: serialisation, deserialisation of arbitrary bytes, lookups.
#include "common.h"
#include <arpa/inet.h>
#include "quadiron.h"
using namespace quadiron;
int main()
{
    const unsigned what = sx_param("what", 0), N = sx_param("n", 4);
    if (what == 0) { // any list of markers, any area at least as large
        unsigned cnt = sx_choice("markers", 0, N), room = sx_choice("room", 0, N + 4);
        uint32_t* buf = (uint32_t*)malloc(room * 4 + 1); // never empty
        memset(buf, 0xee, room * 4);
        Properties p, q;
        std::vector<uint64_t> loc;
        for (unsigned i = 0; i < cnt; i++) {
            loc.push_back(sx_sym("loc", 0, 0xffffffffull));
            p.add(loc[i], OOR_MARK);
        }
        int rc = p.fnt_serialize(buf, room);
        if (cnt + 2 > room) {
            sx_assert(rc == -1, "an area that is too small must be refused");
            for (unsigned i = 0; i < room; i++)
                sx_assert(buf[i] == 0xeeeeeeeeu, "a refused serialisation wrote the area");
            sx_reach("refused");
            return 0;
        }
        sx_assert(rc == 0, "serialisation failed although there is room");
        sx_assert(ntohl(buf[0]) == Properties::FNT1, "magic");
        sx_assert(ntohl(buf[1]) == cnt, "number of markers");
        for (unsigned i = 0; i < cnt; i++)
            sx_assert(ntohl(buf[2 + i]) == loc[i], "location of a marker");
        for (unsigned i = cnt + 2; i < room; i++)
            sx_assert(buf[i] == 0, "unused part of the area is not cleared");
        sx_assert(q.fnt_deserialize(buf, room) == 0, "deserialisation of a serialised list failed");
        sx_assert(q.get_map().size() == cnt, "number of markers after a round trip");
        for (unsigned i = 0; i < cnt; i++) {
            sx_assert(q.location(i) == loc[i], "location of a marker after a round trip");
            sx_assert(q.marker(i) == OOR_MARK, "kind of a marker after a round trip");
        }
        sx_reach("round trip");
    } else if (what == 1) { // arbitrary bytes
        unsigned room = sx_choice("room", 0, N + 2);
        uint32_t* buf = (uint32_t*)malloc(room * 4 + 1);
        std::vector<uint32_t> v;
        for (unsigned i = 0; i < room; i++) {
            v.push_back(sx_sym("dword", 0, 0xffffffffull));
            buf[i] = htonl(v[i]);
        }
        Properties p;
        int rc = p.fnt_deserialize(buf, room);
        sx_out("rc", (uint32_t)rc);
        bool good = room >= 2 && v[0] == Properties::FNT1 && v[1] <= room - 2;
        sx_assert((rc == 0) == good, "arbitrary metadata must be accepted exactly when magic and size are right");
        sx_assert(rc == 0 || rc == -1, "result code");
        if (rc == 0) {
            sx_assert(p.get_map().size() == v[1], "number of markers");
            for (unsigned i = 0; i < p.get_map().size(); i++)
                sx_assert(p.location(i) == v[2 + i] && p.marker(i) == OOR_MARK, "marker");
            sx_reach("accepted");
        } else {
            sx_assert(p.get_map().empty(), "rejected metadata must not leave markers");
            sx_reach("rejected");
        }
    } else if (what == 2) { // lookups
        Properties p;
        std::vector<uint64_t> loc;
        unsigned cnt = sx_choice("markers", 0, N);
        for (unsigned i = 0; i < cnt; i++) {
            loc.push_back(sx_sym("loc", 0, ~0ull));
            p.add(loc[i], OOR_MARK);
        }
        unsigned idx = sx_choice("index", 0, N + 1);
        uint64_t a = sx_sym("min", 0, ~0ull), b = sx_sym("max", 0, ~0ull), l = sx_sym("at", 0, ~0ull);
        bool in = idx < cnt;
        sx_assert(p.is_marked(idx, l) == (in && loc[in ? idx : 0] == l), "is_marked");
        sx_assert(p.in_range(idx, a, b) == (in && loc[in ? idx : 0] >= a && loc[in ? idx : 0] < b), "in_range");
        sx_assert(p.location(idx) == (in ? loc[idx] : 0), "location");
        sx_assert(p.marker(idx) == (in ? OOR_MARK : 0), "marker");
        p.clear();
        sx_assert(p.get_map().empty() && !p.is_marked(0, l), "clear");
        sx_reach("looked up");
    } else if (what == 3) { // sorting
        Properties p;
        std::vector<uint64_t> loc;
        unsigned cnt = sx_choice("markers", 0, N);
        for (unsigned i = 0; i < cnt; i++) {
            loc.push_back(sx_sym("loc", 0, 3));
            p.add(loc[i], OOR_MARK);
        }
        p.sort();
        sx_assert(p.get_map().size() == cnt, "sorting changed the number of markers");
        uint64_t c0[4] = {}, c1[4] = {};
        for (unsigned i = 0; i < cnt; i++) {
            sx_assert(i == 0 || p.location(i - 1) <= p.location(i), "not sorted");
            for (unsigned v = 0; v < 4; v++) {
                c0[v] += loc[i] == v;
                c1[v] += p.location(i) == v;
            }
        }
        for (unsigned v = 0; v < 4; v++)
            sx_assert(c0[v] == c1[v], "sorting changed the set of markers");
        sx_reach("sorted");
    }
    return 0;
}
