// Native implementation of the harness interface: replays one concrete input file.
//   SX_INPUT=<file>: lines "param NAME V", "in NAME#k V", "out NAME#k V"
// Exit status: 0 property held and every recorded output matched; 10 assertion failed;
//              11 assumption violated; 12 recorded output differs.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <new>
#include <string>
#include <unistd.h>
namespace {
struct Env {
    std::map<std::string, uint64_t> params, in, out;
    std::map<std::string, int> n;
    bool have = false;
    int mismatches = 0;
    Env()
    {
        const char* f = getenv("SX_INPUT");
        if (!f)
            return;
        have = true;
        std::ifstream i(f);
        std::string k, name, v;
        std::string line;
        while (std::getline(i, line)) {
            if (line.empty() || line[0] == '#')
                continue;
            size_t a = line.find(' '), b = line.find(' ', a + 1);
            k = line.substr(0, a);
            name = line.substr(a + 1, b - a - 1);
            v = line.substr(b + 1);
            uint64_t x = strtoull(v.c_str(), nullptr, 10);
            if (v[0] == '-')
                x = (uint64_t)strtoll(v.c_str(), nullptr, 10);
            if (k == "param") params[name] = x;
            else if (k == "in") in[name] = x;
            else if (k == "out") out[name] = x;
        }
    }
    std::string key(const std::string& s) { return s + "#" + std::to_string(n[s]++); }
};
Env& env()
{
    static Env* e = new Env;
    return *e;
}
void die(int code, const char* what, const char* msg)
{
    fprintf(stdout, "SX-%s %s\n", what, msg);
    fflush(stdout);
    fflush(stderr);
    _exit(code);
}
} // namespace
extern "C" {
uint64_t sx_sym(const char* name, uint64_t lo, uint64_t hi)
{
    std::string k = env().key(name);
    auto it = env().in.find(k);
    uint64_t v = it == env().in.end() ? lo : it->second;
    if (v < lo || v > hi)
        die(11, "RANGE", k.c_str());
    return v;
}
uint64_t sx_choice(const char* name, uint64_t lo, uint64_t hi) { return sx_sym(name, lo, hi); }
void sx_assume(int c)
{
    if (!c)
        die(11, "ASSUME", "assumption does not hold");
}
void sx_assert(int c, const char* msg)
{
    if (!c)
        die(10, "ASSERT", msg);
}
void sx_assert_eq(uint64_t a, uint64_t b, const char* msg)
{
    if (a != b) {
        char buf[400];
        snprintf(buf, sizeof buf, "%s (%llu != %llu)", msg, (unsigned long long)a, (unsigned long long)b);
        die(10, "ASSERT", buf);
    }
}
void sx_reach(const char*) {}
void sx_out(const char* name, uint64_t v)
{
    std::string k = env().key(std::string("o:") + name);
    auto it = env().out.find(k);
    if (it != env().out.end() && it->second != v) {
        printf("SX-OUT %s executor=%llu native=%llu\n", k.c_str(), (unsigned long long)it->second, (unsigned long long)v);
        env().mismatches++;
    }
}
uint64_t sx_param(const char* name, uint64_t d)
{
    auto it = env().params.find(name);
    return it == env().params.end() ? d : it->second;
}
void sx_fail(const char* msg) { die(10, "ASSERT", msg); }
uint64_t sx_live_heap() { return 0; }
int sx_is_symbolic(uint64_t) { return 0; }
void sx_print(const char* name, uint64_t v) { fprintf(stderr, "[sx_print] %s = %llu\n", name, (unsigned long long)v); }
}
#ifndef SX_MAIN
#define SX_MAIN sx_main
#endif
int SX_MAIN();
int main()
{
    int r = SX_MAIN();
    if (env().mismatches)
        die(12, "OUTDIFF", "native execution disagrees with the symbolic execution");
    printf("SX-OK\n");
    fflush(stdout);
    fflush(stderr);
    _exit(r);
}
