// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <cstdint>
extern "C" {
uint64_t sx_sym(const char* name, uint64_t lo, uint64_t hi);    // any value in [lo,hi]
uint64_t sx_choice(const char* name, uint64_t lo, uint64_t hi); // any value in [lo,hi], one path per value
void sx_assume(int c);
void sx_assert(int c, const char* msg);
void sx_assert_eq(uint64_t a, uint64_t b, const char* msg);
void sx_reach(const char* label);
void sx_out(const char* name, uint64_t v);
uint64_t sx_param(const char* name, uint64_t dflt);
void sx_fail(const char* msg);
uint64_t sx_live_heap();
int sx_is_symbolic(uint64_t v);
void sx_print(const char* name, uint64_t v);
}
