// Shared helpers of the harnesses.
#pragma once
#include "sx.h"
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <vector>

// binomial coefficient
static inline uint64_t choose_n(unsigned n, unsigned k)
{
    uint64_t r = 1;
    for (unsigned i = 0; i < k; i++) {
        if (r >> 56)
            return ~0ull; // too many to be numbered
        r = r * (n - i) / (i + 1);
    }
    return r;
}
// idx-th k-subset of {0..n-1}
static inline std::vector<int> unrank(unsigned n, unsigned k, uint64_t idx)
{
    std::vector<int> r;
    for (unsigned i = 0; i < n && k > 0; i++) {
        uint64_t c = choose_n(n - i - 1, k - 1);
        if (idx < c) {
            r.push_back(i);
            k--;
        } else
            idx -= c;
    }
    return r;
}
// one path per k-subset of {0..n-1}; when there are more than `lim` of them, `lim` of them spread evenly
static inline std::vector<int> any_subset(const char* name, unsigned n, unsigned k, uint64_t lim = 1u << 20)
{
    uint64_t c = choose_n(n, k);
    if (c <= lim)
        return unrank(n, k, sx_choice(name, 0, c - 1));
    uint64_t j = sx_choice(name, 0, lim - 1);
    if (c == ~0ull) { // the last k, the first k, k spread evenly, and windows (one element moved) in between
        std::vector<int> r;
        for (unsigned i = 0; i < k; i++)
            r.push_back(j == 0 ? n - k + i : j == 1 ? i : j == 2 ? i * n / k : (n - k) * (j - 2) / (lim - 2) + i + (i == k - 1 && j < lim - 1));
        return r;
    }
    return unrank(n, k, (c - 1) * j / (lim - 1));
}
// fixed filler values
static inline uint32_t filler(uint32_t i)
{
    i = i * 2654435761u + 12345;
    i ^= i >> 15;
    i *= 2246822519u;
    i ^= i >> 13;
    return i;
}
