// Integer helpers against their definitions.
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
#ifndef TY
#define TY uint32_t
#endif
typedef SignedDoubleSizeVal<TY> ST;
static bool prime(uint64_t n)
{
    bool r = n >= 2;
    for (uint64_t i = 2; i * i <= sx_param("N", 200); i++)
        r &= (n % i != 0) | (n == i);
    return r;
}
int main()
{
    const unsigned what = sx_param("what", 0), N = sx_param("N", 200);
    switch (what) {
    case 0: { // square root
        uint64_t n = sx_sym("n", 1, sx_param("max", (TY)~(TY)0));
        uint64_t r = arith::sqrt<TY>((TY)n);
        sx_out("r", r);
        sx_assert(r <= 0xffffffff && r * r <= n, "square root too large");
        sx_assert(r == 0xffffffff || (r + 1) * (r + 1) > n, "square root too small");
        sx_reach("sqrt");
        break;
    }
    case 1: { // powers of two
        uint64_t n = sx_sym("n", 1, (1u << 30) - 1);
        uint64_t l = arith::log2<TY>(n), c = arith::ceil2<TY>(n);
        sx_assert(l < 31 && (1ull << l) <= n && n < (2ull << l), "logarithm");
        sx_assert(c >= n && c < 2 * n && (c & (c - 1)) == 0, "next power of two");
        sx_assert(arith::is_power_of_2<TY>(n) == ((n & (n - 1)) == 0), "is_power_of_2");
        sx_assert(!arith::is_power_of_2<TY>(0) && !arith::is_power_of_2<TY>(-(int)n), "is_power_of_2");
        uint64_t e = sx_sym("e", 0, 30);
        sx_assert_eq(arith::exp2<TY>(e), 1ull << e, "exp2");
        try {
            arith::log2<TY>(0);
            sx_fail("logarithm of zero");
        } catch (const DomainError&) {
        }
        sx_reach("pow2");
        break;
    }
    case 2: { // greatest common divisor, Bezout
        uint64_t a = sx_sym("a", 0, N), b = sx_sym("b", 0, N);
        uint64_t g = arith::gcd<TY>(a, b);
        if (a == 0 && b == 0) {
            sx_assert(g == 0, "gcd of zeros");
            return 0;
        }
        sx_assert(g >= 1 && a % g == 0 && b % g == 0, "gcd does not divide");
        ST bz[2], q[2];
        ST h = arith::extended_gcd<TY>(a, b, bz, q);
        sx_assert((uint64_t)h == g, "the two gcd differ");
        sx_assert(bz[0] * (ST)a + bz[1] * (ST)b == h, "Bezout coefficients"); // so that every common divisor divides g
        sx_assert(q[0] * h == (ST)a || q[0] * h == -(ST)a, "quotient by the gcd");
        sx_assert(q[1] * h == (ST)b || q[1] * h == -(ST)b, "quotient by the gcd");
        sx_assert(arith::extended_gcd<TY>(a, b, nullptr, nullptr) == h, "gcd without coefficients");
        sx_reach("gcd");
        break;
    }
    case 3: { // exponentiation
        uint64_t e = sx_choice("e", 0, sx_param("E", 20));
        uint64_t b = sx_sym("b", 0, (TY)~(TY)0), r = 1;
        for (uint64_t i = 0; i < e; i++)
            r *= b;
        sx_assert_eq(arith::exp<TY>(b, e), (TY)r, "power");
        sx_reach("exp");
        break;
    }
    case 4: { // modular exponentiation
        uint64_t m = sx_param("m", 97), e = sx_choice("e", 0, sx_param("E", 20)), b = sx_sym("b", 0, sx_param("B", (TY)~(TY)0)), r = 1 % m;
        for (uint64_t i = 0; i < e; i++)
            r = (uint64_t)(((unsigned __int128)r * (b % m)) % m);
        sx_assert_eq(arith::exp_mod<TY>(b, e, m), r, "modular power");
        sx_reach("expmod");
        break;
    }
    case 5: { // Jacobi symbol modulo a prime, multiplicativity modulo any odd number
        uint64_t m = 1 + 2 * sx_choice("m", 1, sx_param("M", 40));
        int64_t n = sx_sym("n", 0, 2 * m);
        int j = arith::jacobi<TY>(n, m);
        sx_assert(j >= -1 && j <= 1, "range of the symbol");
        // product over the prime factors
        int64_t k = m;
        int want = 1;
        for (int64_t q = 3; q <= k; q += 2)
            while (k % q == 0) {
                k /= q;
                bool square = false;
                for (int64_t x = 1; x < q; x++)
                    square |= (x * x) % q == n % q;
                want *= n % q == 0 ? 0 : square ? 1 : -1;
            }
        sx_assert(j == want, "Jacobi symbol");
        sx_assert(arith::jacobi<TY>(n - (int64_t)m, m) == want, "Jacobi symbol of a negative number");
        sx_reach("jacobi");
        break;
    }
    case 6: { // primes and factors
        uint64_t n = sx_sym("n", 1, N);
        sx_assert(arith::is_prime<TY>(n) == prime(n), "is_prime");
        std::vector<TY> p;
        std::vector<int> e;
        arith::factor_prime<TY>(n, &p, &e);
        sx_assert(p.size() == e.size(), "factors and exponents");
        uint64_t r = 1;
        for (size_t i = 0; i < p.size(); i++) {
            sx_assert(e[i] >= 1 && prime(p[i]) && (i == 0 || p[i] > p[i - 1]), "factors are primes in order");
            for (int k = 0; k < e[i]; k++)
                r *= p[i];
        }
        sx_assert_eq(r, n, "product of the factors");
        auto d = arith::factor_distinct_prime<TY>(n);
        sx_assert(d.size() == p.size(), "distinct factors");
        for (size_t i = 0; i < d.size(); i++)
            sx_assert(d[i] == p[i], "distinct factors");
        auto f = arith::get_prime_factors<TY>(n);
        auto c = arith::get_coprime_factors<TY>(n);
        size_t at = 0;
        sx_assert(c.size() == p.size(), "coprime factors");
        for (size_t i = 0; i < p.size(); i++) {
            uint64_t x = 1;
            for (int k = 0; k < e[i]; k++, at++) {
                sx_assert(at < f.size() && f[at] == p[i], "list of the prime factors");
                x *= p[i];
            }
            sx_assert(c[i] == x, "coprime factors");
        }
        sx_assert(at == f.size(), "list of the prime factors");
        auto o = arith::get_proper_divisors<TY>(n);
        size_t want = 0;
        for (size_t i = 0; i < p.size(); i++)
            if (p[i] < n) {
                sx_assert(want < o.size() && o[want] == n / p[i], "cofactors of the primes");
                want++;
            }
        sx_assert(o.size() == want, "cofactors of the primes");
        sx_reach("factors");
        break;
    }
    case 7: { // all divisors, code lengths
        uint64_t n = sx_sym("n", 1, N);
        auto d = arith::get_all_divisors<TY>(n);
        for (size_t i = 0; i < d.size(); i++)
            sx_assert(d[i] >= 1 && n % d[i] == 0 && (i == 0 || d[i] > d[i - 1]), "divisors in order");
        size_t k = 0;
        for (uint64_t i = 1; i <= N; i++)
            k += n % i == 0;
        sx_assert(k == d.size(), "a divisor is missing");
        uint64_t lo = sx_choice("lo", 1, sx_param("L", 40));
        if (lo > n)
            return 0;
        uint64_t c = arith::get_code_len<TY>(n, lo), h = arith::get_code_len_high_compo<TY>(n, lo);
        sx_assert(c >= lo && n % c == 0, "code length");
        for (uint64_t i = lo; i < N; i++)
            sx_assert(i >= c || n % i != 0, "a shorter code length exists");
        sx_assert(h >= lo && n % h == 0, "highly composite code length");
        sx_reach("divisors");
        break;
    }
    case 8: { // Chinese remainders
        static const TY sets[][3] = {{3, 5, 7}, {4, 9, 5}, {2, 3, 11}, {8, 15, 7}, {13, 16, 9}};
        unsigned s = sx_choice("set", 0, 4), k = sx_choice("k", 1, 3);
        TY mod[3], a[3];
        uint64_t all = 1;
        for (unsigned i = 0; i < 3; i++) {
            mod[i] = sets[s][i];
            a[i] = sx_sym("a", 0, mod[i] - 1);
            if (i < k)
                all *= mod[i];
        }
        uint64_t x = arith::chinese_remainder<TY>(k, a, mod);
        sx_assert(x < all, "solution out of range");
        for (unsigned i = 0; i < k; i++)
            sx_assert(x % mod[i] == a[i], "not a solution");
        sx_reach("crt");
        break;
    }
    case 9: { // Solovay-Strassen: a prime passes for every base
        uint64_t p = sx_param("p", 97);
        uint64_t a = sx_sym("a", 1, p - 1);
        sx_assert(arith::solovay_strassen1<TY>(a, p), "a prime fails the test");
        sx_reach("ss");
        break;
    }
    }
    return 0;
}
