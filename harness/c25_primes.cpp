// Number-theoretic helpers against a sieve and known factorisations, over Boost.Multiprecision integers.
#include "vf.hpp"
#include <algorithm>
#include <boost/multiprecision/cpp_int.hpp>
#include <nil/crypto3/algebra/totient.hpp>
namespace algebra = nil::crypto3::algebra;
typedef unsigned long long u64;
typedef boost::multiprecision::cpp_int big;
typedef boost::multiprecision::number<boost::multiprecision::cpp_int_backend<512, 512, boost::multiprecision::unsigned_magnitude, boost::multiprecision::unchecked, void>> u512;

typedef boost::multiprecision::number<boost::multiprecision::cpp_int_backend<128, 128, boost::multiprecision::unsigned_magnitude, boost::multiprecision::unchecked, void>> u128;

static bool small_prime(u64 n) {    // by trial division
    for (u64 d = 2; d * d <= n; d += d == 2 ? 1 : 2) {
        if (n % d == 0) {
            return false;
        }
    }
    return n > 1;
}
template<class T>
static std::string text(const std::set<T> &s) {
    std::string r = "{";
    for (auto &x : s) {
        r += (r.size() > 1 ? "," : "") + vf::str(x);
    }
    return r + "}";
}
template<class I>
static void factor(const char *type, const I &n, const std::set<I> &want, const I &phi) {
    const std::string w = vf::cat(type, n);
    vf::at("prime_factorize " + w);
    vf::arm(10);
    std::set<I> got;
    algebra::prime_factorize(n, got);
    vf::check(got == want, "prime_factorize", vf::hash(w), want.size() > 1, [&] { return w + " gives " + text(got) + ", the prime factors are " + text(want); });
    vf::at("totient " + w);
    const I t = algebra::totient(n);
    vf::check(t == phi, "totient", vf::hash(w), want.size() > 1, [&] { return vf::cat(w, "gives", t, "expected", phi); });
    vf::arm(0);
}
template<class I>
static void composite(const char *type, const std::vector<std::pair<u64, unsigned>> &f) {
    I n = 1, phi = 1;
    std::set<I> s;
    for (auto &pe : f) {
        s.insert(I(pe.first));
        phi *= I(pe.first - 1);
        for (unsigned i = 0; i < pe.second; ++i) {
            n *= I(pe.first);
            if (i) {
                phi *= I(pe.first);
            }
        }
    }
    factor<I>(type, n, s, phi);
    if (f.size() > 1 || f[0].second > 1) {
        vf::at(vf::cat("pollard_rho_factorization", type, n));
        vf::arm(10);
        const I d = algebra::pollard_rho_factorization(n);
        vf::check(d != 0 && d != 1 && d != n && n % d == 0, "pollard_rho_factorization", vf::hash(vf::cat(type, n)), true,
                  [&] { return vf::cat(type, n, "gives", d, "which is not a proper divisor"); });
        vf::arm(0);
    }
    vf::sample(vf::cat(type, n, "has prime factors", text(s), "and totient", phi));
}
template<class I>
static void all_small(const char *type, u64 limit) {
    std::vector<u64> least(limit + 1);
    for (u64 i = 2; i <= limit; ++i) {
        for (u64 j = i; j <= limit; j += i) {
            if (!least[j]) {
                least[j] = i;
            }
        }
    }
    for (u64 n = 0; n <= limit; ++n) {
        std::set<I> want;
        u64 phi = n;
        for (u64 m = n; m > 1; m /= least[m]) {
            if (want.insert(I(least[m])).second) {
                phi -= phi / least[m];
            }
        }
        factor<I>(type, I(n), want, I(phi));
    }
    for (u64 n = 0; n <= 400; ++n) {
        vf::at(vf::cat("totient_list", type, n));
        std::vector<I> got = algebra::totient_list(I(n)), want;
        for (u64 i = 1; i <= n; ++i) {
            u64 a = i, b = n;
            while (b) {
                a %= b;
                std::swap(a, b);
            }
            if (a == 1) {
                want.push_back(I(i));
            }
        }
        vf::check(got == want, "totient_list", vf::key(n, sizeof(I)), n > 1, [&] { return vf::cat(type, n, "lists", got.size(), "numbers, expected", want.size()); });
    }
    for (unsigned bits = 1; bits <= 22; ++bits) {
        for (u64 m : {1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 30, 64, 97, 128, 256, 1000, 1024, 4096}) {
            const u64 lo = 1ull << bits;
            u64 want = lo + 1;
            while (want % m != 1 % m || !small_prime(want)) {
                ++want;
            }
            vf::at(vf::cat("first_prime", type, bits, m));
            vf::arm(10);
            const I q = algebra::first_prime<I>(bits, m);
            vf::check(q == I(want), "first_prime", vf::key(bits, m), true, [&] { return vf::cat(type, "first_prime", bits, m, "gives", q, "expected", want); });
            u64 next = want + m;
            while (!small_prime(next)) {
                next += m;
            }
            vf::at(vf::cat("next_prime", type, want, m));
            const I nx = algebra::next_prime<I>(I(want), m);
            vf::check(nx == I(next), "next_prime", vf::key(bits, m), true, [&] { return vf::cat(type, "next_prime", want, m, "gives", nx, "expected", next); });
            vf::at(vf::cat("previous_prime", type, next, m));
            const I pv = algebra::previous_prime<I>(I(next), m);
            vf::check(pv == I(want), "previous_prime", vf::key(bits, m), true, [&] { return vf::cat(type, "previous_prime", next, m, "gives", pv, "expected", want); });
            vf::arm(0);
        }
    }
    for (u64 q = 3; q < 700; ++q) {    // from composites as well
        for (u64 m = 1; m < 30; ++m) {
            u64 a = q, b = m;
            while (b) {
                a %= b;
                std::swap(a, b);
            }
            if (a != 1) {
                continue;    // at most one candidate can be prime
            }
            u64 next = q + m;
            while (!small_prime(next)) {
                next += m;
            }
            vf::at(vf::cat("next_prime", type, q, m));
            vf::arm(10);
            const I nx = algebra::next_prime<I>(I(q), m);
            vf::check(nx == I(next), "next_prime", vf::key(q, m, 1), true, [&] { return vf::cat(type, "next_prime", q, m, "gives", nx, "expected", next); });
            u64 prev = 0;
            for (u64 k = q; k > m && !prev;) {
                k -= m;
                prev = small_prime(k) ? k : 0;
            }
            if (prev) {
                vf::at(vf::cat("previous_prime", type, q, m));
                const I pv = algebra::previous_prime<I>(I(q), m);
                vf::check(pv == I(prev), "previous_prime", vf::key(q, m, 1), true, [&] { return vf::cat(type, "previous_prime", q, m, "gives", pv, "expected", prev); });
            }
            vf::arm(0);
        }
    }
}
template<class I>
static void all(const char *type) {
    all_small<I>(type, vf::n(3000, 60000));
    // Carmichael numbers, strong pseudoprimes to small bases, Fermat numbers
    composite<I>(type, {{3, 1}, {11, 1}, {17, 1}});
    composite<I>(type, {{7, 1}, {13, 1}, {19, 1}});
    composite<I>(type, {{23, 1}, {89, 1}});
    composite<I>(type, {{829, 1}, {1657, 1}});
    composite<I>(type, {{151, 1}, {751, 1}, {28351, 1}});
    composite<I>(type, {{641, 1}, {6700417, 1}});
    // powers of one prime
    for (u64 p : {2, 3, 5, 7, 11, 101, 251, 65537}) {
        for (unsigned e = 2; e <= (p < 20 ? 9 : 3); ++e) {
            composite<I>(type, {{p, e}});
        }
    }
    vf::rng g(vf::seed());
    auto prime = [&](u64 lim) {
        u64 p = 3 + g.below(lim);
        while (!small_prime(p)) {
            ++p;
        }
        return p;
    };
    for (std::size_t i = 0; i < vf::n(40, 400); ++i) {
        const u64 p = prime(100000), q = prime(100000), r = prime(1000), s = prime(50);
        if (p != q && p != r && q != r && s != p && s != q && s != r) {
            composite<I>(type, {{p, 1}, {q, 1}});
            composite<I>(type, {{p, 1}, {r, 2}, {s, 3}});
            composite<I>(type, {{2, 1 + (unsigned)g.below(40)}, {p, 1}, {q, 1}, {s, 1}});
        }
    }
}
// Fermat's test to the first bases, over integers without a width
static bool likely_prime(const big &n) {
    for (unsigned p : {2u, 3u, 5u, 7u, 11u, 13u, 17u, 19u, 23u, 29u, 31u, 37u}) {
        if (n % p == 0) {
            return n == p;
        }
    }
    for (unsigned p : {2u, 3u, 5u, 7u, 11u, 13u}) {
        if (boost::multiprecision::powm(big(p), big(n - 1), n) != 1) {
            return false;
        }
    }
    return n > 1;
}
// numbers that fill the width of a type, and prime searches beyond 64 bits
template<class I>
static void wide(const char *type, unsigned bits) {
    vf::rng g(vf::seed() + bits);
    for (std::size_t i = 0; i < vf::n(12, 120); ++i) {
        std::vector<std::pair<u64, unsigned>> f;
        const u64 most = i % 3 == 0 ? 20 : i % 3 == 1 ? 100 : 2000;
        big n = 1;
        for (unsigned tries = 0; tries < 4000; ++tries) {
            u64 p = 2 + g.below(most);
            while (!small_prime(p)) {
                ++p;
            }
            if (n * p >> bits) {
                continue;
            }
            n *= p;
            auto at = std::find_if(f.begin(), f.end(), [&](auto &e) { return e.first == p; });
            if (at == f.end()) {
                f.push_back({p, 1});
            } else {
                ++at->second;
            }
        }
        composite<I>(type, f);
    }
    for (std::size_t i = 0; i < vf::n(12, 60); ++i) {
        const unsigned b = 24 + unsigned(g.below(bits > 300 ? 260 : bits - 60));
        const u64 m = i % 3 == 0 ? 1 : i % 3 == 1 ? 2 * (1 + g.below(500)) : u64(1) << g.below(20);
        vf::at(vf::cat("first_prime", type, b, m));
        vf::arm(60);
        const big lo = big(1) << b, q(algebra::first_prime<I>(b, m));
        big want = lo + 1;
        want += (big(m) - lo % m) % m;    // the least number above 2^b that leaves 1 modulo m
        while (!likely_prime(want)) {
            want += m;
        }
        vf::check(q == want, "first_prime", vf::key(b, m, bits), true, [&] { return vf::cat(type, "first_prime", b, m, "gives", q, "expected", want); });
        vf::at(vf::cat("next_prime", type, want, m));
        big next = want + m;
        while (!likely_prime(next)) {
            next += m;
        }
        const big nx(algebra::next_prime<I>(I(want), m));
        vf::check(nx == next, "next_prime", vf::key(b, m, bits), true, [&] { return vf::cat(type, "next_prime", want, m, "gives", nx, "expected", next); });
        const big pv(algebra::previous_prime<I>(I(next), m));
        vf::check(pv == want, "previous_prime", vf::key(b, m, bits), true, [&] { return vf::cat(type, "previous_prime", next, m, "gives", pv, "expected", want); });
        vf::arm(0);
    }
}
VF_MAIN("c25") {
#if PART == 0
    wide<big>("cpp_int", 700);
    all<big>("cpp_int");
#elif PART == 1
    wide<u512>("uint512", 512);
    all<u512>("uint512");
#else
    wide<u128>("uint128", 128);
    all<u128>("uint128");
#endif
}
