// C20 (MODE 20) multi-exponentiation, C21 (MODE 21) wNAF and fixed-base windows.
//   PART 0: additive groups Z_q with long lists   PART 1: tiny curves exhaustively   PART 2-8: a predefined curve with its own
//   window tables, recorded and judged offline (lib/multiexp_oracle.py)
#include <array>
#include <cassert>
#include <deque>
#include <iostream>
#if PART <= 1
#include "small_curves.hpp"
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#else
#include "vf.hpp"
#if PART == 2
#include <nil/crypto3/algebra/curves/params/multiexp/bls12.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/bls12.hpp>
#define LIST(X) X("bls12_381_g1", curves::bls12<381>, g1_type)
#elif PART == 3
#include <nil/crypto3/algebra/curves/params/multiexp/bls12.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/bls12.hpp>
#define LIST(X) X("bls12_377_g1", curves::bls12<377>, g1_type) X("bls12_377_g2", curves::bls12<377>, g2_type)
#elif PART == 4
#include <nil/crypto3/algebra/curves/params/multiexp/alt_bn128.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/alt_bn128.hpp>
#define LIST(X) X("alt_bn128_g1", curves::alt_bn128<254>, g1_type) X("alt_bn128_g2", curves::alt_bn128<254>, g2_type)
#elif PART == 5
#include <nil/crypto3/algebra/curves/params/multiexp/mnt4.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/mnt4.hpp>
#define LIST(X) X("mnt4_g1", curves::mnt4<298>, g1_type) X("mnt4_g2", curves::mnt4<298>, g2_type)
#elif PART == 6
#include <nil/crypto3/algebra/curves/params/multiexp/mnt6.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/mnt6.hpp>
#define LIST(X) X("mnt6_g1", curves::mnt6<298>, g1_type) X("mnt6_g2", curves::mnt6<298>, g2_type)
#elif PART == 7
#include <nil/crypto3/algebra/curves/params/multiexp/edwards.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/edwards.hpp>
#define LIST(X) X("edwards", curves::edwards<183>, g1_type)
#elif PART == 8
#include <nil/crypto3/algebra/curves/params/multiexp/bls12.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/bls12.hpp>
#define LIST(X) X("bls12_381_g2", curves::bls12<381>, g2_type)
#endif
#endif
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/coordinates.hpp>
#include <nil/crypto3/algebra/multiexp/multiexp.hpp>
#include <nil/crypto3/algebra/multiexp/inner_product.hpp>
#include <nil/crypto3/algebra/wnaf.hpp>
namespace algebra = nil::crypto3::algebra;
namespace curves = algebra::curves;
typedef algebra::policies::multiexp_method_naive_plain plain_method;
typedef algebra::policies::multiexp_method_BDLO12 bdlo;
typedef algebra::policies::multiexp_method_bos_coster bos;

#if PART <= 1
typedef unsigned long long u64;
static const u64 Q = (1ull << 61) - 1;
template<unsigned TABLE>
struct line_group;
// Z_q written additively
template<unsigned TABLE>
struct line {
    typedef line_group<TABLE> group_type;
    u64 v = 0;
    typedef vfield::small_field<Q> field_type;
    static line zero() {
        return {};
    }
    static line one() {
        return of(1);
    }
    static line of(u64 x) {
        line r;
        r.v = x % Q;
        return r;
    }
    bool is_zero() const {
        return v == 0;
    }
    line operator+(const line &o) const {
        return of(v + o.v);
    }
    line operator-(const line &o) const {
        return of(v + Q - o.v);
    }
    line &operator+=(const line &o) {
        return *this = *this + o;
    }
    line &operator-=(const line &o) {
        return *this = *this - o;
    }
    line operator-() const {
        return of(Q - v);
    }
    void double_inplace() {
        v = (v + v) % Q;
    }
    bool operator==(const line &o) const {
        return v == o.v;
    }
    bool operator!=(const line &o) const {
        return v != o.v;
    }
    bool is_well_formed() const {
        return v < Q;
    }
};
static u64 mulq(u64 a, u64 b) {
    return (u64)((unsigned __int128)a * b % Q);
}
typedef vfield::small_field<Q> qfield;
typedef qfield::value_type qscalar;
typedef qfield::integral_type qint;
typedef qfield::modular_type qmod;
// a scalar may stand on either side and be a field element, its residue, an integer or a word, as for the library's points
static u64 scalar_of(const qscalar &s) {
    return vfield::canon(s);
}
static u64 scalar_of(const qmod &s) {
    return scalar_of(qscalar(s));
}
static u64 scalar_of(const qint &s) {
    return (u64)(s % qint(Q));
}
static u64 scalar_of(std::size_t s) {
    return s % Q;
}
#define LINE_TIMES(S)                                                \
    template<unsigned T>                                             \
    static line<T> operator*(const S &s, const line<T> &b) {         \
        return line<T>::of(mulq(scalar_of(s), b.v));                 \
    }                                                                \
    template<unsigned T>                                             \
    static line<T> operator*(const line<T> &b, const S &s) {         \
        return s * b;                                                \
    }                                                                \
    template<unsigned T>                                             \
    static line<T> &operator*=(line<T> &b, const S &s) {             \
        return b = s * b;                                            \
    }
LINE_TIMES(qscalar)
LINE_TIMES(qmod)
LINE_TIMES(qint)
LINE_TIMES(std::size_t)
#undef LINE_TIMES
template<unsigned TABLE>
struct line_group {
    typedef line<TABLE> value_type;
};
namespace nil {
    namespace crypto3 {
        namespace algebra {
            namespace curves {
                template<>
                struct wnaf_params<line_group<0>> {
                    constexpr static const std::array<std::size_t, 4> wnaf_window_table = {11, 24, 60, 127};
                };
                template<>
                struct wnaf_params<line_group<1>> {
                    constexpr static const std::array<std::size_t, 6> wnaf_window_table = {1, 2, 3, 9, 20, 50};
                };
                template<>
                struct wnaf_params<line_group<2>> {
                    constexpr static const std::array<std::size_t, 0> wnaf_window_table = {};
                };
                template<>
                struct multiexp_params<line_group<0>> {
                    constexpr static const std::array<std::size_t, 10> fixed_base_exp_window_table = {1, 5, 10, 25, 59, 0, 154, 0, 0, 334};
                };
                template<>
                struct multiexp_params<line_group<1>> {
                    constexpr static const std::array<std::size_t, 4> fixed_base_exp_window_table = {3, 4, 8, 0};
                };
                template<>
                struct multiexp_params<line_group<2>> {
                    constexpr static const std::array<std::size_t, 0> fixed_base_exp_window_table = {};
                };
                template<class P, class F, class C>
                struct wnaf_params<vcurve::tiny_group<P, F, C>> {
                    constexpr static const std::array<std::size_t, 3> wnaf_window_table = {1, 3, 4};
                };
                template<class P, class F, class C>
                struct multiexp_params<vcurve::tiny_group<P, F, C>> {
                    constexpr static const std::array<std::size_t, 4> fixed_base_exp_window_table = {1, 3, 0, 6};
                };
            }    // namespace curves
        }        // namespace algebra
    }            // namespace crypto3
}    // namespace nil
__attribute__((noinline)) static void judge(const std::string &what, u64 key, bool nontrivial, bool ok, const std::string &got) {
    static std::map<std::string, std::string> sites;
    const std::string &site = sites.emplace(what, what).first->second;
    vf::check(ok, site.c_str(), key, nontrivial, [&] { return vf::cat(vf::cur_op, what, "gave", got); });
}
#endif

#if MODE == 20
template<class V, class S, class F>
static void every_policy(const F &say, const std::vector<V> &p, const std::vector<S> &s, std::size_t chunks) {
    typedef typename std::vector<V>::const_iterator ci;
    const auto b = p.begin(), e = p.end();
    const auto sb = s.begin(), se = s.end();
    say("plain", algebra::multiexp<plain_method>(b, e, sb, se, chunks));
    say("bos_coster", algebra::multiexp<bos>(b, e, sb, se, chunks));
    say("bdlo12", algebra::multiexp<bdlo>(b, e, sb, se, chunks));
    say("plain_01", algebra::multiexp_with_mixed_addition<plain_method>(b, e, sb, se, chunks));
    say("bos_coster_01", algebra::multiexp_with_mixed_addition<bos>(b, e, sb, se, chunks));
    say("bdlo12_01", algebra::multiexp_with_mixed_addition<bdlo>(b, e, sb, se, chunks));
}
#if PART == 0
template<unsigned T>
static void one_list(const char *kind, const std::vector<u64> &p, const std::vector<u64> &s, std::size_t chunks, bool iterators) {
    std::vector<line<T>> P;
    std::vector<qscalar> S;
    u64 want = 0, k = vf::key(T, p.size(), chunks, vf::hash(kind));
    for (std::size_t i = 0; i < p.size(); ++i) {
        P.push_back(line<T>::of(p[i]));
        S.push_back(qscalar(s[i]));
        want = (want + mulq(p[i], s[i])) % Q;
        k = vf::mix(k ^ vf::mix(p[i] ^ vf::mix(s[i])));
    }
    vf::at(vf::cat("table", T, kind, "scalars, length", p.size(), "chunks", chunks));
    auto say = [&](const char *what, const line<T> &got) { judge(what, k, want != 0, got.v == want, vf::cat(got.v, "expected", want)); };
    every_policy(say, P, S, chunks);
    if (iterators) {
        // other random access iterators, and the operands afterwards
        std::deque<line<T>> D(P.begin(), P.end());
        std::deque<qscalar> E(S.begin(), S.end());
        say("plain_deque", algebra::multiexp<plain_method>(D.begin(), D.end(), E.begin(), E.end(), chunks));
        say("bos_coster_deque", algebra::multiexp<bos>(D.begin(), D.end(), E.begin(), E.end(), chunks));
        say("bdlo12_deque", algebra::multiexp<bdlo>(D.begin(), D.end(), E.begin(), E.end(), chunks));
        say("bdlo12_pointers", algebra::multiexp<bdlo>(P.data(), P.data() + P.size(), S.data(), S.data() + S.size(), chunks));
        say("bos_coster_pointers_01", algebra::multiexp_with_mixed_addition<bos>(P.data(), P.data() + P.size(), S.data(), S.data() + S.size(), chunks));
        bool kept = true;
        for (std::size_t i = 0; i < p.size(); ++i) {
            kept = kept && D[i].v == p[i] % Q && E[i] == qscalar(s[i]) && P[i].v == p[i] % Q && S[i] == qscalar(s[i]);
        }
        judge("operands_kept", k, true, kept, "changed operands");
        std::vector<qscalar> A;
        for (u64 x : p) {
            A.push_back(qscalar(x));
        }
        const qscalar ip = algebra::inner_product(A.begin(), A.end(), S.begin(), S.end());
        judge("inner_product", k, want != 0, vfield::canon(ip) == want, vf::cat(vfield::canon(ip), "expected", want));
    }
}
static const char *KINDS[] = {"random", "small", "zero", "one", "maximal", "equal", "powers", "mixed", "staggered", "halves", "one_large", "bits", "fibonacci"};
static u64 scalar_of(int kind, std::size_t i, std::size_t n, u64 base, vf::rng &g) {
    switch (kind) {
        case 0: return g() % Q;
        case 1: return g.below(20);
        case 2: return 0;
        case 3: return 1;
        case 4: return Q - 1 - g.below(3);
        case 5: return base;
        case 6: return 1ull << (i % 61);
        case 7: { const u64 t[] = {0, 1, 2, Q - 1, Q - 2, g() % Q, g.below(9), 1ull << 60}; return t[g.below(8)] % Q; }
        case 8: return (g() % Q) >> (i * 7 % 61);
        case 9: return base >> (i % 60);
        case 10: return i == base % n ? g() % Q : g.below(2);
        case 11: return (g() & g() & g()) % Q;
        default: {
            u64 a = 1, b = 1;
            for (std::size_t j = 0; j < i % 85; ++j) {
                const u64 c = a + b;
                a = b;
                b = c;
            }
            return b % Q;
        }
    }
}
template<unsigned T>
static void lists() {
    vf::rng g(vf::seed() * 8 + T);
    std::vector<std::size_t> lengths;
    for (std::size_t n = 0; n <= vf::n(30, 80); ++n) {
        lengths.push_back(n);
    }
    for (std::size_t n : {63u, 64u, 65u, 100u, 127u, 128u, 129u, 255u, 256u, 257u, 500u, 511u, 512u, 513u, 1000u, 1024u, 1025u, 2049u, 5000u, 20000u}) {
        lengths.push_back(n);
    }
    if (vf::thorough()) {
        for (std::size_t n : {1023u, 2047u, 2048u, 4095u, 4096u, 4097u, 8192u, 12000u}) {
            lengths.push_back(n);
        }
    }
    for (std::size_t n : lengths) {
        for (int kind = 0; kind < 13; ++kind) {
            // the longest list costs the most: two kinds of scalars are enough
            if (n > 15000 && kind != 0 && kind != 9) {
                continue;
            }
            for (std::size_t rep = 0; rep < (n < 40 ? vf::n(1, 8) : 1); ++rep) {
                const u64 base = g() % Q;
                std::vector<u64> p, s;
                const unsigned pk = g.below(4);
                for (std::size_t i = 0; i < n; ++i) {
                    p.push_back(pk == 0 && g.below(3) == 0 ? 0 : pk == 1 ? (base + g.below(3)) % Q : pk == 2 && i % 2 ? Q - p.back() : g() % Q);
                    s.push_back(scalar_of(kind, i, n, base, g));
                }
                for (std::size_t chunks : n < 12 ? std::vector<std::size_t> {1, 2, 3, n, n + 1, 4, 8} :
                                                   std::vector<std::size_t> {1, 2 + g.below(9), n - g.below(4), n + 1}) {
                    if (chunks && (n < 200 || chunks < 40)) {
                        one_list<T>(KINDS[kind], p, s, chunks, rep == 0);
                    }
                }
            }
        }
    }
}
static void body() {
    lists<0>();
    lists<1>();
    lists<2>();
}
#elif PART == 1
using namespace vcurve;
// every list of up to DEPTH point/scalar pairs
template<class Params, class Form, class C>
static void exhaust(const char *name, unsigned depth) {
    typedef curves::detail::curve_element<Params, Form, C> V;
    typedef rep<V> R;
    typedef typename Params::scalar_field_type::value_type S;
    const model M = Params::naive();
    std::vector<pt> sub;
    for (u64 i = 0; i < Params::order; ++i) {
        sub.push_back(M.mul(Params::generator(), i));
    }
    const u64 q = Params::order;
    vf::rng g(vf::seed());
    for (unsigned n = 0; n <= depth; ++n) {
        u64 total = 1;
        for (unsigned i = 0; i < n; ++i) {
            total *= q * q;
        }
        // (all lists while that is affordable, else seeded ones)
        const u64 limit = vf::n(1500, 60000);
        for (u64 c = 0; c < std::min(total, limit); ++c) {
            u64 code = total <= limit ? c : g();
            std::vector<V> P;
            std::vector<S> s;
            u64 log = 0;
            const u64 key = code;
            std::string text;
            for (unsigned i = 0; i < n; ++i, code /= q * q) {
                const u64 k = code % q, e = code / q % q;
                P.push_back(R::make(M, sub[k], R::scaled ? 1 + (c + i) % (M.p - 1) : 1));
                s.push_back(S(e));
                log += k * e;
                text += vf::cat("", e, "*", k, "G");
            }
            const pt want = sub[log % q];
            vf::at(vf::cat(name, "list", text));
            for (unsigned chunks = 1; chunks <= (n < 3 ? n + 1 : 2); ++chunks) {
                auto say = [&](const char *what, const V &got) {
                    judge(what, vf::key(vf::hash(name), n, key, chunks), !want.inf, R::read(M, got) == want && got == R::make(M, want, 1),
                          vf::cat(show(R::read(M, got)), "expected", show(want), "in", chunks, "chunks"));
                };
                every_policy(say, P, s, chunks);
            }
        }
    }
}
static void body() {
    exhaust<sw<7, 0, 3, 1, 2, 13>, forms::short_weierstrass, coords::jacobian_with_a4_0>("jacobian_with_a4_0 mod 7", 3);
    exhaust<sw<7, 1, 6, 1, 1, 11>, forms::short_weierstrass, coords::jacobian>("jacobian mod 7", 6);
    exhaust<sw<7, 4, 6, 1, 2, 11>, forms::short_weierstrass, coords::projective>("projective mod 7", 3);
    exhaust<te<13, 12, 6, 3, 9, 5, 5, 2, 5>, forms::twisted_edwards, coords::extended_with_a_minus_1>("extended mod 13", 4);
    exhaust<te<37, 36, 2, 8, 10, 5, 25, 7, 8>, forms::twisted_edwards, coords::inverted>("inverted mod 37", 3);
}
#endif
#else
#if PART == 0
template<unsigned T>
static void wnaf() {
    vf::rng g(vf::seed() * 8 + T);
    auto one = [&](u64 s, u64 b) {
        const u64 want = mulq(s, b);
        for (std::size_t w = 1; w <= vf::n(9, 13); ++w) {
            vf::at(vf::cat("fixed_window_wnaf_exp window", w, "base", b, "scalar", s));
            const auto got = algebra::fixed_window_wnaf_exp(w, line<T>::of(b), qint(s));
            judge("fixed_window_wnaf_exp", vf::key(T, w, s, b), want != 0, got.v == want, vf::cat(got.v, "expected", want));
        }
        unsigned len = vfield::bits_of(s);
        for (std::size_t bits : {std::size_t(len), std::size_t(len + 1), std::size_t(61), std::size_t(0), std::size_t(200)}) {
            vf::at(vf::cat("opt_window_wnaf_exp bits", bits, "table", T, "base", b, "scalar", s));
            const auto got = algebra::opt_window_wnaf_exp(line<T>::of(b), qint(s), bits);
            judge("opt_window_wnaf_exp", vf::key(T, bits, s, b), want != 0, got.v == want, vf::cat(got.v, "expected", want));
        }
    };
    for (u64 s = 0; s < vf::n(1100, 5000); ++s) {
        one(s, 1 + g() % (Q - 1));
    }
    for (unsigned k = 0; k < 61; ++k) {
        for (u64 d : {-3ll, -2ll, -1ll, 0ll, 1ll, 2ll, 3ll}) {
            const u64 s = (1ull << k) + d;
            if (s < Q) {
                one(s, g() % Q);
            }
        }
    }
    for (std::size_t i = 0; i < vf::n(400, 6000); ++i) {
        one((g() & (g.below(3) ? ~0ull : g())) % Q >> g.below(61), g() % Q);
    }
    one(Q - 1, 0);
    one(Q - 1, Q - 1);
    for (std::size_t w = 10; w <= 18; ++w) {
        for (int i = 0; i < 12; ++i) {
            const u64 s = i == 0 ? Q - 1 : i == 1 ? 1ull << w : i == 2 ? (1ull << w) - 1 : i == 3 ? (1ull << (w - 1)) + 1 : g() % Q, b = g() % Q, want = mulq(s, b);
            vf::at(vf::cat("fixed_window_wnaf_exp window", w, "base", b, "scalar", s));
            const auto got = algebra::fixed_window_wnaf_exp(w, line<T>::of(b), qint(s));
            judge("fixed_window_wnaf_exp_wide", vf::key(T, w, s, b), want != 0, got.v == want, vf::cat("window", w, "of", b, "by", s, "gave", got.v, "expected", want));
        }
    }
}
template<unsigned T>
static void windows() {
    typedef line_group<T> G;
    vf::rng g(vf::seed() * 8 + T);
    for (std::size_t n = 0; n < 400; ++n) {
        vf::at(vf::cat("get_exp_window_size", n));
        const std::size_t got = algebra::get_exp_window_size<G>(n);
        const auto &t = curves::multiexp_params<G>::fixed_base_exp_window_table;
        std::size_t want = t.empty() ? 17 : 1;
        for (std::size_t i = 0; i < t.size(); ++i) {
            if (t.data()[i] != 0 && n >= t.data()[i]) {
                want = i + 1;
            }
        }
#ifdef LOWMEM
        want = std::min<std::size_t>(want, 14);
#endif
        judge("get_exp_window_size", vf::key(T, n), true, got == want, vf::cat(got, "expected", want));
    }
    std::vector<std::size_t> sizes;
    for (std::size_t bits = 1; bits < 61; bits += bits < 14 ? 1 : 1 + g.below(5)) {
        sizes.push_back(bits);
    }
    sizes.push_back(61);
    for (std::size_t bits : sizes) {
        // the windows up to 9, and at some lengths the wide ones a group without a table gets too
        std::vector<std::size_t> wide;
        for (std::size_t w = 1; w <= std::min<std::size_t>(bits + 2, vf::n(9, 12)); ++w) {
            wide.push_back(w);
        }
        if (bits == 61 || (bits > 33 && bits < 39)) {
            for (std::size_t w = wide.back() + 1 + T % 2; w <= 18; w += 2 + (w == 13)) {
                wide.push_back(w);
            }
        }
        for (std::size_t w : wide) {
            const u64 b = g() % Q;
            vf::at(vf::cat("get_window_table bits", bits, "window", w, "base", b));
            const auto table = algebra::get_window_table<G>(bits, w, line<T>::of(b));
            const std::size_t rows = (bits + w - 1) / w;
            bool good = table.size() == rows;
            for (std::size_t o = 0; good && o < rows; ++o) {
                const std::size_t cols = o + 1 == rows ? 1ull << (bits - o * w) : 1ull << w;
                good = table[o].size() >= cols;
                for (std::size_t i = 0; good && i < cols; ++i) {
                    good = table[o][i].v == mulq(mulq(i, (u64)(((unsigned __int128)1 << (o * w)) % Q)), b);
                }
            }
            judge("get_window_table", vf::key(T, bits, w, b), true, good, "a table with a wrong entry");
            std::vector<u64> s {0, 1, (bits == 61 ? Q - 1 : (1ull << bits) - 1), 1ull << (bits - 1)};
            if (bits <= 7) {
                s.clear();
                for (u64 i = 0; i < 1ull << bits; ++i) {
                    s.push_back(i);
                }
            }
            for (int i = 0; i < (w == 4 && bits == 61 ? 5000 : 12); ++i) {
                s.push_back(g() % (bits == 61 ? Q : 1ull << bits));
            }
            std::vector<qscalar> v;
            for (u64 x : s) {
                vf::at(vf::cat("windowed_exp bits", bits, "window", w, "base", b, "scalar", x));
                const auto got = algebra::windowed_exp<G, qfield>(bits, w, table, qscalar(x));
                judge("windowed_exp", vf::key(T * 64 + bits, w, x, b), x != 0, got.v == mulq(x, b), vf::cat(got.v, "expected", mulq(x, b)));
                v.push_back(qscalar(x));
            }
            for (std::size_t n : {std::size_t(0), std::size_t(1), v.size()}) {
                const std::vector<qscalar> part(v.begin(), v.begin() + n);
                vf::at(vf::cat("batch_exp bits", bits, "window", w, "base", b, "length", n));
                const auto r = algebra::batch_exp<G, qfield>(bits, w, table, part);
                bool ok = r.size() == n;
                for (std::size_t i = 0; ok && i < n; ++i) {
                    ok = r[i].v == mulq(s[i], b);
                }
                judge("batch_exp", vf::key(T * 64 + bits, w, n, b), n != 0, ok, "an entry that is not scalar*base");
                // (the coefficient times a scalar is reduced modulo the group order, so it takes a table for all its bits)
                if (bits == 61) {
                    for (u64 c : {(u64)0, (u64)1, Q - 1, g() % Q}) {
                        vf::at(vf::cat("batch_exp_with_coeff window", w, "base", b, "coefficient", c, "length", n));
                        const auto rc = algebra::batch_exp_with_coeff<G, qfield>(bits, w, table, qscalar(c), part);
                        bool okc = rc.size() == n;
                        for (std::size_t i = 0; okc && i < n; ++i) {
                            okc = rc[i].v == mulq(c, mulq(s[i], b));
                        }
                        judge("batch_exp_with_coeff", vf::key(T * 64 + c % 1000, w, n, b), n != 0, okc, "an entry that is not coefficient*scalar*base");
                    }
                }
            }
        }
    }
}
static void body() {
    wnaf<0>();
    wnaf<1>();
    wnaf<2>();
    windows<0>();
    windows<1>();
    windows<2>();
}
#elif PART == 1
using namespace vcurve;
template<class Params, class Form, class C>
static void exhaust(const char *name) {
    typedef curves::detail::curve_element<Params, Form, C> V;
    typedef tiny_group<Params, Form, C> G;
    typedef rep<V> R;
    typedef typename Params::scalar_field_type F;
    typedef typename F::value_type S;
    const model M = Params::naive();
    std::vector<pt> sub;
    for (u64 i = 0; i < Params::order; ++i) {
        sub.push_back(M.mul(Params::generator(), i));
    }
    const u64 q = Params::order;
    for (u64 k = 0; k < q; ++k) {
        const V B = R::make(M, sub[k], R::scaled ? 1 + k % (M.p - 1) : 1);
        auto say = [&](const char *what, u64 s, std::size_t w, const V &got) {
            const pt want = sub[s % q * k % q];
            vf::at(vf::cat(name, what, "window", w, "scalar", s, "base", k, "G"));
            judge(what, vf::key(vf::hash(name), k, s, w), !want.inf, R::read(M, got) == want && got == R::make(M, want, 1), vf::cat(show(R::read(M, got)), "expected", show(want)));
        };
        for (u64 s = 0; s < 8 * q; ++s) {
            for (std::size_t w = 1; w <= 6; ++w) {
                vf::at(vf::cat(name, "fixed_window_wnaf_exp window", w, "scalar", s, "base", k, "G"));
                say("fixed_window_wnaf_exp", s, w, algebra::fixed_window_wnaf_exp(w, B, wide(s)));
                say("opt_window_wnaf_exp", s, w, algebra::opt_window_wnaf_exp(B, wide(s), w));
            }
        }
        for (std::size_t bits = vfield::bits_of(q - 1); bits < vfield::bits_of(q - 1) + 3; ++bits) {
            for (std::size_t w = 1; w <= 6; ++w) {
                vf::at(vf::cat(name, "get_window_table bits", bits, "window", w, "base", k, "G"));
                const auto table = algebra::get_window_table<G>(bits, w, B);
                std::vector<S> all;
                for (u64 s = 0; s < q; ++s) {
                    say("windowed_exp", s, w, algebra::windowed_exp<G, F>(bits, w, table, S(s)));
                    all.push_back(S(s));
                }
                const auto r = algebra::batch_exp<G, F>(bits, w, table, all);
                const u64 c = (k + w) % q;
                const auto rc = algebra::batch_exp_with_coeff<G, F>(bits, w, table, S(c), all);
                for (u64 s = 0; s < q; ++s) {
                    say("batch_exp", s, w, r.at(s));
                    say("batch_exp_with_coeff", s * c, w, rc.at(s));
                }
            }
        }
    }
}
static void body() {
    exhaust<sw<7, 0, 3, 1, 2, 13>, forms::short_weierstrass, coords::jacobian_with_a4_0>("jacobian_with_a4_0 mod 7");
    exhaust<sw<31, 1, 3, 1, 6, 41>, forms::short_weierstrass, coords::jacobian>("jacobian mod 31");
    exhaust<sw<7, 4, 6, 1, 2, 11>, forms::short_weierstrass, coords::projective>("projective mod 7");
    exhaust<te<13, 12, 6, 3, 9, 5, 5, 2, 5>, forms::twisted_edwards, coords::extended_with_a_minus_1>("extended mod 13");
    exhaust<te<37, 36, 2, 8, 10, 5, 25, 7, 8>, forms::twisted_edwards, coords::inverted>("inverted mod 37");
}
#endif
#endif

#if PART >= 2
template<class I>
static std::string hex(const I &n) {
    std::ostringstream o;
    o << std::hex << n;
    return o.str();
}
template<class V, class = void>
struct is_tower : std::false_type {};
template<class V>
struct is_tower<V, std::void_t<decltype(std::tuple_size<decltype(V::data)>::value)>> : std::true_type {};
template<class V>
static std::string flat(const V &v) {
    if constexpr (is_tower<V>::value) {
        std::string s;
        for (std::size_t i = 0; i < v.data.size(); ++i) {
            s += (i ? "," : "") + flat(v.data[i]);
        }
        return s;
    } else {
        return hex(typename V::integral_type(v.data));
    }
}
template<class V>
static std::string show(const V &p) {
    return flat(p.X) + ";" + flat(p.Y) + ";" + flat(p.Z);
}
template<class Cv, class G>
static void real(const char *name) {
    typedef typename G::value_type V;
    typedef typename Cv::scalar_field_type F;
    typedef typename F::value_type S;
    typedef typename S::integral_type I;
    vf::rng g(vf::seed());
    const char *coord = std::is_same<typename V::coordinates, curves::coordinates::inverted>::value ? "inverted" :
                        std::is_same<typename V::coordinates, curves::coordinates::projective>::value ? "projective" : "jacobian";
    auto draw = [&] {
        S r = S::one();
        for (int i = 0; i < 6; ++i) {
            r = r * S(g() >> 1) + S(g() >> 1);
        }
        return r;
    };
    std::vector<V> multiple {V::zero(), V::one()};
    for (int i = 2; i < 12; ++i) {
        multiple.push_back(multiple.back() + V::one());
    }
    const S max = S::zero() - S::one();
#if MODE == 20
    std::vector<std::size_t> lengths {0, 1, 2, 3, 4, 7, 12};
    if (vf::thorough()) {
        lengths.insert(lengths.end(), {5, 6, 8, 16, 31, 40, 64, 100});
    }
    for (std::size_t n : lengths) {
        for (int kind = 0; kind < 4; ++kind) {
            std::vector<V> P;
            std::vector<S> s;
            std::string ks, ss;
            for (std::size_t i = 0; i < n; ++i) {
                const std::size_t k = g.below(multiple.size());
                const S special[] = {S::zero(), S::one(), max, S(2u), S(g.below(1000)), draw()};
                const S e = kind == 0 ? draw() : kind == 1 ? S::zero() : kind == 2 ? special[g.below(6)] : i ? S(g.below(50)) : max;
                P.push_back(multiple[k]);
                s.push_back(e);
                ks += (i ? "," : "") + std::to_string(k);
                ss += (i ? "," : "") + hex(I(e.data));
            }
            const std::size_t chunks = kind % 2 ? 1 : 1 + g.below(4);
            vf::at(vf::cat(name, n, "points, chunks", chunks, "scalars", ss));
            every_policy([&](const char *what, const V &got) { std::printf("T\t%s\t%s\t%s\t%s\t%s\t%s\n", name, coord, what, ks.c_str(), ss.c_str(), show(got).c_str()); }, P, s, chunks);
        }
    }
#else
    auto say = [&](const char *what, std::size_t k, const S &s, const V &got) {
        std::printf("T\t%s\t%s\t%s\t%zu\t%s\t%s\n", name, coord, what, k, hex(I(s.data)).c_str(), show(got).c_str());
    };
    std::vector<S> s {S::zero(), S::one(), S(2u), S(0x123456789u), max};
    for (std::size_t i = 0; i < vf::n(2, 40); ++i) {
        s.push_back(draw());
    }
    int turn = 0;
    for (const S &e : s) {
        const std::size_t k = 1 + g.below(multiple.size() - 1);
        const I n(e.data);
        for (std::size_t w = 1 + turn % 2; w <= 7; w += 2) {
            vf::at(vf::cat(name, "fixed_window_wnaf_exp", w, hex(n)));
            say("fixed_window_wnaf_exp", k, e, algebra::fixed_window_wnaf_exp(w, multiple[k], n));
        }
        vf::at(vf::cat(name, "opt_window_wnaf_exp", hex(n)));
        say("opt_window_wnaf_exp", k, e, algebra::opt_window_wnaf_exp(multiple[k], n, e.is_zero() ? 0 : boost::multiprecision::msb(n) + 1));
        ++turn;
    }
    for (std::size_t n : {0u, 1u, 4u, 5u, 11u, 60u, 500u, 10000u, 100000u, 1000000u, 100000000u}) {
        const std::size_t got = algebra::get_exp_window_size<G>(n);
        const auto &t = curves::multiexp_params<G>::fixed_base_exp_window_table;
        std::size_t want = 1;
        for (std::size_t i = 0; i < t.size(); ++i) {
            if (t[i] != 0 && n >= t[i]) {
                want = i + 1;
            }
        }
#ifdef LOWMEM
        want = std::min<std::size_t>(want, 14);
#endif
        vf::check(got == want, "get_exp_window_size", vf::key(vf::hash(name), n), true, [&] { return vf::cat(name, n, "gave", got, "expected", want); });
    }
    for (std::size_t n : {3u, 20u}) {
        const std::size_t w = algebra::get_exp_window_size<G>(n), k = 1 + g.below(multiple.size() - 1);
        vf::at(vf::cat(name, "get_window_table", w));
        const auto table = algebra::get_window_table<G>(F::value_bits, w, multiple[k]);
        for (const S &e : s) {
            say("windowed_exp", k, e, algebra::windowed_exp<G, F>(F::value_bits, w, table, e));
        }
        const auto r = algebra::batch_exp<G, F>(F::value_bits, w, table, s);
        const S c = n == 3 ? max : draw();
        const auto rc = algebra::batch_exp_with_coeff<G, F>(F::value_bits, w, table, c, s);
        for (std::size_t i = 0; i < s.size(); ++i) {
            say("batch_exp", k, s[i], r.at(i));
            say("batch_exp_with_coeff", k, c * s[i], rc.at(i));
        }
    }
#endif
}
static void body() {
#define DO(name, C, G) real<C, C::G<>>(name);
    LIST(DO)
}
#endif
int main() {
    return vf::run("multiexp", body);
}
