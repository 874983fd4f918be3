// Tiny extension towers built from the library's element templates, and a naive model: coefficient vectors over
// integers mod p, multiplied as polynomials and reduced by the defining binomials.
#ifndef VERIF_SMALL_TOWERS_HPP
#define VERIF_SMALL_TOWERS_HPP
#include "small_field.hpp"
#include "vf.hpp"

namespace vfield {
    typedef unsigned long long u64;
    typedef std::vector<u64> cv;    // flattened coefficients, innermost first

    // X^d - nr over the level below; nr is given flattened at that level
    struct level {
        unsigned d;
        cv nr;
    };
    struct tower {
        u64 p;
        std::vector<level> up;
        std::size_t size(std::size_t lv) const {
            std::size_t n = 1;
            for (std::size_t i = 0; i < lv; ++i) {
                n *= up[i].d;
            }
            return n;
        }
        std::size_t size() const {
            return size(up.size());
        }
        cv add(const cv &a, const cv &b) const {
            cv r(a.size());
            for (std::size_t i = 0; i < a.size(); ++i) {
                r[i] = (a[i] + b[i]) % p;
            }
            return r;
        }
        cv neg(const cv &a) const {
            cv r(a.size());
            for (std::size_t i = 0; i < a.size(); ++i) {
                r[i] = (p - a[i]) % p;
            }
            return r;
        }
        cv sub(const cv &a, const cv &b) const {
            return add(a, neg(b));
        }
        cv mul(const cv &a, const cv &b, std::size_t lv) const {
            if (lv == 0) {
                return {a[0] * b[0] % p};
            }
            const level &l = up[lv - 1];
            std::size_t m = size(lv - 1);
            std::vector<cv> acc(2 * l.d - 1, cv(m, 0));
            for (unsigned i = 0; i < l.d; ++i) {
                for (unsigned j = 0; j < l.d; ++j) {
                    acc[i + j] = add(acc[i + j], mul(cv(a.begin() + i * m, a.begin() + (i + 1) * m), cv(b.begin() + j * m, b.begin() + (j + 1) * m), lv - 1));
                }
            }
            cv r;
            for (unsigned i = 0; i < l.d; ++i) {
                cv c = acc[i];
                if (i + l.d < acc.size()) {
                    c = add(c, mul(acc[i + l.d], l.nr, lv - 1));
                }
                r.insert(r.end(), c.begin(), c.end());
            }
            return r;
        }
        cv mul(const cv &a, const cv &b) const {
            return mul(a, b, up.size());
        }
        cv one() const {
            cv r(size(), 0);
            r[0] = 1;
            return r;
        }
        cv zero() const {
            return cv(size(), 0);
        }
        template<class E>
        cv pow(cv a, E e) const {
            cv r = one();
            for (; e; e >>= 1) {
                if (e & 1) {
                    r = mul(r, a);
                }
                a = mul(a, a);
            }
            return r;
        }
        // elements are numbered by their coefficients in base p
        cv number(u64 k) const {
            cv r(size());
            for (auto &c : r) {
                c = k % p;
                k /= p;
            }
            return r;
        }
        cv random(vf::rng &g) const {
            cv r(size());
            unsigned mode = g.below(4);    // sparse ones too
            for (auto &c : r) {
                c = mode == 0 && g.below(2) ? 0 : g.below(p);
            }
            return r;
        }
    };
    inline std::string show(const cv &a) {
        std::string s;
        for (auto c : a) {
            s += (s.empty() ? "" : ",") + std::to_string(c);
        }
        return "[" + s + "]";
    }
    inline u64 key_of(const cv &a) {
        u64 h = 7;
        for (auto c : a) {
            h = h * 1000003 + c + 1;
        }
        return h;
    }

    // flatten and build library elements of any level
    template<class V, class = void>
    struct access {    // prime field
        static void flat(const V &v, cv &out) {
            out.push_back(canon(v));
        }
        static V make(const u64 *&c) {
            return V(*c++);
        }
    };
    template<class V>
    struct access<V, std::enable_if_t<(std::tuple_size<typename V::data_type>::value > 1)>> {
        typedef typename V::data_type D;
        typedef typename D::value_type U;
        static void flat(const V &v, cv &out) {
            for (auto &c : v.data) {
                access<U>::flat(c, out);
            }
        }
        static V make(const u64 *&c) {
            D d;
            for (std::size_t i = 0; i < d.size(); ++i) {
                d[i] = access<U>::make(c);
            }
            return V(d);
        }
    };
    template<class V>
    cv flat(const V &v) {
        cv r;
        access<V>::flat(v, r);
        return r;
    }
    template<class V>
    V make(const cv &c) {
        const u64 *p = c.data();
        return access<V>::make(p);
    }

    // ---- policies with the shape of the library's extension parameters ----
    template<u64 P>
    struct small_fp2;
    template<u64 P, u64 NR>
    struct fp2_policy : public fields::params<small_field<P>> {
        typedef fields::params<small_field<P>> policy_type;
        struct field_type {
            typedef fp2_policy extension_policy;
            typedef fields::detail::element_fp2<fp2_policy> value_type;
            constexpr static const std::size_t arity = 2;
        };
        typedef typename policy_type::integral_type integral_type;
        typedef typename policy_type::extended_integral_type extended_integral_type;
        constexpr static const integral_type modulus = policy_type::modulus;
        typedef small_field<P> non_residue_field_type;
        typedef typename small_field<P>::value_type non_residue_type;
        typedef small_field<P> underlying_field_type;
        typedef typename small_field<P>::value_type underlying_type;
        constexpr static u64 order = P * P - 1;
        constexpr static u64 two_adicity() {
            u64 n = order, s = 0;
            while (n % 2 == 0) {
                n /= 2;
                ++s;
            }
            return s;
        }
        constexpr static const std::size_t s = two_adicity();
        constexpr static u64 odd = order >> s;
        constexpr static const extended_integral_type t = extended_integral_type(odd);
        constexpr static const extended_integral_type t_minus_1_over_2 = extended_integral_type((odd - 1) / 2);
        constexpr static const extended_integral_type group_order_minus_one_half = extended_integral_type(order / 2);
        struct pair {
            u64 a, b;
        };
        constexpr static pair mul(pair x, pair y) {
            return {(x.a * y.a + NR * (x.b * y.b % P)) % P, (x.a * y.b + x.b * y.a) % P};
        }
        constexpr static pair power(pair x, u64 e) {
            pair r {1, 0};
            for (; e; e >>= 1) {
                if (e & 1) {
                    r = mul(r, x);
                }
                x = mul(x, x);
            }
            return r;
        }
        constexpr static pair nonresidue() {
            for (u64 a = 0; a < P; ++a) {
                pair q = power({a, 1}, order / 2);
                if (!(q.a == 1 && q.b == 0)) {
                    return {a, 1};
                }
            }
            return {0, 0};
        }
        constexpr static const std::array<integral_type, 2> nqr = {integral_type(nonresidue().a), integral_type(nonresidue().b)};
        constexpr static const std::array<integral_type, 2> nqr_to_t = {integral_type(power(nonresidue(), odd).a), integral_type(power(nonresidue(), odd).b)};
        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {integral_type(1u), integral_type(P - 1)};
        constexpr static const non_residue_type non_residue = non_residue_type(NR);
    };

    template<u64 P, u64 NR>
    struct fp3_policy : public fields::params<small_field<P>> {
        typedef fields::params<small_field<P>> policy_type;
        struct field_type {
            typedef fp3_policy extension_policy;
            typedef fields::detail::element_fp3<fp3_policy> value_type;
            constexpr static const std::size_t arity = 3;
        };
        typedef typename policy_type::integral_type integral_type;
        typedef typename policy_type::extended_integral_type extended_integral_type;
        constexpr static const integral_type modulus = policy_type::modulus;
        typedef small_field<P> non_residue_field_type;
        typedef typename small_field<P>::value_type non_residue_type;
        typedef small_field<P> underlying_field_type;
        typedef typename small_field<P>::value_type underlying_type;
        constexpr static u64 order = P * P * P - 1;
        constexpr static u64 two_adicity() {
            u64 n = order, s = 0;
            while (n % 2 == 0) {
                n /= 2;
                ++s;
            }
            return s;
        }
        constexpr static const std::size_t s = two_adicity();
        constexpr static u64 odd = order >> s;
        constexpr static const extended_integral_type t = extended_integral_type(odd);
        constexpr static const extended_integral_type t_minus_1_over_2 = extended_integral_type((odd - 1) / 2);
        constexpr static const extended_integral_type group_order_minus_one_half = extended_integral_type(order / 2);
        // a non-square of F_p stays a non-square in the cubic extension
        constexpr static u64 nonsquare() {
            for (u64 a = 2; a < P; ++a) {
                if (mpow(a, (P - 1) / 2, P) != 1) {
                    return a;
                }
            }
            return 0;
        }
        constexpr static const std::array<integral_type, 3> nqr = {integral_type(nonsquare()), integral_type(0u), integral_type(0u)};
        constexpr static const std::array<integral_type, 3> nqr_to_t = {integral_type(mpow(nonsquare(), odd % (P - 1), P)), integral_type(0u), integral_type(0u)};
        constexpr static u64 z = mpow(NR, (P - 1) / 3, P);
        constexpr static const std::array<integral_type, 3> Frobenius_coeffs_c1 = {integral_type(1u), integral_type(z), integral_type(z *z % P)};
        constexpr static const std::array<integral_type, 3> Frobenius_coeffs_c2 = {integral_type(1u), integral_type(z *z % P), integral_type(z)};
        constexpr static const non_residue_type non_residue = non_residue_type(NR);
    };

    // X^4 - NR as a quadratic extension of X^2 - NR; needs 4 | p - 1
    template<u64 P, u64 NR>
    struct fp4_policy : public fields::params<small_field<P>> {
        typedef fields::params<small_field<P>> policy_type;
        typedef typename policy_type::integral_type integral_type;
        typedef fp2_policy<P, NR> lower;
        typedef typename small_field<P>::value_type non_residue_type;
        typedef typename lower::field_type underlying_field_type;
        typedef fields::detail::element_fp2<lower> underlying_type;
        constexpr static u64 z = mpow(NR, (P - 1) / 4, P);
        constexpr static const std::array<integral_type, 4> Frobenius_coeffs_c1 = {integral_type(1u), integral_type(z), integral_type(z *z % P), integral_type(z *z % P *z % P)};
        constexpr static const non_residue_type non_residue = non_residue_type(NR);
    };
    // X^6 - NR as a quadratic extension of X^3 - NR; needs 6 | p - 1
    template<u64 P, u64 NR>
    struct fp6_2over3_policy : public fields::params<small_field<P>> {
        typedef fields::params<small_field<P>> policy_type;
        typedef typename policy_type::integral_type integral_type;
        typedef fp3_policy<P, NR> lower;
        typedef typename small_field<P>::value_type non_residue_type;
        typedef typename lower::field_type underlying_field_type;
        typedef fields::detail::element_fp3<lower> underlying_type;
        constexpr static u64 z = mpow(NR, (P - 1) / 6, P);
        constexpr static const std::array<integral_type, 6> Frobenius_coeffs_c1 = {
            integral_type(1u), integral_type(z), integral_type(mpow(z, 2, P)), integral_type(mpow(z, 3, P)), integral_type(mpow(z, 4, P)), integral_type(mpow(z, 5, P))};
        constexpr static const non_residue_type non_residue = non_residue_type(NR);
    };
    // X^3 - (A + u) over F_p[u]/(u^2 - NR)
    template<u64 P, u64 NR, u64 A>
    struct fp6_3over2_policy : public fields::params<small_field<P>> {
        typedef fields::params<small_field<P>> policy_type;
        typedef typename policy_type::integral_type integral_type;
        typedef fp2_policy<P, NR> lower;
        typedef fields::detail::element_fp2<lower> non_residue_type;
        typedef typename lower::field_type underlying_field_type;
        typedef fields::detail::element_fp2<lower> underlying_type;
        typedef typename lower::pair pair;
        // (A + u)^((p^i - 1) / 3 * k)
        constexpr static pair gamma(unsigned i, u64 div, u64 k) {
            pair r {1, 0}, xi {A, 1};
            // sum of p^j (p - 1) / div for j < i, evaluated as a product of powers
            u64 pj = 1;
            for (unsigned j = 0; j < i; ++j) {
                pair b = lower::power(xi, (P - 1) / div * k);
                if (j % 2) {
                    b = pair {b.a, (P - b.b) % P};    // p-th power is the conjugate
                }
                r = lower::mul(r, b);
            }
            return r;
        }
        template<unsigned N>
        constexpr static std::array<integral_type, 2 * N> table(u64 div, u64 k) {
            std::array<integral_type, 2 * N> r {};
            for (unsigned i = 0; i < N; ++i) {
                pair g = gamma(i, div, k);
                r[2 * i] = integral_type(g.a);
                r[2 * i + 1] = integral_type(g.b);
            }
            return r;
        }
        constexpr static const std::array<integral_type, 12> Frobenius_coeffs_c1 = table<6>(3, 1);
        constexpr static const std::array<integral_type, 12> Frobenius_coeffs_c2 = table<6>(3, 2);
        constexpr static const non_residue_type non_residue = non_residue_type(A, 1u);
    };
    template<u64 P, u64 NR, u64 A>
    struct fp12_policy : public fields::params<small_field<P>> {
        typedef fields::params<small_field<P>> policy_type;
        typedef typename policy_type::integral_type integral_type;
        typedef fp6_3over2_policy<P, NR, A> lower;
        typedef typename lower::non_residue_type non_residue_type;
        struct underlying_field_type {
            typedef fields::detail::element_fp6_3over2<lower> value_type;
        };
        typedef fields::detail::element_fp6_3over2<lower> underlying_type;
        constexpr static const std::array<integral_type, 24> Frobenius_coeffs_c1 = lower::template table<12>(6, 1);
        constexpr static const non_residue_type non_residue = lower::non_residue;
    };

    template<u64 P, u64 NR>
    using F2 = fields::detail::element_fp2<fp2_policy<P, NR>>;
    template<u64 P, u64 NR>
    using F3 = fields::detail::element_fp3<fp3_policy<P, NR>>;
    template<u64 P, u64 NR>
    using F4 = fields::detail::element_fp4<fp4_policy<P, NR>>;
    template<u64 P, u64 NR>
    using F6a = fields::detail::element_fp6_2over3<fp6_2over3_policy<P, NR>>;
    template<u64 P, u64 NR, u64 A>
    using F6b = fields::detail::element_fp6_3over2<fp6_3over2_policy<P, NR, A>>;
    template<u64 P, u64 NR, u64 A>
    using F12 = fields::detail::element_fp12_2over3over2<fp12_policy<P, NR, A>>;

    inline tower t2(u64 p, u64 nr) {
        return {p, {{2, {nr}}}};
    }
    inline tower t3(u64 p, u64 nr) {
        return {p, {{3, {nr}}}};
    }
    inline tower t4(u64 p, u64 nr) {
        return {p, {{2, {nr}}, {2, {0, 1}}}};
    }
    inline tower t6a(u64 p, u64 nr) {
        return {p, {{3, {nr}}, {2, {0, 1, 0}}}};
    }
    inline tower t6b(u64 p, u64 nr, u64 a) {
        return {p, {{2, {nr}}, {3, {a, 1}}}};
    }
    inline tower t12(u64 p, u64 nr, u64 a) {
        return {p, {{2, {nr}}, {3, {a, 1}}, {2, {0, 0, 1, 0, 0, 0}}}};
    }
}    // namespace vfield
#endif
