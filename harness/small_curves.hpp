// Tiny curves for the library's curve_element classes, and a naive affine model of their groups over integers mod p.
#ifndef VERIF_SMALL_CURVES_HPP
#define VERIF_SMALL_CURVES_HPP
#include "small_field.hpp"
#include "vf.hpp"
#include <map>
#include <set>
#include <sstream>
#include <nil/crypto3/algebra/curves/forms.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp>

namespace vcurve {
    typedef unsigned long long u64;
    namespace algebra = nil::crypto3::algebra;
    namespace curves = algebra::curves;
    typedef curves::forms forms;
    namespace coords = curves::coordinates;

    struct pt {
        u64 x, y;
        bool inf;
        bool operator==(const pt &o) const {
            return inf == o.inf && (inf || (x == o.x && y == o.y));
        }
        bool operator<(const pt &o) const {
            return std::make_tuple(inf, x, y) < std::make_tuple(o.inf, o.x, o.y);
        }
    };
    __attribute__((noinline)) inline std::string show(const pt &q) {
        return q.inf ? "O" : vf::cat(q.x, q.y);
    }
    enum kind { weierstrass, edwards, montgomery };
    // kind weierstrass: y^2 = x^3+ax+b; edwards: ax^2+y^2 = 1+bx^2y^2 (neutral element (0,1)); montgomery: by^2 = x^3+ax^2+x
    struct model {
        kind k;
        u64 p, a, b;
        u64 inv(u64 x) const {
            return vfield::mpow(x, p - 2, p);
        }
        u64 m(u64 x, u64 y) const {
            return x * y % p;
        }
        u64 neg1(u64 x) const {
            return (p - x % p) % p;
        }
        bool on(u64 x, u64 y) const {
            u64 xx = m(x, x), yy = m(y, y);
            return k == weierstrass ? yy == (m(xx, x) + m(a, x) + b) % p :
                   k == edwards     ? (m(a, xx) + yy) % p == (1 + m(b, m(xx, yy))) % p :
                                      m(b, yy) == (m(xx, x) + m(a, xx) + x) % p;
        }
        pt zero() const {
            return k == edwards ? pt {0, 1, true} : pt {0, 0, true};
        }
        std::vector<pt> points() const {
            std::vector<pt> r {zero()};
            for (u64 x = 0; x < p; ++x) {
                for (u64 y = 0; y < p; ++y) {
                    if (on(x, y) && !(k == edwards && x == 0 && y == 1)) {
                        r.push_back({x, y, false});
                    }
                }
            }
            return r;
        }
        pt neg(const pt &q) const {
            return q.inf ? q : k == edwards ? pt {neg1(q.x), q.y, false} : pt {q.x, neg1(q.y), false};
        }
        pt add(const pt &q, const pt &r) const {
            if (q.inf) {
                return r;
            }
            if (r.inf) {
                return q;
            }
            if (k == edwards) {
                u64 l = m(b, m(m(q.x, r.x), m(q.y, r.y)));
                u64 x = m((m(q.x, r.y) + m(q.y, r.x)) % p, inv((1 + l) % p));
                u64 y = m((m(q.y, r.y) + neg1(m(a, m(q.x, r.x)))) % p, inv((1 + neg1(l)) % p));
                return x == 0 && y == 1 ? zero() : pt {x, y, false};
            }
            u64 l;
            if (q.x == r.x) {
                if (q.y != r.y || q.y == 0) {
                    return zero();
                }
                l = k == weierstrass ? m((3 * m(q.x, q.x) + a) % p, inv(m(2, q.y))) :
                                       m((3 * m(q.x, q.x) + 2 * m(a, q.x) + 1) % p, inv(m(m(2, b), q.y)));
            } else {
                l = m((r.y + neg1(q.y)) % p, inv((r.x + neg1(q.x)) % p));
            }
            u64 ll = k == weierstrass ? m(l, l) : (m(b, m(l, l)) + neg1(a)) % p;
            u64 x = (ll + neg1(q.x) + neg1(r.x)) % p;
            return {x, (m(l, (q.x + neg1(x)) % p) + neg1(q.y)) % p, false};
        }
        pt mul(pt q, u64 n) const {
            pt r = zero();
            for (; n; n >>= 1) {
                if (n & 1) {
                    r = add(r, q);
                }
                q = add(q, q);
            }
            return r;
        }
        u64 order(const pt &q) const {
            u64 n = 1;
            for (pt r = q; !r.inf; r = add(r, q)) {
                ++n;
            }
            return n;
        }
        // the subgroup of points of odd order
        std::vector<pt> odd_points() const {
            std::vector<pt> r;
            for (const pt &q : points()) {
                if (order(q) % 2) {
                    r.push_back(q);
                }
            }
            return r;
        }
    };

    template<class Params, class Form, class Coordinates>
    struct tiny_group {
        typedef Params params_type;
        typedef typename Params::curve_type curve_type;
        typedef typename Params::field_type field_type;
        constexpr static const std::size_t value_bits = field_type::value_bits + 1;
        typedef curves::detail::curve_element<Params, Form, Coordinates> value_type;
    };
    // (wide enough for scalars past the order)
    typedef vfield::small_field<(1ull << 61) - 1>::integral_type wide;
    template<class Params>
    struct tiny_sw_curve {
        constexpr static const wide q = wide(Params::order);
        typedef typename Params::base_field_type base_field_type;
        typedef typename Params::scalar_field_type scalar_field_type;
        template<class Coordinates = coords::jacobian, class Form = forms::short_weierstrass>
        using g1_type = tiny_group<Params, Form, Coordinates>;
    };
    // y^2 = x^3+Ax+B over F_P, base point (GX,GY) of order R; the affine point at infinity is written (0,ZY)
    template<u64 P, u64 A, u64 B, u64 GX, u64 GY, u64 R, unsigned ZY = 1>
    struct sw {
        typedef vfield::small_field<P> field_type;
        typedef field_type base_field_type;
        typedef vfield::small_field<R> scalar_field_type;
        typedef tiny_sw_curve<sw> curve_type;
        typedef typename field_type::integral_type integral_type;
        typedef typename field_type::value_type value;
        template<class Coordinates>
        using group_type = tiny_group<sw, forms::short_weierstrass, Coordinates>;
        constexpr static const integral_type a = integral_type(A);
        constexpr static const integral_type b = integral_type(B);
        constexpr static const std::array<value, 2> zero_fill = {value::zero(), value(ZY)};
        constexpr static const std::array<value, 2> one_fill = {value(GX), value(GY)};
        static model naive() {
            return {weierstrass, P, A, B};
        }
        static pt generator() {
            return {GX, GY, false};
        }
        constexpr static const u64 order = R;
    };

    template<u64 P, u64 A, u64 D, u64 GX, u64 GY, u64 R, u64 MB, u64 MGX, u64 MGY>
    struct te_curve;
    // Ax^2+y^2 = 1+Dx^2y^2 over F_P, base point (GX,GY) of order R
    template<u64 P, u64 A, u64 D, u64 GX, u64 GY, u64 R, u64 MB, u64 MGX, u64 MGY>
    struct te {
        typedef vfield::small_field<P> field_type;
        typedef field_type base_field_type;
        typedef vfield::small_field<R> scalar_field_type;
        typedef te_curve<P, A, D, GX, GY, R, MB, MGX, MGY> curve_type;
        typedef typename field_type::integral_type integral_type;
        typedef typename field_type::value_type value;
        template<class Coordinates>
        using group_type = tiny_group<te, forms::twisted_edwards, Coordinates>;
        constexpr static const integral_type a = integral_type(A);
        constexpr static const integral_type d = integral_type(D);
        constexpr static const std::array<value, 2> zero_fill = {value::zero(), value::one()};
        constexpr static const std::array<value, 2> one_fill = {value(GX), value(GY)};
        static model naive() {
            return {edwards, P, A, D};
        }
        static pt generator() {
            return {GX, GY, false};
        }
        constexpr static const u64 order = R;
    };
    // the same curve with the library's other spelling of the affine identity, (0,0)
    template<class T>
    struct te_zero00 : T {
        template<class Coordinates>
        using group_type = tiny_group<te_zero00, forms::twisted_edwards, Coordinates>;
        constexpr static const std::array<typename T::value, 2> zero_fill = {T::value::zero(), T::value::zero()};
    };
    // MB y^2 = x^3 + MA x^2 + x with MA = 2(A+D)/(A-D), birationally equivalent to te
    template<u64 P, u64 A, u64 D, u64 GX, u64 GY, u64 R, u64 MB, u64 MGX, u64 MGY>
    struct mont {
        typedef vfield::small_field<P> field_type;
        typedef field_type base_field_type;
        typedef vfield::small_field<R> scalar_field_type;
        typedef te_curve<P, A, D, GX, GY, R, MB, MGX, MGY> curve_type;
        typedef typename field_type::integral_type integral_type;
        typedef typename field_type::value_type value;
        template<class Coordinates>
        using group_type = tiny_group<mont, forms::montgomery, Coordinates>;
        constexpr static const u64 MA = 2 * (A + D) % P * vfield::mpow((A + P - D) % P, P - 2, P) % P;
        constexpr static const integral_type A_() {
            return integral_type(MA);
        }
        constexpr static const integral_type B = integral_type(MB);
        constexpr static const std::array<value, 2> one_fill = {value(MGX), value(MGY)};
        static model naive() {
            return {montgomery, P, MA, MB};
        }
        static pt generator() {
            return {MGX, MGY, false};
        }
        constexpr static const u64 order = R;
    };
    // (the member the library reads is called A, like the template parameter above)
    template<class M>
    struct mont_params : M {
        constexpr static const typename M::integral_type A = M::A_();
        template<class Coordinates>
        using group_type = tiny_group<mont_params, forms::montgomery, Coordinates>;
    };
    template<u64 P, u64 A, u64 D, u64 GX, u64 GY, u64 R, u64 MB, u64 MGX, u64 MGY>
    struct te_curve {
        typedef te<P, A, D, GX, GY, R, MB, MGX, MGY> edwards_params;
        typedef mont_params<mont<P, A, D, GX, GY, R, MB, MGX, MGY>> montgomery_params;
        typedef vfield::small_field<P> base_field_type;
        typedef vfield::small_field<R> scalar_field_type;
        constexpr static const wide q = wide(R);
        template<class Coordinates = coords::affine, class Form = forms::twisted_edwards>
        using g1_type = tiny_group<std::conditional_t<std::is_same<Form, forms::montgomery>::value, montgomery_params, edwards_params>, Form, Coordinates>;
    };

    // ---- representations: build the r-th representation of a point, and read a point back ----
    template<class V>
    struct rep;
    template<class Params>
    using el_t = typename Params::field_type::value_type;

    // X = x z^i, Y = y z^j
    template<class V, unsigned I, unsigned J>
    struct weighted_rep {
        static V make(const model &M, const pt &q, u64 z) {
            typedef typename V::field_type::value_type E;
            if (q.inf) {
                // z^i:z^j:0 is the point at infinity (Y^2 Z.. = X^3 forces X = 0 in plain projective coordinates)
                return z == 0 ? V() : I == 2 ? V(E(M.m(z, z)), E(M.m(M.m(z, z), z)), E::zero()) : V(E::zero(), E(z), E::zero());
            }
            u64 zi = I == 2 ? M.m(z, z) : z, zj = J == 3 ? M.m(M.m(z, z), z) : z;
            return V(E(M.m(q.x, zi)), E(M.m(q.y, zj)), E(z));
        }
        static pt read(const model &M, const V &v) {
            u64 X = vfield::canon(v.X), Y = vfield::canon(v.Y), Z = vfield::canon(v.Z);
            if (Z == 0) {
                return M.zero();
            }
            u64 i = M.inv(Z), ii = I == 2 ? M.m(i, i) : i, ij = J == 3 ? M.m(M.m(i, i), i) : i;
            return {M.m(X, ii), M.m(Y, ij), false};
        }
        static bool unit_z(const V &v) {
            return vfield::canon(v.Z) == 1;
        }
        constexpr static bool scaled = true, mixed = true;
    };
    template<class P>
    struct rep<curves::detail::curve_element<P, forms::short_weierstrass, coords::jacobian>>
        : weighted_rep<curves::detail::curve_element<P, forms::short_weierstrass, coords::jacobian>, 2, 3> {};
    template<class P>
    struct rep<curves::detail::curve_element<P, forms::short_weierstrass, coords::jacobian_with_a4_0>>
        : weighted_rep<curves::detail::curve_element<P, forms::short_weierstrass, coords::jacobian_with_a4_0>, 2, 3> {};
    template<class P>
    struct rep<curves::detail::curve_element<P, forms::short_weierstrass, coords::jacobian_with_a4_minus_3>>
        : weighted_rep<curves::detail::curve_element<P, forms::short_weierstrass, coords::jacobian_with_a4_minus_3>, 2, 3> {};
    template<class P>
    struct rep<curves::detail::curve_element<P, forms::short_weierstrass, coords::projective>>
        : weighted_rep<curves::detail::curve_element<P, forms::short_weierstrass, coords::projective>, 1, 1> {};
    template<class P>
    struct rep<curves::detail::curve_element<P, forms::short_weierstrass, coords::projective_with_a4_minus_3>>
        : weighted_rep<curves::detail::curve_element<P, forms::short_weierstrass, coords::projective_with_a4_minus_3>, 1, 1> {};
    // plain affine
    template<class V>
    struct affine_rep {
        static V make(const model &, const pt &q, u64) {
            typedef typename V::field_type::value_type E;
            return q.inf ? V() : V(E(q.x), E(q.y));
        }
        static pt read(const model &M, const V &v) {
            return v.is_zero() ? M.zero() : pt {vfield::canon(v.X), vfield::canon(v.Y), false};
        }
        static bool unit_z(const V &) {
            return true;
        }
        constexpr static bool scaled = false, mixed = false;
    };
    template<class P, class F>
    struct rep<curves::detail::curve_element<P, F, coords::affine>> : affine_rep<curves::detail::curve_element<P, F, coords::affine>> {};
    template<class P>
    struct rep<curves::detail::curve_element<P, forms::twisted_edwards, coords::extended_with_a_minus_1>> {
        typedef curves::detail::curve_element<P, forms::twisted_edwards, coords::extended_with_a_minus_1> V;
        static V make(const model &M, const pt &q, u64 z) {
            typedef typename V::field_type::value_type E;
            if (q.inf) {
                return z == 0 ? V() : V(E::zero(), E(z), E::zero(), E(z));
            }
            return V(E(M.m(q.x, z)), E(M.m(q.y, z)), E(M.m(M.m(q.x, q.y), z)), E(z));
        }
        static pt read(const model &M, const V &v) {
            u64 i = M.inv(vfield::canon(v.Z)), x = M.m(vfield::canon(v.X), i), y = M.m(vfield::canon(v.Y), i), t = M.m(vfield::canon(v.T), i);
            if (i == 0 || t != M.m(x, y)) {
                return {999999, t, false};    // not a point at all
            }
            return x == 0 && y == 1 ? M.zero() : pt {x, y, false};
        }
        static bool unit_z(const V &v) {
            return vfield::canon(v.Z) == 1;
        }
        constexpr static bool scaled = true, mixed = true;
    };
    template<class V>
    struct inverted_rep {
        static V make(const model &M, const pt &q, u64 z) {
            typedef typename V::field_type::value_type E;
            if (q.inf) {
                return z == 0 ? V() : V(E(z), E::zero(), E::zero());
            }
            return V(E(M.m(z, M.inv(q.x))), E(M.m(z, M.inv(q.y))), E(z));
        }
        static pt read(const model &M, const V &v) {
            u64 X = vfield::canon(v.X), Y = vfield::canon(v.Y), Z = vfield::canon(v.Z);
            if (Y == 0 && Z == 0) {
                return M.zero();
            }
            if (X == 0 || Y == 0 || Z == 0) {
                return {999999, 0, false};
            }
            return {M.m(Z, M.inv(X)), M.m(Z, M.inv(Y)), false};
        }
        static bool unit_z(const V &v) {
            return vfield::canon(v.Z) == 1;
        }
        constexpr static bool scaled = true, mixed = true;
    };

    template<class P>
    struct rep<curves::detail::curve_element<P, forms::twisted_edwards, coords::inverted>>
        : inverted_rep<curves::detail::curve_element<P, forms::twisted_edwards, coords::inverted>> {};

    // ---- verdicts ----
    inline std::string what;
    inline u64 what_hash;
    inline void under_test(const std::string &s) {
        what = s;
        what_hash = vf::hash(s);
        vf::at(s);
    }
    __attribute__((noinline)) inline void judge(const char *op, const pt &a, const pt &b, u64 extra, const pt &got, const pt &want) {
        vf::check(got == want, op, vf::key(what_hash, a.inf ? ~0ull : a.x * 65536 + a.y, b.inf ? ~0ull : b.x * 65536 + b.y, extra), !a.inf,
                  [&] { return vf::cat(what, op, "of (", show(a), ") and (", show(b), ") [", extra, "] gave", show(got), "expected", show(want)); });
    }
    __attribute__((noinline)) inline void judge_flag(const char *op, const pt &a, const pt &b, u64 extra, bool got, bool want) {
        judge(op, a, b, extra, {got, 0, false}, {want, 0, false});
    }
}    // namespace vcurve
#endif
