// C12/C13: the group law of the curve_element classes over tiny curves, against naive affine arithmetic.
//   PART 0-2: short Weierstrass   PART 3-4: twisted Edwards and Montgomery   PART 5: plain Edwards
#include "small_curves.hpp"
#if PART == 5
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp>
#endif
using namespace vcurve;
using curves::detail::curve_element;

template<class V, class = void>
struct can_mix : std::false_type {};
template<class V>
struct can_mix<V, std::void_t<decltype(std::declval<V &>().mixed_add(std::declval<const V &>()))>> : std::true_type {};
template<class V, class = void>
struct can_sub_assign : std::false_type {};
template<class V>
struct can_sub_assign<V, std::void_t<decltype(std::declval<V &>() -= std::declval<const V &>())>> : std::true_type {};

// all operators on one pair of representations
template<class V>
static void pair(const model &M, const pt &p, const V &P, const pt &q, const V &Q, u64 extra) {
    typedef rep<V> R;
    const pt sum = M.add(p, q), dif = M.add(p, M.neg(q));
    judge("add", p, q, extra, R::read(M, P + Q), sum);
    judge("sub", p, q, extra, R::read(M, P - Q), dif);
    V t = P;
    const void *r = &(t += Q);
    judge("add_assign", p, q, extra, R::read(M, t), sum);
    judge_flag("add_assign_ref", p, q, extra, r == &t, true);
    if constexpr (can_sub_assign<V>::value) {
        V u = P;
        r = &(u -= Q);
        judge("sub_assign", p, q, extra, R::read(M, u), dif);
        judge_flag("sub_assign_ref", p, q, extra, r == &u, true);
        V w = Q;
        w -= w;
        judge("sub_assign_self", q, q, extra, R::read(M, w), M.zero());
    }
    judge_flag("eq", p, q, extra, P == Q, p == q);
    judge_flag("ne", p, q, extra, P != Q, !(p == q));
    // results of operations are operands too (they come in representations of their own)
    judge("add_result", sum, q, extra, R::read(M, t + Q), M.add(sum, q));
    judge("result_sub", sum, q, extra, R::read(M, t - Q), p);
    judge("result_plus_itself", sum, sum, extra, R::read(M, t + t), M.add(sum, sum));
    V d = t;
    d.double_inplace();
    judge("result_doubled", sum, sum, extra, R::read(M, d), M.add(sum, sum));
    judge_flag("result_is_zero", sum, q, extra, t.is_zero(), sum.inf);
    judge_flag("result_eq", sum, q, extra, t - Q == P, true);
    if constexpr (can_mix<V>::value) {
        if (R::unit_z(Q) || q.inf) {
            V m = P;
            m.mixed_add(Q);
            judge("mixed_add", p, q, extra, R::read(M, m), sum);
            m.mixed_add(Q);
            judge("mixed_add_again", sum, q, extra, R::read(M, m), M.add(sum, q));
        }
    }
    judge("operand_kept", p, q, extra, R::read(M, P), p);
    judge("operand_kept", q, p, extra, R::read(M, Q), q);
}
template<class V>
static void single(const model &M, const pt &p, const V &P, u64 extra) {
    typedef rep<V> R;
    judge("make", p, p, extra, R::read(M, P), p);
    judge("neg", p, p, extra, R::read(M, -P), M.neg(p));
    judge("neg_neg", p, p, extra, R::read(M, -(-P)), p);
    judge("minus_itself", p, p, extra, R::read(M, P - P), M.zero());
    judge("plus_neg", p, p, extra, R::read(M, P + (-P)), M.zero());
    judge("plus_itself", p, p, extra, R::read(M, P + P), M.add(p, p));
    V t = P;
    t += t;
    judge("add_assign_itself", p, p, extra, R::read(M, t), M.add(p, p));
    t = P;
    t.double_inplace();
    judge("double", p, p, extra, R::read(M, t), M.add(p, p));
    t.double_inplace();
    judge("double_twice", p, p, extra, R::read(M, t), M.mul(p, 4));
    t = P;
    t = *&t;
    judge("assign_itself", p, p, extra, R::read(M, t), p);
    V c(P);
    judge("copy", p, p, extra, R::read(M, c), p);
    judge_flag("is_zero", p, p, extra, P.is_zero(), p.inf);
    judge("zero_plus", p, p, extra, R::read(M, V::zero() + P), p);
    judge("plus_zero", p, p, extra, R::read(M, P + V::zero()), p);
    if constexpr (can_mix<V>::value) {
        if (R::unit_z(P)) {
            V m = P;
            m.mixed_add(m);
            judge("mixed_add_itself", p, p, extra, R::read(M, m), M.add(p, p));
        }
        V m = P;
        m.mixed_add(V::zero());
        judge("mixed_add_zero", p, p, extra, R::read(M, m), p);
    }
    judge("operand_kept", p, p, extra, R::read(M, P), p);
}

template<class V>
static void group_law(const std::string &name, const model &M, const pt &gen, const std::vector<pt> &pts) {
    typedef rep<V> R;
    under_test(name);
    vf::rng g(vf::seed() * 17 + vf::hash(name));
    judge("zero", M.zero(), M.zero(), 0, R::read(M, V::zero()), M.zero());
    judge("default", M.zero(), M.zero(), 0, R::read(M, V()), M.zero());
    judge("one", gen, gen, 0, R::read(M, V::one()), gen);
    const u64 zs = R::scaled ? M.p : 2;    // z = 0 stands for the library's own point at infinity
    const bool all = M.p <= 7 || vf::thorough();
    for (const pt &p : pts) {
        vf::at(name + " " + show(p));
        vf::arm(20);
        for (u64 z = p.inf ? 0 : 1; z < zs; ++z) {
            single<V>(M, p, R::make(M, p, z), z);
        }
        for (const pt &q : pts) {
            vf::at(name + " " + show(p) + " and " + show(q));
            if (all && R::scaled) {
                for (u64 z = p.inf ? 0 : 1; z < zs; ++z) {
                    for (u64 w = q.inf ? 0 : 1; w < zs; ++w) {
                        pair<V>(M, p, R::make(M, p, z), q, R::make(M, q, w), z * 1000 + w);
                    }
                }
            } else {
                const u64 lp = p.inf ? 0 : 1, lq = q.inf ? 0 : 1;
                pair<V>(M, p, R::make(M, p, lp), q, R::make(M, q, lq), lp * 1000 + lq);
                if (R::scaled) {
                    u64 z = 1 + g.below(M.p - 1), w = 1 + g.below(M.p - 1);
                    pair<V>(M, p, R::make(M, p, z), q, R::make(M, q, 1), z * 1000 + 1);
                    pair<V>(M, p, R::make(M, p, z), q, R::make(M, q, w), z * 1000 + w);
                }
            }
        }
    }
    // long histories: every step works on the representation the previous one produced
    for (std::size_t w = 0; w < vf::n(20, 400); ++w) {
        pt a = pts[g.below(pts.size())];
        V A = R::make(M, a, a.inf ? 0 : 1 + g.below(zs - 1));
        std::string trail = show(a);
        for (int s = 0; s < 40; ++s) {
            const pt b = pts[g.below(pts.size())];
            const V B = R::make(M, b, b.inf ? g.below(zs) : 1 + g.below(zs - 1)), B1 = R::make(M, b, b.inf ? 0 : 1);
            const pt before = a;
            const char *op = "";
            switch (g.below(7)) {
                case 0: A += B; a = M.add(a, b); op = "+="; break;
                case 1: A = A - B; a = M.add(a, M.neg(b)); op = "-"; break;
                case 2: A.double_inplace(); a = M.add(a, a); op = "dbl"; break;
                case 3: A = -A; a = M.neg(a); op = "neg"; break;
                case 4: A = B + A; a = M.add(a, b); op = "+"; break;
                case 5: A += A; a = M.add(a, a); op = "+=self"; break;
                case 6:
                    if constexpr (can_mix<V>::value) {
                        A.mixed_add(B1);
                        a = M.add(a, b);
                        op = "mixed";
                    }
                    break;
            }
            trail += vf::cat("", op, show(b));
            const pt got = R::read(M, A);
            vf::check(got == a, "history", vf::key(what_hash, w, s), true, [&] { return vf::cat(name, trail, "gave", show(got), "expected", show(a)); });
            if (!(got == a)) {
                break;
            }
        }
    }
    vf::arm(0);
    vf::count("curve_points", pts.size());
    vf::sample(vf::cat(name, "group of", pts.size(), "points, generator", show(gen)));
}

template<class Params, class Coordinates>
static void weierstrass_curve(const char *name) {
    const model M = Params::naive();
    group_law<curve_element<Params, forms::short_weierstrass, Coordinates>>(name, M, Params::generator(), M.points());
}

template<class Params, class Coordinates>
static void edwards_curve(const char *name, bool odd) {
    const model M = Params::naive();
    group_law<curve_element<Params, forms::twisted_edwards, Coordinates>>(name, M, Params::generator(), odd ? M.odd_points() : M.points());
}
#if PART == 5
// x^2+y^2 = C^2 (1+D x^2y^2), isomorphic to x^2+y^2 = 1+C^4 D x^2y^2 by (x,y) -> (x/C, y/C)
template<u64 P, u64 C, u64 D, u64 GX, u64 GY, u64 R>
struct ed {
    constexpr static const u64 prime = P;
    typedef vfield::small_field<P> field_type;
    typedef field_type base_field_type;
    typedef vfield::small_field<R> scalar_field_type;
    typedef typename field_type::integral_type integral_type;
    typedef typename field_type::value_type value;
    struct curve_type {
        typedef vfield::small_field<R> scalar_field_type;
    };
    typedef ed affine_params;
    typedef tiny_group<ed, forms::edwards, coords::inverted> group_type;
    constexpr static const integral_type a = integral_type(1u);
    constexpr static const integral_type c = integral_type(C);
    constexpr static const integral_type d = integral_type(D);
    constexpr static const std::array<value, 3> zero_fill = {value::one(), value::zero(), value::zero()};
    constexpr static const std::array<value, 3> one_fill = {value(vfield::mpow(GX, P - 2, P)), value(vfield::mpow(GY, P - 2, P)), value::one()};
    static model naive() {
        return {edwards, P, 1, D};
    }
    static pt generator() {
        return {GX, GY, false};
    }
};
namespace vcurve {
    template<class P>
    struct rep<curve_element<P, forms::edwards, coords::inverted>> : inverted_rep<curve_element<P, forms::edwards, coords::inverted>> {};
}
template<class Params>
static void plain_edwards(const char *name) {
    const model M = Params::naive();
    typedef curve_element<Params, forms::edwards, coords::inverted> V;
    group_law<V>(name, M, Params::generator(), M.odd_points());
    for (const pt &p : M.odd_points()) {
        for (u64 z = p.inf ? 0 : 1; z < M.p; ++z) {
            auto A = rep<V>::make(M, p, z).to_affine();
            judge("to_affine", p, p, z, A.is_zero() ? M.zero() : pt {vfield::canon(A.X), vfield::canon(A.Y), false}, p);
            judge_flag("is_well_formed", p, p, z, rep<V>::make(M, p, z).is_well_formed(), true);
        }
    }
}
// the formula structs themselves, with a c that is not 1
template<class Params>
struct bare {
    typedef Params params_type;
    typedef typename Params::field_type field_type;
    typename field_type::value_type X, Y, Z;
    bool is_zero() const {
        return Y.is_zero() && Z.is_zero();
    }
};
template<class Params>
static void scaled_formulas(const char *name) {
    typedef typename Params::field_type::value_type E;
    const u64 p = u64(Params::prime), c = vfield::canon(E(Params::c)), ic = vfield::mpow(c, p - 2, p);
    const u64 c4 = vfield::mpow(c, 4, p);
    const model M {edwards, p, 1, c4 * vfield::canon(E(Params::d)) % p};
    under_test(name);
    auto make = [&](const pt &q, u64 z) {
        return bare<Params> {E(M.m(z, M.inv(M.m(q.x, c)))), E(M.m(z, M.inv(M.m(q.y, c)))), E(z)};
    };
    auto read = [&](const bare<Params> &v) {
        u64 X = vfield::canon(v.X), Y = vfield::canon(v.Y), Z = vfield::canon(v.Z);
        return X && Y && Z ? pt {M.m(M.m(Z, M.inv(X)), ic), M.m(M.m(Z, M.inv(Y)), ic), false} : pt {999999, 0, false};
    };
    std::vector<pt> pts = M.points();
    for (const pt &a : pts) {
        for (const pt &b : pts) {
            const pt s = M.add(a, b);
            if (a.x == 0 || a.y == 0 || b.x == 0 || b.y == 0 || s.x == 0 || s.y == 0) {
                continue;    // not expressible
            }
            for (u64 z = 1; z < p; z += 1 + p / 9) {
                for (u64 w = 1; w < p; w += 1 + p / 7) {
                    bare<Params> A = make(a, z), B = make(b, w);
                    if (a == b) {
                        curves::detail::edwards_element_g1_inverted_dbl_2007_bl::process(A);
                        judge("dbl", a, a, z, read(A), s);
                        continue;
                    }
                    const pt dif = M.add(a, M.neg(b));
                    if (dif.x == 0 || dif.y == 0) {
                        continue;    // differing by a point of order 2 or 4: outside the formula
                    }
                    curves::detail::edwards_element_g1_inverted_add_2007_bl::process(A, B);
                    judge("add", a, b, z * 1000 + w, read(A), s);
                    A = make(a, z);
                    curves::detail::edwards_element_g1_inverted_madd_2007_bl::process(A, make(b, 1));
                    judge("madd", a, b, z, read(A), s);
                }
            }
        }
    }
}
#endif
template<class Curve>
static void montgomery_curve(const char *name) {
    typedef typename Curve::montgomery_params Params;
    const model M = Params::naive();
    group_law<curve_element<Params, forms::montgomery, coords::affine>>(name, M, Params::generator(), M.points());
}

VF_MAIN("c12_curves") {
#if PART == 0
    typedef coords::jacobian jac;
    weierstrass_curve<sw<7, 1, 6, 1, 1, 11>, jac>("jacobian y^2=x^3+x+6 mod 7");
    weierstrass_curve<sw<13, 1, 2, 12, 0, 2, 0>, jac>("jacobian y^2=x^3+x+2 mod 13");
    weierstrass_curve<sw<31, 1, 3, 1, 6, 41>, jac>("jacobian y^2=x^3+x+3 mod 31");
    typedef coords::jacobian_with_a4_0 jac0;
    weierstrass_curve<sw<7, 0, 3, 1, 2, 13>, jac0>("jacobian_with_a4_0 y^2=x^3+3 mod 7");
    weierstrass_curve<sw<13, 0, 5, 12, 11, 2, 0>, jac0>("jacobian_with_a4_0 y^2=x^3+5 mod 13");
    weierstrass_curve<sw<31, 0, 3, 1, 2, 43>, jac0>("jacobian_with_a4_0 y^2=x^3+3 mod 31");
#elif PART == 1
    typedef coords::jacobian_with_a4_minus_3 jac3;
    weierstrass_curve<sw<7, 4, 6, 1, 2, 11>, jac3>("jacobian_with_a4_minus_3 y^2=x^3-3x+6 mod 7");
    weierstrass_curve<sw<13, 10, 3, 11, 12, 2, 0>, jac3>("jacobian_with_a4_minus_3 y^2=x^3-3x+3 mod 13");
    weierstrass_curve<sw<31, 28, 6, 1, 2, 41>, jac3>("jacobian_with_a4_minus_3 y^2=x^3-3x+6 mod 31");
    typedef coords::projective_with_a4_minus_3 pro3;
    weierstrass_curve<sw<7, 4, 6, 1, 2, 11>, pro3>("projective_with_a4_minus_3 y^2=x^3-3x+6 mod 7");
    weierstrass_curve<sw<13, 10, 3, 11, 12, 2, 0>, pro3>("projective_with_a4_minus_3 y^2=x^3-3x+3 mod 13");
    weierstrass_curve<sw<31, 28, 6, 1, 2, 41>, pro3>("projective_with_a4_minus_3 y^2=x^3-3x+6 mod 31");
#elif PART == 2
    typedef coords::projective pro;
    weierstrass_curve<sw<7, 1, 6, 1, 1, 11>, pro>("projective y^2=x^3+x+6 mod 7");
    weierstrass_curve<sw<13, 1, 2, 12, 0, 2, 0>, pro>("projective y^2=x^3+x+2 mod 13");
    weierstrass_curve<sw<31, 1, 3, 1, 6, 41>, pro>("projective y^2=x^3+x+3 mod 31");
    weierstrass_curve<sw<7, 1, 6, 1, 1, 11>, coords::affine>("affine y^2=x^3+x+6 mod 7");
    weierstrass_curve<sw<13, 1, 2, 12, 0, 2, 0>, coords::affine>("affine y^2=x^3+x+2 mod 13");
    weierstrass_curve<sw<31, 0, 3, 1, 2, 43>, coords::affine>("affine y^2=x^3+3 mod 31");
#elif PART == 3
    typedef coords::extended_with_a_minus_1 ext;
    edwards_curve<te<13, 12, 6, 3, 9, 5, 5, 2, 5>, ext>("extended -x^2+y^2=1+6x^2y^2 mod 13", false);
    edwards_curve<te<29, 28, 2, 2, 22, 7, 14, 21, 27>, ext>("extended -x^2+y^2=1+2x^2y^2 mod 29", false);
    edwards_curve<te<37, 36, 2, 8, 10, 5, 25, 7, 8>, ext>("extended -x^2+y^2=1+2x^2y^2 mod 37", false);
    edwards_curve<te_zero00<te<13, 12, 6, 3, 9, 5, 5, 2, 5>>, ext>("extended -x^2+y^2=1+6x^2y^2 mod 13, zero (0,0)", false);
    edwards_curve<te_zero00<te<29, 28, 2, 2, 22, 7, 14, 21, 27>>, coords::affine>("affine -x^2+y^2=1+2x^2y^2 mod 29, zero (0,0)", false);
    edwards_curve<te<37, 1, 6, 7, 13, 7, 14, 5, 6>, coords::affine>("affine x^2+y^2=1+6x^2y^2 mod 37", false);
    edwards_curve<te<37, 10, 2, 1, 3, 11, 2, 35, 36>, coords::affine>("affine 10x^2+y^2=1+2x^2y^2 mod 37", false);
    edwards_curve<te<29, 28, 2, 2, 22, 7, 14, 21, 27>, coords::affine>("affine -x^2+y^2=1+2x^2y^2 mod 29", false);
#elif PART == 4
    typedef coords::inverted inv;
    edwards_curve<te<19, 1, 8, 2, 9, 7, 13, 13, 16>, inv>("inverted x^2+y^2=1+8x^2y^2 mod 19", true);
    edwards_curve<te<31, 1, 3, 5, 8, 9, 23, 12, 26>, inv>("inverted x^2+y^2=1+3x^2y^2 mod 31", true);
    edwards_curve<te_zero00<te<19, 1, 8, 2, 9, 7, 13, 13, 16>>, inv>("inverted x^2+y^2=1+8x^2y^2 mod 19, zero (0,0)", true);
    edwards_curve<te<37, 10, 2, 1, 3, 11, 2, 35, 36>, inv>("inverted 10x^2+y^2=1+2x^2y^2 mod 37", true);
    edwards_curve<te<23, 2, 5, 2, 2, 7, 14, 20, 10>, inv>("inverted 2x^2+y^2=1+5x^2y^2 mod 23", true);
    montgomery_curve<te_curve<37, 1, 6, 7, 13, 7, 14, 5, 6>>("montgomery affine mod 37");
    montgomery_curve<te_curve<31, 1, 3, 5, 8, 9, 23, 12, 26>>("montgomery affine mod 31");
    montgomery_curve<te_curve<29, 28, 2, 2, 22, 7, 14, 21, 27>>("montgomery affine mod 29");
#elif PART == 5
    plain_edwards<ed<19, 1, 8, 2, 9, 7>>("plain edwards inverted x^2+y^2=1+8x^2y^2 mod 19");
    plain_edwards<ed<31, 1, 3, 5, 8, 9>>("plain edwards inverted x^2+y^2=1+3x^2y^2 mod 31");
    scaled_formulas<ed<31, 1, 3, 5, 8, 9>>("edwards inverted formulas mod 31, c=1");
    scaled_formulas<ed<31, 5, 3, 5, 8, 9>>("edwards inverted formulas mod 31, c=5");
    scaled_formulas<ed<43, 3, 5, 5, 8, 9>>("edwards inverted formulas mod 43, c=3");
#endif
}
