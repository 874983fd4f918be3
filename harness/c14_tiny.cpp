// C14 (MODE 14) conversions, C15 (MODE 15) equality and validity, C17 (MODE 17) scalar multiplication over tiny curves.
//   PART 0-2: short Weierstrass   PART 3: twisted Edwards and Montgomery
#include "small_curves.hpp"
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#include <nil/crypto3/algebra/curves/detail/subgroup_check.hpp>
using namespace vcurve;
using curves::detail::curve_element;
template<class Params, class F, class C>
using el = curve_element<Params, F, C>;

#define HAS(name, expr)                                                                                                                    \
    template<class V, class = void>                                                                                                        \
    struct name : std::false_type {};                                                                                                      \
    template<class V>                                                                                                                      \
    struct name<V, std::void_t<decltype(expr)>> : std::true_type {};
HAS(has_to_affine, std::declval<const V &>().to_affine())
HAS(has_to_projective, std::declval<const V &>().to_projective())
HAS(has_well_formed, std::declval<const V &>().is_well_formed())

#if MODE == 14
template<class W>
static void landed(const char *op, const model &M, const pt &p, u64 z, const W &w) {
    judge(op, p, p, z, rep<W>::read(M, w), p);
    judge_flag("landed_zero", p, p, z, w.is_zero(), p.inf);
    judge_flag("landed_eq", p, p, z, w == rep<W>::make(M, p, p.inf ? 0 : 1), true);
    // the converted point is a full citizen: it can be operated on
    judge("landed_plus_itself", p, p, z, rep<W>::read(M, w + w), M.add(p, p));
}
template<class V, bool affine_class>
static void conversions(const char *name, const model &M, const std::vector<pt> &pts) {
    typedef rep<V> R;
    typedef typename V::field_type::value_type E;
    under_test(name);
    const u64 zs = R::scaled ? M.p : 2;
    for (const pt &p : pts) {
        for (u64 z = p.inf ? 0 : 1; z < zs; ++z) {
            vf::at(std::string(name) + " converting " + show(p));
            const V P = R::make(M, p, z);
            auto A = P.to_affine();
            landed("to_affine", M, p, z, A);
            if constexpr (std::is_constructible<V, const E &, const E &>::value) {
                if (!p.inf) {
                    judge_flag("constructed_from_affine", p, p, z, V(A.X, A.Y) == P, true);
                }
            }
            if constexpr (has_to_projective<V>::value) {
                auto J = P.to_projective();
                landed("to_projective", M, p, z, J);
                landed("to_projective_to_affine", M, p, z, J.to_affine());
            }
            judge("operand_kept", p, p, z, R::read(M, P), p);
            judge_flag("operand_kept", p, p, z, P == R::make(M, p, z), true);
            // results of arithmetic convert too
            V D = P + P;
            D += P;
            const pt d = M.mul(p, 3);
            landed("sum_to_affine", M, d, z, D.to_affine());
        }
    }
    vf::sample(vf::cat(name, pts.size(), "points"));
}
template<class Params, class C>
static void weierstrass_curve(const char *name) {
    const model M = Params::naive();
    conversions<el<Params, forms::short_weierstrass, C>, false>(name, M, M.points());
}
template<class Params>
static void weierstrass_affine(const char *name) {
    const model M = Params::naive();
    typedef el<Params, forms::short_weierstrass, coords::affine> V;
    under_test(name);
    for (const pt &p : M.points()) {
        auto J = rep<V>::make(M, p, 1).to_projective();
        landed("affine_to_projective", M, p, 1, J);
        landed("affine_to_projective_to_affine", M, p, 1, J.to_affine());
    }
}
template<class Params>
static void edwards_affine(const char *name, bool minus_one) {
    const model M = Params::naive();
    typedef el<Params, forms::twisted_edwards, coords::affine> V;
    typedef typename V::field_type::value_type E;
    under_test(name);
    for (const pt &p : M.points()) {
        const V P = rep<V>::make(M, p, 1);
        landed("to_affine", M, p, 1, P.to_affine());
        if (p.inf || (p.x && p.y)) {
            auto I = P.to_inverted();
            landed("affine_to_inverted", M, p, 1, I);
            landed("affine_to_inverted_to_affine", M, p, 1, I.to_affine());
        }
        if (minus_one) {
            auto X = P.to_extended_with_a_minus_1();
            landed("affine_to_extended", M, p, 1, X);
            landed("affine_to_extended_to_affine", M, p, 1, X.to_affine());
        }
    }
    // every spelling of the neutral element converts to the neutral element
    const V Z = V::zero(), N(E::zero(), E::one());
    judge_flag("zero_spelling", M.zero(), M.zero(), 0, Z.is_zero() && N.is_zero() && Z == N, true);
    for (const V &O : {Z, N}) {
        judge_flag("zero_to_inverted", M.zero(), M.zero(), 0, O.to_inverted().is_zero(), true);
        if (minus_one) {
            judge_flag("zero_to_extended", M.zero(), M.zero(), 0, O.to_extended_with_a_minus_1().is_zero(), true);
        }
    }
}
// the birational maps of a twisted Edwards curve and its Montgomery model
template<class Curve>
static void birational(const char *name) {
    typedef typename Curve::edwards_params EP;
    typedef typename Curve::montgomery_params MP;
    const model ME = EP::naive(), MM = MP::naive();
    typedef el<EP, forms::twisted_edwards, coords::affine> E;
    typedef el<MP, forms::montgomery, coords::affine> G;
    under_test(name);
    const u64 p = ME.p;
    // where the maps are defined: x = 0 only for the neutral element, likewise v = 0
    std::map<pt, pt> to;
    for (const pt &e : ME.points()) {
        if (!e.inf && e.x == 0) {
            continue;
        }
        vf::at(std::string(name) + " mapping " + show(e));
        const E A = rep<E>::make(ME, e, 1);
        const auto B = A.to_montgomery();
        static_assert(std::is_same<std::decay_t<decltype(B)>, G>::value, "group of the other model");
        const pt m = rep<G>::read(MM, B);
        to[e] = m;
        judge_flag("to_montgomery_on_curve", e, m, 0, m.inf || MM.on(m.x, m.y), true);
        judge_flag("to_montgomery_zero", e, m, 0, m.inf, e.inf);
        if (!e.inf) {
            judge_flag("to_montgomery_u", e, m, 0, m.x == ME.m(1 + e.y, ME.inv((1 + p - e.y) % p)), true);
        }
        judge("there_and_back", e, e, 0, rep<E>::read(ME, B.to_twisted_edwards()), e);
        judge_flag("there_and_back_eq", e, e, 0, B.to_twisted_edwards() == A, true);
    }
    std::set<pt> image;
    for (auto &kv : to) {
        image.insert(kv.second);
        for (auto &kw : to) {
            const pt s = ME.add(kv.first, kw.first);
            if (to.count(s)) {
                judge("to_montgomery_homomorphism", kv.first, kw.first, 0, to[s], MM.add(kv.second, kw.second));
            }
        }
    }
    judge_flag("to_montgomery_injective", ME.zero(), ME.zero(), 0, image.size() == to.size(), true);
    std::map<pt, pt> back;
    for (const pt &m : MM.points()) {
        if (!m.inf && (m.y == 0 || m.x == p - 1)) {
            continue;
        }
        const auto A = rep<G>::make(MM, m, 1).to_twisted_edwards();
        static_assert(std::is_same<std::decay_t<decltype(A)>, E>::value, "group of the other model");
        const pt e = rep<E>::read(ME, A);
        back[m] = e;
        judge_flag("to_edwards_on_curve", m, e, 0, ME.on(e.x, e.y), true);
        judge("back_and_there", m, m, 0, rep<G>::read(MM, A.to_montgomery()), m);
    }
    for (auto &kv : back) {
        for (auto &kw : back) {
            const pt s = MM.add(kv.first, kw.first);
            if (back.count(s)) {
                judge("to_edwards_homomorphism", kv.first, kw.first, 0, back[s], ME.add(kv.second, kw.second));
            }
        }
    }
    // the point of order two has x = 0 on one side and v = 0 on the other
    const pt e2 {0, p - 1, false}, m2 {0, 0, false};
    judge("to_montgomery_order_two", e2, m2, 0, rep<G>::read(MM, rep<E>::make(ME, e2, 1).to_montgomery()), m2);
    judge("to_edwards_order_two", m2, e2, 0, rep<E>::read(ME, rep<G>::make(MM, m2, 1).to_twisted_edwards()), e2);
    vf::sample(vf::cat(name, to.size(), "points mapped"));
}
template<class Params, class C>
static void edwards_curve(const char *name, bool odd) {
    const model M = Params::naive();
    conversions<el<Params, forms::twisted_edwards, C>, false>(name, M, odd ? M.odd_points() : M.points());
}
#elif MODE == 15
// every coordinate tuple: what point it is (or none, or not judged)
enum verdict { none, is_point, skip };
template<class V, class = void>
struct tuples;
template<class V, unsigned I, unsigned J>
struct weighted_tuples {
    static verdict classify(const model &M, const u64 *t, pt &p) {
        if (t[0] == 0 && t[1] == 0 && t[2] == 0) {
            return skip;    // not a point of projective space
        }
        if (t[2] == 0) {
            p = M.zero();
            return I == 2 ? is_point : t[0] == 0 ? is_point : none;    // Jacobian: Z = 0 is the identity by the library's convention
        }
        u64 i = M.inv(t[2]), ii = I == 2 ? M.m(i, i) : i, ij = J == 3 ? M.m(M.m(i, i), i) : i;
        p = {M.m(t[0], ii), M.m(t[1], ij), false};
        return M.on(p.x, p.y) ? is_point : none;
    }
    static V make(const u64 *t) {
        typedef typename V::field_type::value_type E;
        return V(E(t[0]), E(t[1]), E(t[2]));
    }
    constexpr static int size = 3;
};
template<class P>
struct tuples<el<P, forms::short_weierstrass, coords::jacobian>> : weighted_tuples<el<P, forms::short_weierstrass, coords::jacobian>, 2, 3> {};
template<class P>
struct tuples<el<P, forms::short_weierstrass, coords::jacobian_with_a4_0>> : weighted_tuples<el<P, forms::short_weierstrass, coords::jacobian_with_a4_0>, 2, 3> {};
template<class P>
struct tuples<el<P, forms::short_weierstrass, coords::jacobian_with_a4_minus_3>>
    : weighted_tuples<el<P, forms::short_weierstrass, coords::jacobian_with_a4_minus_3>, 2, 3> {};
template<class P>
struct tuples<el<P, forms::short_weierstrass, coords::projective>> : weighted_tuples<el<P, forms::short_weierstrass, coords::projective>, 1, 1> {};
template<class P>
struct tuples<el<P, forms::short_weierstrass, coords::projective_with_a4_minus_3>>
    : weighted_tuples<el<P, forms::short_weierstrass, coords::projective_with_a4_minus_3>, 1, 1> {};
template<class P, class F>
struct tuples<el<P, F, coords::affine>> {
    typedef el<P, F, coords::affine> V;
    static verdict classify(const model &M, const u64 *t, pt &p) {
        V v = make(t);
        p = {t[0], t[1], false};
        if (M.k == edwards && t[0] == 0 && t[1] == 1) {
            p = M.zero();
            return is_point;
        }
        if constexpr (std::is_same<F, forms::montgomery>::value) {
        } else if (t[0] == vfield::canon(P::zero_fill[0]) && t[1] == vfield::canon(P::zero_fill[1])) {
            p = M.zero();
            return is_point;    // the spelling this curve chose for the identity
        }
        return M.on(p.x, p.y) ? is_point : none;
    }
    static V make(const u64 *t) {
        typedef typename V::field_type::value_type E;
        return V(E(t[0]), E(t[1]));
    }
    constexpr static int size = 2;
};
template<class P>
struct tuples<el<P, forms::twisted_edwards, coords::extended_with_a_minus_1>> {
    typedef el<P, forms::twisted_edwards, coords::extended_with_a_minus_1> V;
    static verdict classify(const model &M, const u64 *t, pt &p) {
        if (t[3] == 0) {
            return t[0] == 0 && t[1] == 0 ? skip : none;
        }
        u64 i = M.inv(t[3]), x = M.m(t[0], i), y = M.m(t[1], i);
        p = x == 0 && y == 1 ? M.zero() : pt {x, y, false};
        return M.on(x, y) && M.m(x, y) == M.m(t[2], i) ? is_point : none;
    }
    static V make(const u64 *t) {
        typedef typename V::field_type::value_type E;
        return V(E(t[0]), E(t[1]), E(t[2]), E(t[3]));
    }
    constexpr static int size = 4;
};
template<class P>
struct tuples<el<P, forms::twisted_edwards, coords::inverted>> {
    typedef el<P, forms::twisted_edwards, coords::inverted> V;
    static verdict classify(const model &M, const u64 *t, pt &p) {
        if (t[1] == 0 && t[2] == 0) {
            p = M.zero();
            return t[0] ? is_point : skip;
        }
        if (t[0] == 0 || t[1] == 0) {
            return skip;    // at infinity of the affine plane
        }
        p = {M.m(t[2], M.inv(t[0])), M.m(t[2], M.inv(t[1])), false};
        return t[2] && M.on(p.x, p.y) ? is_point : none;
    }
    static V make(const u64 *t) {
        typedef typename V::field_type::value_type E;
        return V(E(t[0]), E(t[1]), E(t[2]));
    }
    constexpr static int size = 3;
};
template<class V>
static void predicates(const char *name, const model &M) {
    typedef tuples<V> T;
    under_test(name);
    vf::rng g(vf::seed() * 19 + vf::hash(name));
    u64 t[4] = {0, 0, 0, 0}, total = 1;
    for (int i = 0; i < T::size; ++i) {
        total *= M.p;
    }
    std::vector<std::pair<pt, V>> all;
    for (u64 n = 0; n < total; ++n) {
        u64 m = n;
        for (int i = 0; i < T::size; ++i, m /= M.p) {
            t[i] = m % M.p;
        }
        pt p {0, 0, false};
        const verdict v = T::classify(M, t, p);
        if (v == skip) {
            continue;
        }
        const V P = T::make(t);
        const pt tup {t[0], t[1], false};
        if constexpr (has_well_formed<V>::value) {
            judge_flag("is_well_formed", tup, tup, t[2] * 1000 + t[3], P.is_well_formed(), v == is_point);
        }
        judge_flag("is_zero", tup, tup, t[2] * 1000 + t[3], P.is_zero(), v == is_point && p.inf);
        if (v == is_point) {
            all.emplace_back(p, P);
        }
    }
    if constexpr (std::is_same<typename V::form, forms::montgomery>::value) {
        all.emplace_back(M.zero(), V());
        judge_flag("is_well_formed", M.zero(), M.zero(), 0, V().is_well_formed(), true);
    }
    judge_flag("zero_is_zero", M.zero(), M.zero(), 0, V::zero().is_zero() && V().is_zero() && V::zero() == V() && !(V::zero() != V()), true);
    judge_flag("one_is_not_zero", M.zero(), M.zero(), 0, !V::one().is_zero() && V::one() != V::zero(), true);
    // equality of every pair of representatives
    const std::size_t stride = 1 + all.size() * all.size() / (vf::thorough() ? 4000000 : 250000);
    for (std::size_t i = 0; i < all.size(); ++i) {
        for (std::size_t j = stride > 1 ? g.below(stride) : 0; j < all.size(); j += stride) {
            judge_flag("eq", all[i].first, all[j].first, i, all[i].second == all[j].second, all[i].first == all[j].first);
            judge_flag("ne", all[i].first, all[j].first, i, all[i].second != all[j].second, !(all[i].first == all[j].first));
        }
        // and against every representative of the same point
        for (std::size_t j = 0; stride > 1 && j < all.size(); ++j) {
            if (all[i].first == all[j].first) {
                judge_flag("eq", all[i].first, all[j].first, i, all[i].second == all[j].second, true);
            }
        }
        judge_flag("zero_eq", all[i].first, all[i].first, i, V::zero() == all[i].second, all[i].first.inf);
        judge_flag("eq_zero", all[i].first, all[i].first, i, all[i].second == V::zero(), all[i].first.inf);
    }
    vf::sample(vf::cat(name, total, "tuples", all.size(), "of them points"));
}
template<class Params, class C>
static void weierstrass_curve(const char *name) {
    predicates<el<Params, forms::short_weierstrass, C>>(name, Params::naive());
}
template<class Params>
static void weierstrass_affine(const char *name) {
    predicates<el<Params, forms::short_weierstrass, coords::affine>>(name, Params::naive());
}
template<class Params>
static void edwards_affine(const char *name, bool) {
    predicates<el<Params, forms::twisted_edwards, coords::affine>>(name, Params::naive());
}
template<class Params, class C>
static void edwards_curve(const char *name, bool) {
    if constexpr (std::is_same<C, coords::extended_with_a_minus_1>::value) {
        if (!vf::thorough() && Params::naive().p > 13) {
            return;
        }
    }
    predicates<el<Params, forms::twisted_edwards, C>>(name, Params::naive());
}
template<class Curve>
static void birational(const char *name) {
    predicates<el<typename Curve::montgomery_params, forms::montgomery, coords::affine>>(name, Curve::montgomery_params::naive());
}
#elif MODE == 17
template<class Params, class V>
static void scalars(const char *name, const model &M, const std::vector<pt> &pts, u64 order) {
    typedef rep<V> R;
    typedef typename Params::scalar_field_type SF;
    typedef typename SF::value_type S;
    typedef vfield::small_field<(1ull << 61) - 1>::integral_type I;    // wide enough for scalars past the order
    under_test(name);
    vf::rng g(vf::seed() * 23 + vf::hash(name));
    for (const pt &p : pts) {
        const u64 zs = R::scaled ? 3 : 2;
        for (u64 zi = p.inf ? 0 : 1; zi < zs; ++zi) {
            const u64 z = zi == 2 ? 2 + g.below(M.p - 2) : zi;
            const V P = R::make(M, p, z);
            vf::at(std::string(name) + " multiplying " + show(p));
            vf::arm(20);
            // numbers, including ones past the order
            const u64 top = vf::thorough() ? 4 * order + 5 : order + 5;
            for (u64 n = 0; n <= top + 20; ++n) {
                const u64 k = n <= top ? n : g.below(1ull << (1 + g.below(40)));
                const pt want = M.mul(p, k);
                const V a = P * I(k);
                judge("times_number", p, p, z * 100000 + n, R::read(M, a), want);
                judge_flag("times_number_zero", p, p, n, a.is_zero(), want.inf);
                judge("number_times", p, p, z * 100000 + n, R::read(M, I(k) * P), want);
                judge("scalar_mul", p, p, z * 100000 + n, R::read(M, curves::detail::scalar_mul(P, I(k))), want);
                {
                    // in place, by a number modulo a large prime: past the order of points outside the subgroup too
                    V q = P;
                    curves::detail::operator*=(q, typename vfield::small_field<(1ull << 61) - 1>::value_type(k));
                    judge("times_assign_wide", p, p, z * 100000 + n, R::read(M, q), want);
                }
                if (k % order < order) {
                    const S s(k % order);
                    const pt w = M.mul(p, k % order);
                    judge("times_field_element", p, p, z * 100000 + n, R::read(M, P * s), w);
                    judge("field_element_times", p, p, z * 100000 + n, R::read(M, s * P), w);
                    V q = P;
                    const void *r = &curves::detail::operator*=(q, s);
                    judge("times_assign", p, p, z * 100000 + n, R::read(M, q), w);
                    judge_flag("times_assign_ref", p, p, n, r == &q, true);
                }
            }
            judge("operand_kept", p, p, z, R::read(M, P), p);
            judge_flag("subgroup_check", p, p, z, curves::detail::subgroup_check(P), M.mul(p, order).inf);
            // additivity in the scalar and in the point, on whatever representatives come out
            for (int i = 0; i < 6; ++i) {
                const u64 a = g.below(order), b = g.below(order);
                const pt q = pts[g.below(pts.size())];
                const V Q = R::make(M, q, q.inf ? 0 : 1);
                judge_flag("additive_in_scalar", p, p, a * 1000 + b, P * I(a) + P * I(b) == P * I(a + b), true);
                judge_flag("additive_in_point", p, q, a, (P + Q) * I(a) == P * I(a) + Q * I(a), true);
                judge_flag("associative", p, p, a * 1000 + b, (P * I(a)) * I(b) == P * I(a * b), true);
            }
        }
    }
    // explicit construction and assignment from a number: multiples of the generator
    const pt gen = Params::generator();
    for (u64 n = 0; n <= order + 3; ++n) {
        if constexpr (std::is_constructible<V, const I &>::value) {
            const V a((I(n)));
            judge("constructed_from_number", gen, gen, n, R::read(M, a), M.mul(gen, n));
        }
        if constexpr (std::is_assignable<V &, const I &>::value) {
            V b = V::one();
            b = I(n);
            judge("assigned_from_number", gen, gen, n, R::read(M, b), M.mul(gen, n));
        }
    }
    judge_flag("order_times_one", gen, gen, 0, (V::one() * I(M.order(gen))).is_zero(), true);
    vf::arm(0);
    vf::sample(vf::cat(name, pts.size(), "points, scalars up to", order + 5, "and beyond"));
}
template<class Params, class C>
static void weierstrass_curve(const char *name) {
    const model M = Params::naive();
    scalars<Params, el<Params, forms::short_weierstrass, C>>(name, M, M.points(), Params::order);
}
template<class Params>
static void weierstrass_affine(const char *name) {
    const model M = Params::naive();
    scalars<Params, el<Params, forms::short_weierstrass, coords::affine>>(name, M, M.points(), Params::order);
}
template<class Params>
static void edwards_affine(const char *name, bool) {
    const model M = Params::naive();
    scalars<Params, el<Params, forms::twisted_edwards, coords::affine>>(name, M, M.points(), Params::order);
}
template<class Params, class C>
static void edwards_curve(const char *name, bool odd) {
    const model M = Params::naive();
    scalars<Params, el<Params, forms::twisted_edwards, C>>(name, M, odd ? M.odd_points() : M.points(), Params::order);
}
template<class Curve>
static void birational(const char *name) {
    typedef typename Curve::montgomery_params Params;
    const model M = Params::naive();
    scalars<Params, el<Params, forms::montgomery, coords::affine>>(name, M, M.points(), Params::order);
}
#endif

VF_MAIN("c14_tiny") {
#if PART == 0
    typedef coords::jacobian jac;
    weierstrass_curve<sw<7, 1, 6, 1, 1, 11>, jac>("jacobian y^2=x^3+x+6 mod 7");
    weierstrass_curve<sw<13, 1, 2, 12, 0, 2, 0>, jac>("jacobian y^2=x^3+x+2 mod 13");
    weierstrass_curve<sw<31, 1, 3, 1, 6, 41>, jac>("jacobian y^2=x^3+x+3 mod 31");
    typedef coords::jacobian_with_a4_0 jac0;
    weierstrass_curve<sw<7, 0, 3, 1, 2, 13>, jac0>("jacobian_with_a4_0 y^2=x^3+3 mod 7");
    weierstrass_curve<sw<13, 0, 5, 12, 11, 2, 0>, jac0>("jacobian_with_a4_0 y^2=x^3+5 mod 13");
    weierstrass_curve<sw<31, 0, 3, 1, 2, 43>, jac0>("jacobian_with_a4_0 y^2=x^3+3 mod 31");
#elif PART == 1
    typedef coords::jacobian_with_a4_minus_3 jac3;
    weierstrass_curve<sw<7, 4, 6, 1, 2, 11>, jac3>("jacobian_with_a4_minus_3 y^2=x^3-3x+6 mod 7");
    weierstrass_curve<sw<13, 10, 3, 11, 12, 2, 0>, jac3>("jacobian_with_a4_minus_3 y^2=x^3-3x+3 mod 13");
    weierstrass_curve<sw<31, 28, 6, 1, 2, 41>, jac3>("jacobian_with_a4_minus_3 y^2=x^3-3x+6 mod 31");
    typedef coords::projective_with_a4_minus_3 pro3;
    weierstrass_curve<sw<7, 4, 6, 1, 2, 11>, pro3>("projective_with_a4_minus_3 y^2=x^3-3x+6 mod 7");
    weierstrass_curve<sw<13, 10, 3, 11, 12, 2, 0>, pro3>("projective_with_a4_minus_3 y^2=x^3-3x+3 mod 13");
    weierstrass_curve<sw<31, 28, 6, 1, 2, 41>, pro3>("projective_with_a4_minus_3 y^2=x^3-3x+6 mod 31");
#elif PART == 2
    typedef coords::projective pro;
    weierstrass_curve<sw<7, 1, 6, 1, 1, 11>, pro>("projective y^2=x^3+x+6 mod 7");
    weierstrass_curve<sw<13, 1, 2, 12, 0, 2, 0>, pro>("projective y^2=x^3+x+2 mod 13");
    weierstrass_curve<sw<31, 1, 3, 1, 6, 41>, pro>("projective y^2=x^3+x+3 mod 31");
    weierstrass_affine<sw<7, 1, 6, 1, 1, 11>>("affine y^2=x^3+x+6 mod 7");
    weierstrass_affine<sw<13, 1, 2, 12, 0, 2, 0>>("affine y^2=x^3+x+2 mod 13");
    weierstrass_affine<sw<31, 0, 3, 1, 2, 43>>("affine y^2=x^3+3 mod 31");
#elif PART == 3
    typedef coords::extended_with_a_minus_1 ext;
    typedef coords::inverted inv;
    edwards_curve<te<13, 12, 6, 3, 9, 5, 5, 2, 5>, ext>("extended -x^2+y^2=1+6x^2y^2 mod 13", false);
    edwards_curve<te<29, 28, 2, 2, 22, 7, 14, 21, 27>, ext>("extended -x^2+y^2=1+2x^2y^2 mod 29", false);
    edwards_affine<te<29, 28, 2, 2, 22, 7, 14, 21, 27>>("affine -x^2+y^2=1+2x^2y^2 mod 29", true);
    edwards_affine<te<37, 1, 6, 7, 13, 7, 14, 5, 6>>("affine x^2+y^2=1+6x^2y^2 mod 37", false);
    edwards_curve<te_zero00<te<13, 12, 6, 3, 9, 5, 5, 2, 5>>, ext>("extended -x^2+y^2=1+6x^2y^2 mod 13, zero (0,0)", false);
    edwards_affine<te_zero00<te<29, 28, 2, 2, 22, 7, 14, 21, 27>>>("affine -x^2+y^2=1+2x^2y^2 mod 29, zero (0,0)", true);
    edwards_affine<te<37, 10, 2, 1, 3, 11, 2, 35, 36>>("affine 10x^2+y^2=1+2x^2y^2 mod 37", false);
#elif PART == 4
    typedef coords::inverted inv;
    edwards_curve<te<19, 1, 8, 2, 9, 7, 13, 13, 16>, inv>("inverted x^2+y^2=1+8x^2y^2 mod 19", true);
    edwards_curve<te<31, 1, 3, 5, 8, 9, 23, 12, 26>, inv>("inverted x^2+y^2=1+3x^2y^2 mod 31", true);
    edwards_curve<te_zero00<te<19, 1, 8, 2, 9, 7, 13, 13, 16>>, inv>("inverted x^2+y^2=1+8x^2y^2 mod 19, zero (0,0)", true);
    edwards_curve<te<37, 10, 2, 1, 3, 11, 2, 35, 36>, inv>("inverted 10x^2+y^2=1+2x^2y^2 mod 37", true);
    edwards_curve<te<23, 2, 5, 2, 2, 7, 14, 20, 10>, inv>("inverted 2x^2+y^2=1+5x^2y^2 mod 23", true);
#elif PART == 5
    birational<te_curve<13, 12, 6, 3, 9, 5, 5, 2, 5>>("edwards and montgomery mod 13");
    birational<te_curve<37, 1, 6, 7, 13, 7, 14, 5, 6>>("edwards and montgomery mod 37, a=1");
    birational<te_curve<31, 1, 3, 5, 8, 9, 23, 12, 26>>("edwards and montgomery mod 31");
    birational<te_curve<29, 28, 2, 2, 22, 7, 14, 21, 27>>("edwards and montgomery mod 29");
    birational<te_curve<37, 10, 2, 1, 3, 11, 2, 35, 36>>("edwards and montgomery mod 37, a=10");
#endif
}
