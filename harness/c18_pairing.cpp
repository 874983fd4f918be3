// C18 (MODE 18) bilinearity and non-degeneracy, C19 (MODE 19) pairing stages.   CURVE 0 bls12-381, 1 mnt4-298, 2 mnt6-298, 3 edwards183
#include <array>
#include <cassert>
#include <iostream>
#include <tuple>
#include <vector>
#include "vf.hpp"
#if CURVE == 0
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/pairing/bls12.hpp>
#define TYPE bls12<381>
#elif CURVE == 1
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#include <nil/crypto3/algebra/pairing/mnt4.hpp>
#define TYPE mnt4<298>
#elif CURVE == 2
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/pairing/mnt6.hpp>
#define TYPE mnt6<298>
#else
#include <nil/crypto3/algebra/curves/edwards.hpp>
#include <nil/crypto3/algebra/pairing/edwards.hpp>
#define TYPE edwards<183>
#endif
#include <nil/crypto3/algebra/algorithms/pair.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
namespace algebra = nil::crypto3::algebra;
typedef algebra::curves::TYPE curve;
typedef algebra::pairing::pairing_policy<curve> policy;
typedef curve::g1_type<>::value_type G1;
typedef curve::g2_type<>::value_type G2;
typedef curve::gt_type::value_type GT;
typedef curve::scalar_field_type::value_type S;
typedef S::integral_type I;
static const char *NAMES[] = {"bls12_381", "mnt4", "mnt6", "edwards"};
static const char *NAME = NAMES[CURVE];

template<class V, class = void>
struct is_tower : std::false_type {};
template<class V>
struct is_tower<V, std::void_t<decltype(std::tuple_size<decltype(V::data)>::value)>> : std::true_type {};
template<class V>
static std::string flat(const V &v) {
    if constexpr (is_tower<V>::value) {
        std::string s;
        for (std::size_t i = 0; i < v.data.size(); ++i) {
            s += (i ? "," : "") + flat(v.data[i]);
        }
        return s;
    } else {
        std::ostringstream o;
        o << std::hex << typename V::integral_type(v.data);
        return o.str();
    }
}
static std::string hex(const I &n) {
    std::ostringstream o;
    o << std::hex << n;
    return o.str();
}
template<class E>
static void fill(vf::rng &g, E &r) {
    if constexpr (is_tower<E>::value) {
        for (std::size_t i = 0; i < r.data.size(); ++i) {
            fill(g, r.data[i]);
        }
    } else {
        const E t(g() >> 1);
        r = E::one();
        for (int i = 0; i < 6; ++i) {
            r = r * t + E(g() >> 1);
        }
    }
}
template<class E>
static E draw(vf::rng &g) {
    E r;
    fill(g, r);
    return r;
}
// plain square and multiply: only the target field's product is trusted
template<class N>
static GT power(const GT &x, const N &n) {
    GT r = GT::one();
    for (long i = (long)curve::scalar_field_type::modulus_bits; i >= 0; --i) {
        r = r * r;
        if (boost::multiprecision::bit_test(n, i)) {
            r = r * x;
        }
    }
    return r;
}
template<class P>
static P times(const P &x, const S &s) {
    P r = P::zero();
    const I n(s.data);
    for (long i = (long)curve::scalar_field_type::modulus_bits; i >= 0; --i) {
        r = r + r;
        if (boost::multiprecision::bit_test(n, i)) {
            r = r + x;
        }
    }
    return r;
}
__attribute__((noinline)) static void judge(const char *what, const std::string &on, bool nontrivial, bool ok) {
    vf::check(ok, what, vf::key(vf::hash(on)), nontrivial, [&] { return vf::cat(NAME, what, "does not hold for", on); });
}
// the same point written differently
static G1 respell(const G1 &p) {
    return (p + G1::one()) - G1::one();
}
static G2 respell(const G2 &p) {
    return (p + G2::one()) - G2::one();
}
static G1 unit_spelling(const G1 &p) {
#if CURVE == 3
    return p;    // inverted coordinates: (x, y, 1) spells (1/x, 1/y)
#endif
    const auto a = p.to_affine();
    return p.is_zero() ? G1::zero() : G1(a.X, a.Y, G1::field_type::value_type::one());
}
static S special(vf::rng &g, unsigned k) {
    switch (k) {
        case 0: return S::zero();
        case 1: return S::one();
        case 2: return -S::one();
        case 3: return S(2u);
        case 4: return S(g.below(1000));
        default: return draw<S>(g);
    }
}

#if MODE == 18
static void body() {
    vf::rng g(vf::seed() * 16 + CURVE);
    vf::cur_budget_s = 100;
    const G1 P = G1::one();
    const G2 Q = G2::one();
    auto e = [](const G1 &p, const G2 &q) { return algebra::pair_reduced<curve>(p, q); };
    vf::at(vf::cat(NAME, "pairing of the generators"));
    const GT base = e(P, Q);
    const I r = curve::scalar_field_type::modulus;
    judge("generators_non_degenerate", "generators", true, base != GT::one() && !base.is_zero());
    judge("order_r", "generators", true, power(base, r) == GT::one());
    vf::sample(vf::cat(NAME, "e(P,Q) =", flat(base).substr(0, 120)));
    for (unsigned i = 0; i < 6; ++i) {
        for (unsigned j = 0; j < 6; ++j) {
            const S a = special(g, i), b = special(g, j);
            const std::string on = vf::cat("a =", hex(I(a.data)), "b =", hex(I(b.data)));
            vf::at(vf::cat(NAME, "pair_reduced(aP, bQ)", on));
            const GT got = e(times(P, a), times(Q, b));
            const S ab = a * b;
            judge("bilinear", on, !ab.is_zero(), got == power(base, I(ab.data)));
        }
    }
    for (std::size_t t = 0; t < vf::n(6, 400); ++t) {
        const S a = special(g, 3 + g.below(3)), b = special(g, 3 + g.below(3)), c = special(g, g.below(6)), d = special(g, g.below(6));
        const std::string on = vf::cat("a =", hex(I(a.data)), "b =", hex(I(b.data)), "c =", hex(I(c.data)), "d =", hex(I(d.data)));
        vf::at(vf::cat(NAME, "additivity", on));
        const G1 A = times(P, a), C = times(P, c);
        const G2 B = times(Q, b), D = times(Q, d);
        const GT ab = e(A, B);
        judge("additive_in_first", on, !c.is_zero(), e(A + C, B) == ab * e(C, B));
        judge("additive_in_second", on, !d.is_zero(), e(A, B + D) == ab * e(A, D));
        judge("negated_first", on, true, e(-A, B) * ab == GT::one());
        judge("negated_second", on, true, e(A, -B) * ab == GT::one());
        const GT cd = e(A, B);
        judge("deterministic", on, true, cd == ab);
        judge("respelled_first", on, true, e(respell(A), B) == ab && e(unit_spelling(A), B) == ab);
        judge("respelled_second", on, true, e(A, respell(B)) == ab);
        judge("order_divides_r", on, true, power(ab, r) == GT::one() && (ab == GT::one()) == (a.is_zero() || b.is_zero()));
        judge("identity_first", on, true, e(G1::zero(), B) == GT::one() && e(A - A, B) == GT::one());
        judge("identity_second", on, true, e(A, G2::zero()) == GT::one() && e(A, B - B) == GT::one());
        judge("identity_both", on, true, e(A - A, B - B) == GT::one() && e(G1(), G2()) == GT::one());
    }
}
#else
// a copy of a precomputed value that differs in one component is a different value
template<class T>
__attribute__((noinline)) static void component(const char *what, const T &a, const T &b) {
    judge("precomputation_compares_components", what, true, !(a == b) && a == a);
}
template<class T, class C, class V>
static void member(const char *what, T a, C T::*list, V C::value_type::*m) {
    for (std::size_t i : {std::size_t(0), (a.*list).size() / 2, (a.*list).size() - 1}) {
        if ((a.*list).empty()) {
            return;
        }
        T b = a;
        (b.*list)[i].*m += V::one();
        component(what, a, b);
    }
    T b = a;
    (b.*list).pop_back();
    component(what, a, b);
}
template<class T, class V>
static void member(const char *what, T a, V T::*m) {
    T b = a;
    b.*m += V::one();
    component(what, a, b);
}
static void components(const policy::g1_precomputed_type &p, const policy::g2_precomputed_type &q) {
    typedef policy::g1_precomputed_type PP;
    typedef policy::g2_precomputed_type PQ;
#define M1(m) member(#m, p, &PP::m);
#define M2(m) member(#m, q, &PQ::m);
#define L2(l, m) member(#m, q, &PQ::l, &decltype(PQ::l)::value_type::m);
#if CURVE == 0
    M1(PX) M1(PY) M2(QX) M2(QY) L2(coeffs, ell_0) L2(coeffs, ell_VW) L2(coeffs, ell_VV)
#elif CURVE == 3
    M1(P_XY) M1(P_XZ) M1(P_ZZplusYZ)
    struct list {
        PQ l;
        bool operator==(const list &o) const {
            return l == o.l;
        }
    } w {q};
#define L3(m) member(#m, w, &list::l, &PQ::value_type::m);
    L3(c_ZZ) L3(c_XY) L3(c_XZ)
#else
    M1(PX) M1(PY) M1(PX_twist) M1(PY_twist) M2(QX) M2(QY) M2(QY2) M2(QX_over_twist) M2(QY_over_twist)
    L2(dbl_coeffs, c_H) L2(dbl_coeffs, c_4C) L2(dbl_coeffs, c_J) L2(dbl_coeffs, c_L) L2(add_coeffs, c_L1) L2(add_coeffs, c_RZ)
#endif
}
static void body() {
    vf::rng g(vf::seed() * 16 + CURVE);
    typedef policy::g1_precomputed_type PP;
    typedef policy::g2_precomputed_type PQ;
    auto fe = [](const GT &f) { return algebra::final_exponentiation<curve>(f); };
    for (std::size_t t = 0; t < vf::n(9, 200); ++t) {
        // from both generators, to identities, to arbitrary points
        const S k[4] = {special(g, t == 0 ? 1 : t < 6 ? 5 : g.below(6)), special(g, t == 0 ? 1 : t == 2 ? 0 : t < 6 ? 5 : g.below(6)), special(g, t == 3 ? 0 : t < 6 ? 5 : g.below(6)), special(g, t == 4 ? 0 : t < 6 ? 5 : g.below(6))};
        const std::string on = vf::cat("P1 =", hex(I(k[0].data)), "Q1 =", hex(I(k[1].data)), "P2 =", hex(I(k[2].data)), "Q2 =", hex(I(k[3].data)));
        vf::at(vf::cat(NAME, "stages", on));
        const G1 P1 = times(G1::one(), k[0]), P2 = times(G1::one(), k[2]);
        const G2 Q1 = times(G2::one(), k[1]), Q2 = times(G2::one(), k[3]);
        const PP p1 = algebra::precompute_g1<curve>(P1), p2 = algebra::precompute_g1<curve>(P2);
        const PQ q1 = algebra::precompute_g2<curve>(Q1), q2 = algebra::precompute_g2<curve>(Q2);
        const GT e11 = algebra::pair_reduced<curve>(P1, Q1), e22 = algebra::pair_reduced<curve>(P2, Q2), e12 = algebra::pair_reduced<curve>(P1, Q2);
        const GT f11 = algebra::miller_loop<curve>(p1, q1), f22 = algebra::miller_loop<curve>(p2, q2);
        judge("loop_and_exponentiation", on, true, fe(f11) == e11 && fe(f22) == e22);
        judge("unreduced_pair", on, true, fe(algebra::pair<curve>(P1, Q1)) == e11 && algebra::pair<curve>(P1, Q1) == f11);
        // precomputed values serve any number of loops, mixed freely
        judge("precomputed_reused", on, true, fe(algebra::miller_loop<curve>(p1, q2)) == e12 && algebra::miller_loop<curve>(p1, q1) == f11);
        judge("precomputation_deterministic", on, true, algebra::precompute_g1<curve>(P1) == p1 && algebra::precompute_g2<curve>(Q1) == q1);
        judge("precomputation_of_respelled", on, true, algebra::precompute_g1<curve>(respell(P1)) == p1 && algebra::precompute_g2<curve>(respell(Q1)) == q1);
        judge("precomputation_tells_points_apart", on, true, ((k[0] == k[2]) == (p1 == p2)) && ((k[1] == k[3]) == (q1 == q2)));
#if CURVE != 3
        if (!P1.is_zero()) {
            const auto a = P1.to_affine();
            judge("precomputation_holds_first_point", on, true, p1.PX == a.X && p1.PY == a.Y);
        }
        if (!Q1.is_zero()) {
            const auto a = Q1.to_affine();
            judge("precomputation_holds_second_point", on, true, q1.QX == a.X && q1.QY == a.Y);
        }
#endif
        const GT d = algebra::double_miller_loop<curve>(p1, q1, p2, q2);
        components(p1, q1);
        judge("double_loop", on, true, fe(d) == e11 * e22);
        judge("double_loop_swapped", on, true, fe(algebra::double_miller_loop<curve>(p2, q2, p1, q1)) == e11 * e22);
        judge("double_loop_same_pair", on, true, fe(algebra::double_miller_loop<curve>(p1, q1, p1, q1)) == e11 * e11);
        judge("double_loop_cancels", on, true, fe(algebra::double_miller_loop<curve>(p1, q1, algebra::precompute_g1<curve>(-P1), q1)) == GT::one());
        judge("double_loop_shares_second", on, true, fe(algebra::double_miller_loop<curve>(p1, q2, p2, q2)) == e12 * e22);
        // pairs that share a point up to its sign, as in verification equations
        const GT i12 = e12.inversed();
        judge("double_loop_shares_first", on, true, fe(algebra::double_miller_loop<curve>(p1, q1, p1, q2)) == e11 * e12);
        judge("double_loop_opposite_first", on, true, fe(algebra::double_miller_loop<curve>(p1, q1, algebra::precompute_g1<curve>(-P1), q2)) == e11 * i12);
        judge("double_loop_opposite_second", on, true, fe(algebra::double_miller_loop<curve>(p2, q2, p1, algebra::precompute_g2<curve>(-Q2))) == e22 * i12);
        judge("double_loop_both_opposite", on, true, fe(algebra::double_miller_loop<curve>(algebra::precompute_g1<curve>(-P1), algebra::precompute_g2<curve>(-Q1), p1, q1)) == e11 * e11);
        judge("policy_is_front_end", on, true, policy::miller_loop::process(policy::precompute_g1::process(P1), policy::precompute_g2::process(Q1)) == f11 &&
                                                     policy::double_miller_loop::process(p1, q1, p2, q2) == d && policy::final_exponentiation::process(d) == fe(d));
        judge("exponentiation_multiplicative", on, true, fe(f11 * f22) == fe(f11) * fe(f22) && fe(f11.inversed()) * fe(f11) == GT::one());
    }
    judge("exponentiation_of_one", "one", true, fe(GT::one()) == GT::one());
    // arbitrary elements of the target field, judged offline
    for (std::size_t t = 0; t < vf::n(3, 60); ++t) {
        GT x = t == 0 ? GT::one() + GT::one() : draw<GT>(g);
        if (t == 1) {
            x = algebra::pair<curve>(G1::one(), G2::one());
        }
        vf::at(vf::cat(NAME, "final_exponentiation", flat(x)));
        const GT y = fe(x);
        std::printf("T\t%s\tfinal_exponentiation\t%s\t%s\n", NAME, flat(x).c_str(), flat(y).c_str());
        judge("exponentiation_multiplicative", flat(x), true, fe(x * x) == y * y);
        judge("exponentiation_lands_in_order_r", flat(x), true, power(y, curve::scalar_field_type::modulus) == GT::one());
    }
}
#endif
int main() {
    return vf::run("pairing", body);
}
