// random_element. PART 0: distribution over tiny fields, extension towers and curve groups (judged here);
// PART 1: predefined fields (here) and groups (recorded, judged offline by lib/random_oracle.py).
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <cmath>
#include <random>
#if PART == 0
#include "small_towers.hpp"
#include "small_curves.hpp"
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#else
#include <nil/crypto3/algebra/type_traits.hpp>
#include "vf.hpp"
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/curves/secp_k1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>
#include <nil/crypto3/algebra/curves/jubjub.hpp>
#include <nil/crypto3/algebra/fields/goldilocks64/base_field.hpp>
#include <nil/crypto3/algebra/fields/maxprime.hpp>
#include <nil/crypto3/algebra/pairing/bls12.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#endif
#include <nil/crypto3/algebra/random_element.hpp>
using namespace nil::crypto3::algebra;

// counts over k equally likely cells; the thresholds leave a chance of a false alarm below 1e-10 per call, and the
// generators are seeded
static void uniform(const char *site, const std::string &what, const std::vector<unsigned> &c, double n) {
    const double e = n / c.size(), df = c.size() - 1.0;
    double chi = 0, worst = 0;
    std::size_t at = 0;
    for (std::size_t i = 0; i < c.size(); ++i) {
        const double d = c[i] - e;
        chi += d * d / e;
        if (std::fabs(d) > worst) {
            worst = std::fabs(d);
            at = i;
        }
    }
    vf::check(worst <= 7.5 * std::sqrt(e) + 10 && chi <= df + 7 * std::sqrt(2 * df) + 40, site, vf::hash(what), true, [&] {
        return vf::cat(what, ": not uniform: cell", at, "was drawn", c[at], "times of", (unsigned long long)n, "expected", e, "chi-square", chi, "with", df, "degrees of freedom");
    });
    vf::count("draws", (unsigned long long)n);
    vf::sample(vf::cat(what, ": chi-square", chi, "over", c.size(), "cells"));
}
template<class V>
static bool same(const V &a, const V &b) {
    return a == b;
}

#if PART == 0
using namespace vfield;
// the draws of one structure as cell numbers: uniform, and uniform in consecutive pairs
template<class S, class Engine, class Cell>
static void draws(const std::string &what, std::size_t cells, Cell cell, std::size_t per) {
    vf::at(what);
    vf::arm(60);
    Engine g((unsigned)(vf::seed() + 17)), h((unsigned)(vf::seed() + 17));
    const std::size_t n = std::max<std::size_t>(cells * per, 6000);
    std::vector<unsigned> c(cells), pairs(cells <= 40 ? cells * cells : 0);
    std::size_t last = 0;
    for (std::size_t i = 0; i < n; ++i) {
        const auto v = random_element<S>(g);
        const std::size_t k = cell(v);
        if (k >= cells) {
            vf::violation("member", what + ": drew something outside the structure");
            return;
        }
        ++c[k];
        if (i && !pairs.empty()) {
            ++pairs[last * cells + k];
        }
        last = k;
        if (i < 200) {
            const auto w = random_element<S>(h);
            vf::check(same(v, w) && g == h, "same generator state, same element", vf::key(vf::hash(what), i), true, [&] {
                return what + ": two equal generators gave different elements or states";
            });
        }
    }
    uniform("uniform", what, c, double(n));
    if (!pairs.empty()) {
        uniform("independent draws", what + " consecutive pairs", pairs, double(n - 1));
    }
}
template<u64 P>
static void prime() {
    typedef small_field<P> F;
    auto cell = [](const typename F::value_type &v) { return std::size_t(canon(v)); };
    const std::string w = "F_" + std::to_string(P);
    draws<F, boost::random::mt19937>(w + " mt19937", P, cell, vf::n(600, 6000));
    draws<F, std::mt19937_64>(w + " mt19937_64", P, cell, vf::n(300, 3000));
    draws<F, boost::random::minstd_rand>(w + " minstd", P, cell, vf::n(300, 3000));
}
template<class Policy, class Under, class Value, std::size_t Arity>
struct ext : Policy {
    typedef Policy extension_policy;
    typedef Under underlying_field_type;
    typedef Value value_type;
    typedef typename Under::integral_type integral_type;
    typedef typename Under::modular_type modular_type;
    constexpr static const integral_type modulus = Under::modulus;
    constexpr static const std::size_t modulus_bits = Under::modulus_bits;
    constexpr static const std::size_t value_bits = Under::modulus_bits * Arity;
    constexpr static const std::size_t arity = Arity;
};
template<u64 P, u64 NR>
using X2 = ext<fp2_policy<P, NR>, small_field<P>, F2<P, NR>, 2>;
template<u64 P, u64 NR>
using X3 = ext<fp3_policy<P, NR>, small_field<P>, F3<P, NR>, 3>;
template<u64 P, u64 NR>
using X4 = ext<fp4_policy<P, NR>, X2<P, NR>, F4<P, NR>, 4>;
template<u64 P, u64 NR>
using X6a = ext<fp6_2over3_policy<P, NR>, X3<P, NR>, F6a<P, NR>, 6>;
template<u64 P, u64 NR, u64 A>
using X6b = ext<fp6_3over2_policy<P, NR, A>, X2<P, NR>, F6b<P, NR, A>, 6>;
template<u64 P, u64 NR, u64 A>
using X12 = ext<fp12_policy<P, NR, A>, X6b<P, NR, A>, F12<P, NR, A>, 12>;

// every pair of coordinates is jointly uniform
template<class F, u64 P>
static void extension(const std::string &what, std::size_t per) {
    vf::at(what);
    vf::arm(60);
    boost::random::mt19937 g((unsigned)vf::seed() + 5), h((unsigned)vf::seed() + 5);
    const std::size_t n = P * P * per, k = F::arity;
    std::vector<std::vector<unsigned>> c(k * k, std::vector<unsigned>(P * P));
    for (std::size_t i = 0; i < n; ++i) {
        const auto v = random_element<F>(g);
        const cv a = flat(v);
        for (std::size_t x = 0; x < k; ++x) {
            for (std::size_t y = 0; y < x; ++y) {
                ++c[x * k + y][a[x] * P + a[y]];
            }
        }
        if (i < 100) {
            vf::check(same(v, random_element<F>(h)) && g == h, "same generator state, same element", vf::key(vf::hash(what), i), true, [&] {
                return what + ": two equal generators gave different elements or states";
            });
        }
    }
    for (std::size_t x = 0; x < k; ++x) {
        for (std::size_t y = 0; y < x; ++y) {
            uniform("independent coordinates", vf::cat(what, "coordinates", y, "and", x), c[x * k + y], double(n));
        }
    }
    vf::arm(0);
}
using vcurve::pt;
template<class G, class Params>
static void group(const std::string &what) {
    typedef typename G::value_type V;
    const vcurve::model M = Params::naive();
    std::map<pt, std::size_t> index;
    pt q = M.zero();
    for (std::size_t i = 0; i < Params::order; ++i) {
        index[q] = i;
        q = M.add(q, Params::generator());
    }
    auto cell = [&](const V &v) {
        const auto it = index.find(vcurve::rep<V>::read(M, v));
        return it == index.end() ? std::size_t(-1) : it->second;
    };
    draws<G, boost::random::mt19937>(what, Params::order, cell, vf::n(150, 1500));
}
VF_MAIN("c24") {
    prime<2>();
    prime<3>();
    prime<5>();
    prime<7>();
    prime<13>();
    prime<17>();
    prime<31>();
    prime<37>();
    prime<127>();
    prime<257>();
    extension<X2<5, 2>, 5>("F2<5>", vf::n(300, 3000));
    extension<X2<7, 6>, 7>("F2<7>", vf::n(300, 3000));
    extension<X3<7, 3>, 7>("F3<7>", vf::n(300, 3000));
    extension<X4<5, 2>, 5>("F4<5>", vf::n(300, 3000));
    extension<X6a<7, 3>, 7>("F6(2,3)<7>", vf::n(200, 2000));
    extension<X6b<7, 6, 2>, 7>("F6(3,2)<7>", vf::n(200, 2000));
    extension<X12<7, 6, 2>, 7>("F12<7>", vf::n(200, 2000));
    {
        using namespace vcurve;
        typedef sw<7, 1, 6, 1, 1, 11> A;
        typedef sw<31, 1, 3, 1, 6, 41> B;
        typedef sw<31, 0, 3, 1, 2, 43> C;
        typedef sw<31, 28, 6, 1, 2, 41> D;
        typedef sw<7, 0, 3, 1, 2, 13> E;
        ::group<A::group_type<coords::jacobian>, A>("jacobian, order 11");
        ::group<B::group_type<coords::jacobian>, B>("jacobian, order 41");
        ::group<C::group_type<coords::jacobian_with_a4_0>, C>("jacobian_with_a4_0, order 43");
        ::group<E::group_type<coords::jacobian_with_a4_0>, E>("jacobian_with_a4_0, order 13");
        ::group<D::group_type<coords::jacobian_with_a4_minus_3>, D>("jacobian_with_a4_minus_3, order 41");
        ::group<A::group_type<coords::projective>, A>("projective, order 11");
        ::group<D::group_type<coords::projective_with_a4_minus_3>, D>("projective_with_a4_minus_3, order 41");
        ::group<B::group_type<coords::affine>, B>("affine, order 41");
        typedef te<13, 12, 6, 3, 9, 5, 5, 2, 5> T;
        ::group<T::group_type<coords::affine>, T>("twisted edwards affine, order 5");
        ::group<T::group_type<coords::inverted>, T>("twisted edwards inverted, order 5");
        ::group<T::group_type<coords::extended_with_a_minus_1>, T>("twisted edwards extended, order 5");
    }
}
#else
template<class I>
__attribute__((noinline)) static std::string hex(const I &n) {
    std::ostringstream o;
    o << std::hex << n;
    return o.str();
}
template<class V, class = void>
struct is_tower : std::false_type {};
template<class V>
struct is_tower<V, std::void_t<decltype(std::tuple_size<decltype(V::data)>::value)>> : std::true_type {};
template<class V, class F>
static void leaves(const V &v, F &&f) {
    if constexpr (is_tower<V>::value) {
        for (const auto &x : v.data) {
            leaves(x, f);
        }
    } else {
        f(typename V::integral_type(v.data));
    }
}
template<class F>
static void field(const std::string &what, std::size_t n) {
    vf::at(what);
    vf::arm(60);
    boost::random::mt19937 g((unsigned)vf::seed() + 3), h((unsigned)vf::seed() + 3);
    typedef typename F::integral_type I;
    const I p = F::modulus;
    const unsigned bits = F::modulus_bits, shift = bits > 20 ? bits - 20 : 0;
    const double top = (double)(unsigned long long)(p >> shift) + 0.5;
    const std::size_t k = F::arity;
    std::vector<std::vector<unsigned>> high(k, std::vector<unsigned>(16)), low(k, std::vector<unsigned>(16)), ones(k, std::vector<unsigned>(bits)), differ(k * k, std::vector<unsigned>(2));
    std::set<std::string> seen;
    for (std::size_t i = 0; i < n; ++i) {
        const auto v = random_element<F>(g);
        if (i < 50) {
            vf::check(same(v, random_element<F>(h)) && g == h, "same generator state, same element", vf::key(vf::hash(what), i), true, [&] {
                return what + ": two equal generators gave different elements or states";
            });
        }
        std::vector<I> c;
        leaves(v, [&](const I &x) { c.push_back(x); });
        std::string all;
        for (std::size_t j = 0; j < k; ++j) {
            if (!(c[j] < p)) {
                vf::violation("canonical", what + ": not reduced: " + hex(c[j]));
                return;
            }
            ++high[j][std::min(15, int((double)(unsigned long long)(c[j] >> shift) / top * 16))];
            ++low[j][(unsigned)(c[j] & I(15u))];
            for (unsigned b = 0; b < bits; ++b) {
                ones[j][b] += ((c[j] >> b) & I(1u)) != I(0u);
            }
            for (std::size_t l = 0; l < j; ++l) {
                ++differ[j * k + l][(unsigned)((c[j] ^ c[l]) & I(1u))];
            }
            all += hex(c[j]) + ",";
        }
        vf::check(bits < 60 || seen.insert(all).second, "distinct draws", vf::hash(what + all), true, [&] { return what + ": drawn twice: " + all; });
        vf::sample(what + ": " + all);
    }
    for (std::size_t j = 0; j < k; ++j) {
        const std::string w = vf::cat(what, "coordinate", j);
        uniform("uniform", w + " high part", high[j], double(n));
        uniform("uniform", w + " low bits", low[j], double(n));
        // below the top two bits every bit is set half of the time, to within 2^-(distance from the top)
        for (unsigned b = 0; b + 12 < bits; ++b) {
            vf::check(std::fabs(ones[j][b] - n / 2.0) <= 7.5 * std::sqrt(n / 4.0) + n * std::pow(2.0, double(b) - double(bits) + 3), "every bit", vf::key(vf::hash(w), b), true,
                      [&] { return vf::cat(w, "bit", b, "was set", ones[j][b], "times of", n); });
        }
        for (std::size_t l = 0; l < j; ++l) {
            uniform("independent coordinates", vf::cat(what, "coordinates", l, "and", j), differ[j * k + l], double(n));
        }
    }
    vf::arm(0);
}
template<class V>
static std::string flat(const V &v) {
    std::string s;
    leaves(v, [&](const auto &x) { s += (s.empty() ? "" : ",") + hex(x); });
    return s;
}
template<class V>
static std::string show(const V &p) {
    return flat(p.X) + ";" + flat(p.Y) + ";" + flat(p.Z);
}
template<class G>
static void group(const char *name, const char *c, std::size_t n) {
    vf::at(name);
    vf::arm(60);
    boost::random::mt19937 g((unsigned)vf::seed() + 9), h((unsigned)vf::seed() + 9);
    for (std::size_t i = 0; i < n; ++i) {
        const auto p = random_element<G>(g), q = random_element<G>(h);
        vf::check(g == h, "same generator state, same element", vf::key(vf::hash(name), i), true, [&] { return std::string(name) + ": equal generators ended in different states"; });
        std::printf("T\t%s\t%s\t%s\t%s\n", name, c, show(p).c_str(), show(q).c_str());
    }
    vf::arm(0);
}
// without a generator: two draws from the system's
template<class F>
static void system_draws(const std::string &what) {
    vf::at(what);
    const auto a = random_element<F>(), b = random_element<F>();
    vf::check(!(a == b), "system generator", vf::hash(what), true, [&] { return what + ": two draws without a generator coincide"; });
}
VF_MAIN("c24") {
    typedef curves::bls12<381> bls;
    field<bls::scalar_field_type>("bls12_381 Fr", vf::n(3000, 40000));
    field<bls::base_field_type>("bls12_381 Fp", vf::n(3000, 40000));
    field<curves::secp_k1<256>::base_field_type>("secp256k1 Fp", vf::n(3000, 40000));
    field<curves::pallas::base_field_type>("pallas Fp", vf::n(3000, 40000));
    field<fields::goldilocks64_base_field>("goldilocks64", vf::n(3000, 40000));
    field<fields::maxprime<64>>("maxprime<64>", vf::n(3000, 40000));
    field<bls::g2_type<>::field_type>("bls12_381 Fp2", vf::n(2000, 20000));
    field<curves::mnt6<298>::g2_type<>::field_type>("mnt6 Fp3", vf::n(2000, 20000));
    field<bls::gt_type>("bls12_381 Fp12", vf::n(500, 5000));
    system_draws<bls::scalar_field_type>("bls12_381 Fr");
    system_draws<bls::g2_type<>::field_type>("bls12_381 Fp2");
    system_draws<curves::pallas::g1_type<>>("pallas");
    group<bls::g1_type<>>("bls12_381_g1", "jacobian_a0", vf::n(4, 40));
    group<bls::g2_type<>>("bls12_381_g2", "jacobian_a0", vf::n(3, 20));
    group<curves::pallas::g1_type<>>("pallas", "jacobian_a0", vf::n(4, 40));
    group<curves::mnt6<298>::g1_type<>>("mnt6_g1", "projective", vf::n(4, 40));
    group<curves::mnt6<298>::g2_type<>>("mnt6_g2", "projective", vf::n(2, 20));
    group<curves::secp_k1<256>::g1_type<>>("secp256k1", "jacobian_a0", vf::n(4, 40));
    group<curves::jubjub::g1_type<curves::coordinates::inverted, curves::forms::twisted_edwards>>("jubjub", "inverted", vf::n(4, 40));
}
#endif
