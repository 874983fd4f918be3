// Hashes and printed forms. PART 0: tiny fields, exhaustively; 1: predefined fields and towers; 2: points and pairing precomputations (GROUP of curve_registry.hpp)
#if PART == 2
#include "curve_registry.hpp"
#if GROUP == 0
#include <nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp>
#elif GROUP == 4
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp>
#endif
#else
#include "vf.hpp"
#include "small_field.hpp"
#include "small_towers.hpp"
#endif
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#if PART == 1
#include <nil/crypto3/algebra/fields/alt_bn128/base_field.hpp>
#include <nil/crypto3/algebra/fields/bls12/base_field.hpp>
#include <nil/crypto3/algebra/fields/bls12/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/curve25519/base_field.hpp>
#include <nil/crypto3/algebra/fields/edwards/base_field.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/fields/fp3.hpp>
#include <nil/crypto3/algebra/fields/fp4.hpp>
#include <nil/crypto3/algebra/fields/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>
#include <nil/crypto3/algebra/fields/goldilocks64/base_field.hpp>
#include <nil/crypto3/algebra/fields/mnt4/base_field.hpp>
#include <nil/crypto3/algebra/fields/mnt6/base_field.hpp>
#include <nil/crypto3/algebra/fields/pallas/base_field.hpp>
#include <nil/crypto3/algebra/fields/secp/secp_k1/base_field.hpp>
#include <nil/crypto3/algebra/fields/secp/secp_r1/base_field.hpp>
#include <nil/crypto3/algebra/fields/vesta/base_field.hpp>
#endif
template<class V, class = void>
struct is_tower : std::false_type { };
template<class V>
struct is_tower<V, std::void_t<decltype(std::tuple_size<decltype(V::data)>::value)>> : std::true_type { };
// the stored coefficients as text of our own: "1f" or [..,..]
template<class V>
static std::string plain(const V &v) {
    if constexpr (is_tower<V>::value) {
        std::string s = "[";
        for (std::size_t i = 0; i < v.data.size(); ++i) {
            s += (i ? "," : "") + plain(v.data[i]);
        }
        return s + "]";
    } else {
        std::ostringstream o;
        o << std::hex << typename V::integral_type(v.data);
        return "\"" + o.str() + "\"";
    }
}
template<class V>
static std::string printed(const V &v) {
    std::ostringstream o;
    o << v;
    std::string s = o.str();
    for (char &c : s) {
        if (c == '\n' || c == '\t') {
            c = ' ';
        }
    }
    return s;
}
static __attribute__((noinline)) void record(const char *type, const std::string &want, const std::string &text) {
    std::printf("T\t%s\t%s\t%s\n", type, want.c_str(), text.c_str());
}
template<class V>
static void record(const char *type, const V &v) {
    vf::at(vf::cat("printing", type, plain(v)));
    record(type, plain(v), printed(v));
}
// the same value reached in other ways
template<class V>
static std::vector<V> histories(const V &a, const V &b) {
    std::vector<V> r {a, (a + b) - b, (a - b) + b, -(-a), a * V::one(), a + V::zero(), V::zero() - (-a), (a + a) - a, a.doubled() - a};
    if (!b.is_zero()) {
        r.push_back((a * b) * b.inversed());
        V c = a;
        c *= b.inversed();
        c *= b;
        r.push_back(c);
    }
    V c = a;
    c += b;
    c -= b;
    r.push_back(c);
    return r;
}
static __attribute__((noinline)) void same(const char *site, const char *type, const std::string &value, std::size_t i, bool ok, bool nontrivial) {
    vf::check(ok, site, vf::hash(type + value + std::to_string(i)), nontrivial, [&] { return vf::cat(type, value, "reached by history", i, "differs"); });
}
template<class V, bool Hashed>
static void consistent(const char *type, const std::vector<V> &xs) {
    // printed form -> value, and each value's hash
    std::map<std::string, std::string> seen;
    for (std::size_t k = 0; k < xs.size(); ++k) {
        const V &a = xs[k];
        const std::string p = plain(a), t = printed(a);
        vf::at(vf::cat(type, p));
        const auto ins = seen.insert({t, p});
        vf::check(ins.second || ins.first->second == p, "different elements print differently", vf::hash(type + p), true, [&] { return vf::cat(type, p, "and", ins.first->second, "print", t); });
        const auto hs = histories(a, xs[(k * 7 + 3) % xs.size()]);
        for (std::size_t i = 0; i < hs.size(); ++i) {
            same("equal elements", type, p, i, hs[i] == a, i > 0);
            same("equal elements print alike", type, p, i, printed(hs[i]) == t, i > 0);
            if constexpr (Hashed) {
                const std::hash<V> h {};
                same("equal elements hash alike", type, p, i, h(hs[i]) == h(a) && std::hash<V>()(hs[i]) == h(a), i > 0);
            }
        }
        if constexpr (Hashed) {
            std::unordered_set<V> s(hs.begin(), hs.end());
            same("unordered_set", type, p, 0, s.size() == 1 && s.count(a) == 1, true);
        }
    }
    if constexpr (Hashed) {
        std::unordered_map<V, std::size_t> m;
        std::set<std::string> distinct;
        for (const V &a : xs) {
            ++m[a];
            distinct.insert(plain(a));
        }
        vf::check(m.size() == distinct.size(), "unordered_map", vf::hash(type), true, [&] { return vf::cat(type, "has", m.size(), "keys for", distinct.size(), "elements"); });
    }
    vf::sample(vf::cat(type, plain(xs.back()), "prints", printed(xs.back())));
}
#if PART == 0
static std::string hex(unsigned long long i) {
    std::ostringstream o;
    o << std::hex << i;
    return o.str();
}
// the tuple of coefficients as nested text, from the shape of the type alone
template<class V>
static std::string nested(const vfield::cv &c, std::size_t &k) {
    if constexpr (is_tower<V>::value) {
        std::string s = "[";
        for (std::size_t i = 0; i < std::tuple_size<typename V::data_type>::value; ++i) {
            s += (i ? "," : "") + nested<typename V::data_type::value_type>(c, k);
        }
        return s + "]";
    } else {
        return "\"" + hex(c[k++]) + "\"";
    }
}
template<unsigned long long P>
static void prime(const char *type) {
    typedef typename vfield::small_field<P>::value_type V;
    std::vector<V> xs;
    for (unsigned long long i = 0; i < P; ++i) {
        xs.push_back(V(typename V::integral_type(i)));
        record(type, "\"" + hex(i) + "\"", printed(xs.back()));
    }
    consistent<V, true>(type, xs);
}
template<class V, bool Hashed>
static void towers(const char *type, unsigned long long p, std::size_t most) {
    std::vector<V> xs;
    vf::rng g(vf::seed());
    const std::size_t arity = vfield::flat(V::one()).size();
    unsigned long long all = 1;
    for (std::size_t i = 0; i < arity && all <= most; ++i) {
        all *= p;
    }
    for (unsigned long long i = 0; i < std::min<unsigned long long>(all, most); ++i) {
        vfield::cv c;
        unsigned long long r = i;
        for (std::size_t k = 0; k < arity; ++k, r /= p) {
            c.push_back(all <= most ? r % p : g.below(p));
        }
        xs.push_back(vfield::make<V>(c));
        std::size_t k = 0;
        record(type, nested<V>(c, k), printed(xs.back()));
    }
    consistent<V, Hashed>(type, xs);
}
using namespace vfield;
VF_MAIN("c28") {
    prime<3>("fp of 3");
    prime<5>("fp of 5");
    prime<31>("fp of 31");
    prime<251>("fp of 251");
    prime<257>("fp of 257");
    towers<F2<3, 2>, true>("fp2 over 3", 3, 1000);
    towers<F2<13, 2>, true>("fp2 over 13", 13, 1000);
    towers<F3<7, 3>, false>("fp3 over 7", 7, 1000);
    towers<F4<5, 2>, false>("fp4 over 5", 5, 1000);
    towers<F6a<7, 3>, false>("fp6_2over3 over 7", 7, 300);
    towers<F6b<7, 3, 1>, false>("fp6_3over2 over 7", 7, 300);
    towers<F12<7, 3, 1>, false>("fp12 over 7", 7, 100);
}
#elif PART == 1
using namespace nil::crypto3::algebra::fields;
template<class V>
static V draw(vf::rng &g) {
    V v;
    if constexpr (is_tower<V>::value) {
        for (auto &c : v.data) {
            c = draw<std::decay_t<decltype(c)>>(g);
        }
    } else {
        typename V::integral_type n(g() % 5);
        const unsigned limbs = g.below(10);
        for (unsigned i = 0; i < limbs; ++i) {
            v = v * V(typename V::integral_type(0x100000000ull % 65521)) * V(typename V::integral_type(65536)) + V(typename V::integral_type(g() & 0xffff));
        }
        v = v + V(n);
    }
    return v;
}
template<class V, bool Hashed>
static void type(const char *name) {
    vf::rng g(vf::seed());
    std::vector<V> xs {V::zero(), V::one(), -V::one(), V::one() + V::one()};
    for (std::size_t i = 0; i < vf::n(40, 1000); ++i) {
        xs.push_back(draw<V>(g));
    }
    for (const V &a : xs) {
        record(name, a);
    }
    consistent<V, Hashed>(name, xs);
}
template<class F>
static void prime(const char *name) {
    type<typename F::value_type, true>(name);
}
VF_MAIN("c28") {
    prime<goldilocks64_base_field>("goldilocks64");
    prime<bls12_base_field<381>>("bls12_381_fq");
    prime<bls12_scalar_field<381>>("bls12_381_fr");
    prime<pallas_base_field>("pallas_fq");
    prime<vesta_base_field>("vesta_fq");
    prime<curve25519_base_field>("curve25519_fq");
    prime<secp_k1_base_field<256>>("secp256k1_fq");
    prime<secp_r1_base_field<521>>("secp521r1_fq");
    prime<mnt4_base_field<298>>("mnt4_fq");
    type<fp2<bls12_base_field<381>>::value_type, true>("bls12_381 fp2");
    type<fp2<alt_bn128_base_field<254>>::value_type, true>("alt_bn128 fp2");
    type<fp2<mnt4_base_field<298>>::value_type, true>("mnt4 fp2");
    type<fp3<mnt6_base_field<298>>::value_type, false>("mnt6 fp3");
    type<fp4<mnt4_base_field<298>>::value_type, false>("mnt4 fp4");
    type<fp6_3over2<bls12_base_field<381>>::value_type, false>("bls12_381 fp6");
    type<fp6_2over3<mnt6_base_field<298>>::value_type, false>("mnt6 fp6");
    type<fp12_2over3over2<bls12_base_field<381>>::value_type, false>("bls12_381 fp12");
}
#else
#define HAS(name, expr)                       \
    template<class V, class = void>           \
    struct name : std::false_type { };        \
    template<class V>                         \
    struct name<V, std::void_t<decltype(expr)>> : std::true_type { };
HAS(has_z, std::declval<const V &>().Z)
HAS(has_t, std::declval<const V &>().T)
template<class V>
static std::string object(const V &p) {
    std::string s = "{\"X\":" + plain(p.X) + ",\"Y\":" + plain(p.Y);
    if constexpr (has_t<V>::value) {
        s += ",\"T\":" + plain(p.T);
    }
    if constexpr (has_z<V>::value) {
        s += ",\"Z\":" + plain(p.Z);
    }
    return s + "}";
}
template<class G>
static void points(const char *name, const char *coordinates) {
    typedef typename G::value_type V;
    const std::string what = vf::cat(name, coordinates);
    const V one = V::one();
    std::vector<V> ps {one, -one, one + one, one + one + one};
    for (std::size_t i = 0; i < vf::n(12, 200); ++i) {
        ps.push_back(ps.back() + ps[ps.size() / 2]);
    }
    ps.push_back(V::zero());
    std::map<std::string, std::string> seen;
    for (const V &p : ps) {
        const std::string w = object(p);
        vf::at(vf::cat("printing", what, w));
        const std::string t = printed(p);
        record(what.c_str(), w, t);
        const V q = p;
        vf::check(printed(q) == t, "a copy prints alike", vf::hash(what + w), true, [&] { return vf::cat(what, w, "and its copy differ"); });
        const auto ins = seen.insert({t, w});
        vf::check(ins.first->second == w, "different points print differently", vf::hash(what + w), true, [&] { return vf::cat(what, w, "and", ins.first->second, "print", t); });
    }
}
template<class V>
static V scalar(vf::rng &g) {
    V v;
    if constexpr (is_tower<V>::value) {
        for (auto &c : v.data) {
            c = scalar<std::decay_t<decltype(c)>>(g);
        }
    } else {
        for (int i = 0; i < 6; ++i) {
            v = v * V(typename V::integral_type(1u << 31)) + V(typename V::integral_type(g() >> 34));
        }
    }
    return v;
}
template<class V>
static std::string pair(const char *key, const V &v) {
    return "\"" + std::string(key) + "\":" + plain(v);
}
#define ROW(...) [&](const auto &c) { return row({__VA_ARGS__}); }
static std::string row(std::initializer_list<std::string> l) {
    std::string s = "[";
    for (const auto &x : l) {
        s += (s.size() > 1 ? "," : "") + x;
    }
    return s + "]";
}
template<class L, class F>
static std::string rows(const L &l, const F &f) {
    std::string s = "[";
    for (const auto &c : l) {
        s += (s.size() > 1 ? "," : "") + f(c);
    }
    return s + "]";
}
#if GROUP == 0
template<class C>
static void precomputed(const char *name) {
    typedef nil::crypto3::algebra::pairing::detail::short_weierstrass_jacobian_with_a4_0_types_policy<C> policy;
    vf::rng g(vf::seed());
    for (std::size_t n : {0u, 1u, 2u, 3u, 7u, 68u}) {
        typename policy::ate_g1_precomputed_type p {scalar<typename policy::g1_field_value_type>(g), scalar<typename policy::g1_field_value_type>(g)};
        vf::at(vf::cat("printing precomputations of", name, n));
        record(vf::cat(name, "g1 precomputation").c_str(), "{" + pair("PX", p.PX) + "," + pair("PY", p.PY) + "}", printed(p));
        typename policy::ate_g2_precomputed_type q;
        typedef typename policy::g2_field_value_type V;
        q.QX = scalar<V>(g);
        q.QY = scalar<V>(g);
        for (std::size_t i = 0; i < n; ++i) {
            q.coeffs.push_back({scalar<V>(g), scalar<V>(g), scalar<V>(g)});
        }
        record(vf::cat(name, "g2 precomputation of", n, "coefficients").c_str(), "{" + pair("QX", q.QX) + "," + pair("QY", q.QY) + ",\"coeffs\":" + rows(q.coeffs, ROW(plain(c.ell_0), plain(c.ell_VW), plain(c.ell_VV))) + "}", printed(q));
    }
}
#elif GROUP == 4
template<class C>
static void precomputed(const char *name) {
    typedef nil::crypto3::algebra::pairing::detail::short_weierstrass_projective_types_policy<C> policy;
    typedef typename policy::g1_field_value_type U;
    typedef typename policy::g2_field_value_type V;
    vf::rng g(vf::seed());
    for (std::size_t n : {0u, 1u, 2u, 3u, 7u}) {
        for (std::size_t m : {0u, 1u, 3u}) {
            typename policy::ate_g1_precomputed_type p {scalar<U>(g), scalar<U>(g), scalar<V>(g), scalar<V>(g)};
            vf::at(vf::cat("printing precomputations of", name, n, m));
            record(vf::cat(name, "g1 precomputation").c_str(), "{" + pair("PX", p.PX) + "," + pair("PY", p.PY) + "," + pair("PX_twist", p.PX_twist) + "," + pair("PY_twist", p.PY_twist) + "}", printed(p));
            typename policy::ate_g2_precomputed_type q;
            for (V *v : {&q.QX, &q.QY, &q.QY2, &q.QX_over_twist, &q.QY_over_twist}) {
                *v = scalar<V>(g);
            }
            for (std::size_t i = 0; i < n; ++i) {
                q.dbl_coeffs.push_back({scalar<V>(g), scalar<V>(g), scalar<V>(g), scalar<V>(g)});
            }
            for (std::size_t i = 0; i < m; ++i) {
                q.add_coeffs.push_back({scalar<V>(g), scalar<V>(g)});
            }
            record(vf::cat(name, "g2 precomputation of", n, "and", m, "coefficients").c_str(),
                   "{" + pair("QX", q.QX) + "," + pair("QY", q.QY) + "," + pair("QY2", q.QY2) + "," + pair("QX_over_twist", q.QX_over_twist) + "," + pair("QY_over_twist", q.QY_over_twist) + ",\"dbl_coeffs\":" +
                       rows(q.dbl_coeffs, ROW(plain(c.c_H), plain(c.c_4C), plain(c.c_J), plain(c.c_L))) + ",\"add_coeffs\":" + rows(q.add_coeffs, ROW(plain(c.c_L1), plain(c.c_RZ))) + "}",
                   printed(q));
        }
    }
}
#endif
VF_MAIN("c28") {
#define X(name, coordinates, ...) points<__VA_ARGS__>(name, coordinates);
    CURVE_LIST(X)
#if GROUP == 0
    precomputed<curves::bls12<381>>("bls12_381");
#elif GROUP == 4
    precomputed<curves::mnt4<298>>("mnt4");
    precomputed<curves::mnt6<298>>("mnt6");
#endif
}
#endif
