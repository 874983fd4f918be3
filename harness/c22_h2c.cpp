// Map-to-curve. CURVE 0: bls12-381 G1, 1: bls12-381 G2, recorded and judged offline by lib/h2c_oracle.py;
// 2: the simplified SWU template over tiny fields, every parameter set and every input, judged here.
#include "vf.hpp"
#include <nil/crypto3/algebra/curves/detail/h2c/h2c_m2c.hpp>
#if CURVE == 2
#include "small_field.hpp"

struct tiny_point {
    unsigned long long x, y, z;
    template<class V>
    tiny_point(const V &a, const V &b, const V &c) : x(vfield::canon(a)), y(vfield::canon(b)), z(vfield::canon(c)) {}
};
template<unsigned P>
struct tiny_group {
    typedef vfield::small_field<P> field_type;
};
namespace nil {
    namespace crypto3 {
        namespace algebra {
            namespace curves {
                namespace detail {
                    template<unsigned P>
                    struct h2c_suite<tiny_group<P>> {
                        typedef tiny_point group_value_type;
                        typedef typename tiny_group<P>::field_type::value_type field_value_type;
                        static inline field_value_type Ai, Bi, Z;
                    };
                }    // namespace detail
            }        // namespace curves
        }            // namespace algebra
    }                // namespace crypto3
}    // namespace nil
namespace m2c = nil::crypto3::algebra::curves::detail;

template<unsigned P>
static void tiny(unsigned stride) {
    typedef m2c::h2c_suite<tiny_group<P>> suite;
    typedef typename suite::field_value_type V;
    const unsigned long long p = P;
    auto inv = [&](unsigned long long a) { return vfield::mpow(a, p - 2, p); };
    auto sq = [&](unsigned long long a) { return a == 0 || vfield::mpow(a, (p - 1) / 2, p) == 1; };
    unsigned k = 0;
    for (unsigned a = 1; a < p; ++a) {
        for (unsigned b = 1; b < p; ++b) {
            auto g = [&](unsigned long long x) { return (x * x % p * x + a * x + b) % p; };
            for (unsigned z = 1; z + 1 < p; ++z) {
                if (sq(z) || !sq(g(b * inv(z * a % p) % p))) {
                    continue;
                }
                bool root = false;
                for (unsigned x = 0; x < p; ++x) {
                    root |= g(x) == z;
                }
                if (root || k++ % stride) {
                    continue;
                }
                suite::Ai = V(a);
                suite::Bi = V(b);
                suite::Z = V(z);
                vf::count("parameter_sets");
                for (unsigned long long u = 0; u < p; ++u) {
                    char on[120];
                    std::snprintf(on, sizeof on, "p=%u A=%u B=%u Z=%u u=%llu", P, a, b, z, u);
                    vf::at(on);
                    const tiny_point r = m2c::m2c_simple_swu<tiny_group<P>>::process(V(u));
                    const unsigned long long zu = z * (u * u % p) % p, t = (zu * zu + zu) % p;
                    unsigned long long x = t ? (p - b) * inv(a) % p * (1 + inv(t)) % p : b * inv(z * a % p) % p;
                    const bool second = !sq(g(x));
                    if (second) {
                        x = zu * x % p;
                    }
                    vf::count(t == 0 ? "exceptional" : second ? "second_candidate" : "first_candidate");
                    vf::seen(vf::key(vf::key(P, a, b, z), u), u != 0);
                    const std::string d = std::string(on) + " gave (" + std::to_string(r.x) + "," + std::to_string(r.y) + "," + std::to_string(r.z) + ") x should be " + std::to_string(x);
                    vf::sample(d);
                    if (r.z != 1 || r.y * r.y % p != g(r.x)) {
                        vf::violation("swu_on_curve", d);
                    } else if (r.x != x) {
                        vf::violation("swu_published_map", d);
                    } else if (r.y && (r.y & 1) != (u & 1)) {
                        vf::violation("swu_sign", d);
                    }
                }
            }
        }
    }
}
static void body() {
    const unsigned s = vf::n(1, 1);
    tiny<7>(s);
    tiny<11>(s);
    tiny<13>(s);
    tiny<17>((unsigned)vf::n(3, 1));
    tiny<19>((unsigned)vf::n(5, 1));
    tiny<31>((unsigned)vf::n(97, 3));
    tiny<61>((unsigned)vf::n(4099, 61));
    tiny<257>(vf::thorough() ? 40009 : 1000003);
}
#else
#include <nil/crypto3/algebra/curves/bls12.hpp>
using namespace boost::multiprecision;
namespace m2c = nil::crypto3::algebra::curves::detail;
#if CURVE == 0
typedef nil::crypto3::algebra::curves::bls12_381::g1_type<> G;
#define NAME "bls12_381_g1"
#else
typedef nil::crypto3::algebra::curves::bls12_381::g2_type<> G;
#define NAME "bls12_381_g2"
#endif
typedef G::value_type P;
typedef G::field_type::value_type V;

template<class I>
__attribute__((noinline)) static std::string hex(const I &n) {
    std::ostringstream o;
    o << std::hex << n;
    return o.str();
}
static std::string flat(const V &v) {
#if CURVE == 0
    return hex(V::integral_type(v.data));
#else
    typedef V::underlying_type::integral_type I;
    return hex(I(v.data[0].data)) + "," + hex(I(v.data[1].data));
#endif
}
static std::string show(const P &p) {
    return flat(p.X) + ";" + flat(p.Y) + ";" + flat(p.Z);
}
#if CURVE == 0
static void draw(vf::rng &g, V &r) {
    const V t(g() >> 1);
    r = V(g() >> 1);
    for (int i = 0; i < 6; ++i) {
        r = r * t + V(g() >> 1);
    }
}
#else
static void draw(vf::rng &g, V &r) {
    for (auto &c : r.data) {
        const V::underlying_type t(g() >> 1);
        c = V::underlying_type(g() >> 1);
        for (int i = 0; i < 6; ++i) {
            c = c * t + V::underlying_type(g() >> 1);
        }
    }
}
#endif
static void emit(const char *op, const std::string &a, const std::string &r) {
    std::printf("T\t" NAME "\t%s\t%s\t%s\n", op, a.c_str(), r.c_str());
}
static void input(const V &u) {
    vf::at(NAME " map of " + flat(u));
    const P q = m2c::m2c_simple_swu<G>::process(u);
    emit("swu", flat(u), show(q));
    emit("iso", show(q), show(m2c::iso_map<G>::process(q)));
    emit("map", flat(u), show(m2c::map_to_curve<G>::process(u)));
}
static void point(const V &x, const V &y) {
    const P q(x, y, V::one());
    vf::at(NAME " isogeny of " + show(q));
    emit("iso", show(q), show(m2c::iso_map<G>::process(q)));
}
static void body() {
    vf::rng g(vf::seed() * 22 + CURVE);
    std::vector<V> in = {V::zero(), V::one(), -V::one(), V::one().doubled(), -V::one().doubled()};
#if CURVE == 0
    // the inputs of the published test vector
    in.push_back(V(0xba14bd907ad64a016293ee7c2d276b8eae71f25a4b941eece7b0d89f17f75cb3ae5438a614fb61d6835ad59f29c564f_cppui_modular381));
    in.push_back(V(0x19b9bd7979f12657976de2884c7cce192b82c177c80e0ec604436a7f538d231552f0d96d9f7babe5fa3b19b3ff25ac9_cppui_modular381));
    // Z u^2 = -1
    in.push_back(V(0x1f7462c8b6cbf74db38f4a9a3d71bda12f01df4948d09ff046edbdd403fc31088b69520ee5c57fb7cc51062bde821b8_cppui_modular381));
    // inputs mapped into the kernel of the isogeny
    in.push_back(V(0x146850b3bdc2495ed73bb803dfaa951a88abff0acb5c7aeac52b48f3c808e87ce3885b98ce916e17caef21a6cbc6b598_cppui_modular381));
    in.push_back(V(0xa92437e90bc473049ab549b4c4a145feb4fb5cd39f7ee85c11fa62a8f5317220b398be420ca5d8364d460f6ee1efd29_cppui_modular381));
    in.push_back(V(0x1377c0192d99508a317127abf17c64205c7aad448380027efb47ae73ea231dbd6ecd3f2841b63d309c35bb8fd13e48f0_cppui_modular381));
    in.push_back(V(0x854a3cb180882d5b1efc1c3cc5b3fb33b27cb739f1389986ca46e1c5cb5010d8a06fd781c63074868f316d95b8f8405_cppui_modular381));
    for (std::size_t i = 7; i < 12; ++i) {
        in.push_back(-in[i]);
    }
    const std::pair<V, V> kernel[] = {
        {V(0xd7f2d0d03ae035321eed4c1479d13251abf0e9a96479623eb5380b575e319851fb5e5a8b43b9c1a46880f54bf2b2f7c_cppui_modular381),
         V(0x59e4a8d101f0c51d351b3877c5197f07d08511978f9492dacd907f783f756008f967f1556f49e19032b4ecc3f415b40_cppui_modular381)},
        {V(0x10ef325dd1e98bdf0d97a4c6b7f968ed7f31f2fbff088acb39d5319cfc261ea18773405f325612742f0c5d90634bcf4_cppui_modular381),
         V(0xeb3efc0a8592166adb221f4b9158d9ff0d160ce6a2cc1a280b3ec28c01870fa13ca7cddd7ba78f6cd54fe36375cd5fd_cppui_modular381)},
        {V(0x105249b4cac630ce5aa18e6c1189a18c82019b4e12e491fbac012c259ca3a67f638560b8bb416af02a4724385ed0fc8e_cppui_modular381),
         V(0x1923e831e21a455d62ea044b16561a8a0631cdc6e47899e4638354895f4648dca18024ae43587b2125898a8b15312e2a_cppui_modular381)},
        {V(0x140d41735b10ce710727cd9356905701a2b866b803baa468948b7f423ddcc560c9a8f1cd5f8ed4297c37464fb8bfe4a7_cppui_modular381),
         V(0xdf4b0aa4097bb74ca3d1ed53ee02a7f26cc3caeed5ea50b84886a1e987a6fd65359b2845b348d5f4fac4a7611e9d869_cppui_modular381)},
        {V(0x1665a9c648e78314490a94f654d9b1039ab85847223bfaed9aa54f0f07736d122d1ceca1ac0e9123e753fde16e97c3d7_cppui_modular381),
         V(0x209f905ca78f41caa785024278ad0c8fcfac9fb6742de8684d972c14045cdd04a93a072eaf883a50b3c6484c456d56c_cppui_modular381)}};
    for (const auto &k : kernel) {
        point(k.first, k.second);
        point(k.first, -k.second);
    }
#else
    typedef V::underlying_type B;
    in.push_back(V(B(0x3dbc2cce174e91ba93cbb08f26b917f98194a2ea08d1cce75b2b9cc9f21689d80bd79b594a613d0a68eb807dfdc1cf8_cppui_modular381),
                   B(0x5a2acec64114845711a54199ea339abd125ba38253b70a92c876df10598bd1986b739cad67961eb94f7076511b3b39a_cppui_modular381)));
    in.push_back(V(B(0x2f99798e8a5acdeed60d7e18e9120521ba1f47ec090984662846bc825de191b5b7641148c0dbc237726a334473eee94_cppui_modular381),
                   B(0x145a81e418d4010cc027a68f14391b30074e89e60ee7a22f87217b2f6eb0c4b94c9115b436e6fa4607e95a98de30a435_cppui_modular381)));
    for (unsigned k = 0; k < 4; ++k) {
        V r;
        draw(g, r);
        r.data[k & 1] = B::zero();
        in.push_back(r);
        in.push_back(-r);
    }
#endif
    for (std::size_t i = 0, n = vf::n(10, 150); i < n; ++i) {
        V r;
        draw(g, r);
        in.push_back(r);
        in.push_back(-r);
    }
    for (const V &u : in) {
        input(u);
    }
}
#endif
VF_MAIN("c22_h2c") {
    body();
}
