// Serialisation. Every encoding and decoding is recorded and judged offline by lib/marshalling_oracle.py.
// The library rejects malformed input by assertion; the assertion handler here turns that into a recorded rejection.
#define BOOST_ENABLE_ASSERT_HANDLER
#include "vf.hpp"
#include <boost/range/concepts.hpp>
#include <boost/assert.hpp>
struct rejected {};
namespace boost {
    void assertion_failed(char const *, char const *, char const *, long) {
        throw rejected();
    }
    void assertion_failed_msg(char const *, char const *, char const *, char const *, long) {
        throw rejected();
    }
}    // namespace boost
#include <nil/crypto3/algebra/type_traits.hpp>
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/pairing/bls12.hpp>
#include <nil/crypto3/algebra/marshalling.hpp>
#include <nil/crypto3/algebra/fields/goldilocks64/base_field.hpp>
#include <nil/crypto3/algebra/fields/secp/secp_k1/base_field.hpp>
#include <nil/crypto3/algebra/fields/mnt4/base_field.hpp>
#include <nil/crypto3/algebra/fields/curve25519/base_field.hpp>
#include <nil/crypto3/algebra/fields/vesta/base_field.hpp>
#include "marshalling_points.hpp"

using namespace nil::crypto3::algebra;
typedef curves::bls12_381 curve_t;
typedef nil::marshalling::curve_element_serializer<curve_t> ser;
typedef nil::marshalling::bincode::curve<curve_t> bc;
typedef std::vector<std::uint8_t> bytes;
static vf::rng &rnd() {
    static vf::rng r(vf::seed());
    return r;
}

__attribute__((noinline)) static std::string hex(const bytes &b) {
    static const char *d = "0123456789abcdef";
    std::string s;
    for (auto x : b) {
        s += d[x >> 4];
        s += d[x & 15];
    }
    return s.empty() ? "-" : s;
}
template<class R>
static bytes vec(const R &r) {
    return bytes(r.begin(), r.end());
}
__attribute__((noinline)) static void ev(const std::string &a, const std::string &b, const std::string &c) {
    std::printf("T\t%s\t%s\t%s\n", a.c_str(), b.c_str(), c.c_str());
}
template<class V>
static auto str(const V &v) -> decltype((void)v.data.backend(), std::string()) {
    std::ostringstream o;
    o << std::hex << typename V::integral_type(v.data);
    return o.str();
}
template<class V>
static auto str(const V &v) -> decltype((void)v.data[0].data, std::string()) {
    std::string s;
    for (const auto &c : v.data) {
        s += (s.empty() ? "" : ",") + str(c);
    }
    return s;
}
template<class V>
static std::string tuple(const V &p) {
    return str(p.X) + ";" + str(p.Y) + ";" + str(p.Z);
}

template<class F>
static std::string guarded(F f) {
    try {
        return f();
    } catch (const rejected &) {
        return "rejected";
    }
}

typedef ser::g1_value_type g1v;
typedef ser::g2_value_type g2v;
static g1v of(const bytes &b, std::integral_constant<int, 1>, bool array) {
    if (array && b.size() == 48) {
        ser::compressed_g1_octets a;
        std::copy(b.begin(), b.end(), a.begin());
        return ser::octets_to_g1_point(a);
    }
    if (array && b.size() == 96) {
        ser::uncompressed_g1_octets a;
        std::copy(b.begin(), b.end(), a.begin());
        return ser::octets_to_g1_point(a);
    }
    return ser::octets_to_g1_point(b);
}
static g2v of(const bytes &b, std::integral_constant<int, 2>, bool array) {
    if (array && b.size() == 96) {
        ser::compressed_g2_octets a;
        std::copy(b.begin(), b.end(), a.begin());
        return ser::octets_to_g2_point(a);
    }
    if (array && b.size() == 192) {
        ser::uncompressed_g2_octets a;
        std::copy(b.begin(), b.end(), a.begin());
        return ser::octets_to_g2_point(a);
    }
    return ser::octets_to_g2_point(b);
}

template<int G>
static void dec(const bytes &b) {
    if (b.empty()) {
        return;
    }
    const std::string g = "g" + std::to_string(G), h = hex(b);
    vf::at("decode " + g + " " + h);
    for (int array = 0; array < 2; ++array) {
        ev("dec." + g + (array ? ".array" : ".vector"), h, guarded([&] { return tuple(of(b, std::integral_constant<int, G>(), array)); }));
    }
    if (b.size() == 48 * G) {
        // the bincode front end, from a non-contiguous range as well
        ev("dec." + g + ".bincode", h, guarded([&] {
               if constexpr (G == 1) {
                   return tuple(bc::g1_point_from_bytes(b.begin(), b.end()));
               } else {
                   return tuple(bc::g2_point_from_bytes(b.begin(), b.end()));
               }
           }));
    }
}

template<int G, class Group, class V>
static void enc(const V &p, bool back) {
    const std::string g = "g" + std::to_string(G), t = tuple(p);
    vf::at("encode " + g + " " + t);
    const bytes c = vec(ser::point_to_octets_compress(p)), u = vec(ser::point_to_octets(p));
    ev("enc." + g + ".compressed", t, hex(c));
    ev("enc." + g + ".uncompressed", t, hex(u));
    for (int fill = 0; fill < 256; fill += 255) {
        bytes o(48 * G, std::uint8_t(fill));
        const auto n = bc::template point_to_bytes<Group>(p, o.begin(), o.end());
        ev("enc." + g + ".bincode", t, hex(o));
        if (n != o.size()) {
            vf::violation("bincode.point_to_bytes", "returned a size other than that of the encoding: " + std::to_string(n));
        }
    }
    if (back) {
        dec<G>(c);
        dec<G>(u);
    }
}

template<int G, class Group>
static void group(unsigned n) {
    typedef typename Group::value_type V;
    typedef typename V::field_type::value_type E;
    typedef typename curve_t::scalar_field_type::integral_type S;
    typedef typename curve_t::base_field_type::integral_type I;
    std::vector<V> pts;
    pts.push_back(V::zero());
    pts.push_back(V::one());
    pts.push_back(-V::one());
    V p = V::one();
    for (unsigned i = 0; i < n; ++i) {
        S k = 1u;
        for (int j = 0; j < 4; ++j) {
            k = (k << 62) + S(rnd()() >> 2);
        }
        k %= curve_t::scalar_field_type::modulus;
        p = (i & 1) ? p + V::one() : V::one() * k;
        pts.push_back(p);
        pts.push_back(-p);
    }
    for (std::size_t i = 0; i < pts.size(); ++i) {
        enc<G, Group>(pts[i], true);
        if (!pts[i].is_zero()) {
            // the same point in another representative, and scaled to Z = 1
            const auto a = pts[i].to_affine();
            enc<G, Group>(V(a.X, a.Y, E::one()), false);
            E z = E::one();
            z = z + z + z;
            z = z.pow(rnd()() | 1u);
            enc<G, Group>(V(a.X * z.squared(), a.Y * z.squared() * z, z), false);
        } else {
            enc<G, Group>(V(E::one() + E::one(), E::one(), E::zero()), false);
        }
    }
    // points whose ordinate lies at a boundary of the sign rule
    auto el = [](const char *h) {
        I v = 0u;
        for (; *h; ++h) {
            v = (v << 4) + I(unsigned(*h <= '9' ? *h - '0' : *h - 'a' + 10));
        }
        return typename curve_t::base_field_type::value_type(v);
    };
    if constexpr (G == 1) {
        for (const auto &b : boundary_g1) {
            const V q(el(b[0]), el(b[1]), E::one());
            enc<G, Group>(q, true);
            enc<G, Group>(-q, true);
        }
    } else {
        for (const auto &b : boundary_g2) {
            const V q(E(el(b[0]), el(b[1])), E(el(b[2]), el(b[3])), E::one());
            enc<G, Group>(q, true);
            enc<G, Group>(-q, true);
        }
    }
    // malformed variations of real encodings
    const std::size_t len = 48 * G;
    bytes inf(len, 0), uinf(2 * len, 0);
    for (unsigned top = 0; top < 8; ++top) {
        for (auto b : {inf, uinf}) {
            b[0] = std::uint8_t(top << 5);
            dec<G>(b);
            for (std::size_t pos : {std::size_t(0), std::size_t(1), b.size() / 2, b.size() - 1}) {
                for (unsigned v : {1u, 2u, 0x10u, 0xffu}) {
                    bytes c = b;
                    c[pos] |= std::uint8_t(pos ? v : v & 0x1f);
                    if (c != b) {
                        dec<G>(c);
                    }
                }
            }
        }
        for (std::size_t i = 1; i < pts.size() && i < 5; ++i) {
            for (auto b : {vec(ser::point_to_octets_compress(pts[i])), bytes(vec(ser::point_to_octets(pts[i])))}) {
                b[0] = std::uint8_t((b[0] & 0x1f) | top << 5);
                dec<G>(b);
            }
        }
    }
    // coordinates that are not canonical: x + p where that fits in 381 bits, p itself, and 2^381 - 1
    for (std::size_t i = 1; i < pts.size() && i < 9; ++i) {
        for (auto b : {vec(ser::point_to_octets_compress(pts[i])), bytes(vec(ser::point_to_octets(pts[i])))}) {
            const std::uint8_t top = b[0] & 0xe0;
            for (std::size_t c = 0; c < b.size() / 48; ++c) {
                for (unsigned kind = 0; kind < 3; ++kind) {
                    bytes q = b;
                    q[0] &= 0x1f;
                    I v;
                    boost::multiprecision::import_bits(v, q.begin() + 48 * c, q.begin() + 48 * (c + 1), 8, true);
                    const I m = curve_t::base_field_type::modulus;
                    const I room = ~I(0u) - m;
                    if (kind == 0 && !(v <= room)) {
                        // make it fit: some small coordinate (then not this point any more)
                        v = I(rnd()());
                    }
                    v = kind == 0 ? v + m : kind == 1 ? m : ~I(0u);
                    std::fill(q.begin() + 48 * c, q.begin() + 48 * (c + 1), 0);
                    std::reverse_iterator<bytes::iterator> out(q.begin() + 48 * (c + 1));
                    boost::multiprecision::export_bits(v, out, 8, false);
                    q[0] |= top;
                    dec<G>(q);
                }
            }
        }
    }
    // the bits the octets have beyond the length of the modulus, in the coordinates after the first
    for (std::size_t i = 1; i < pts.size() && i < 9; ++i) {
        for (auto b : {vec(ser::point_to_octets_compress(pts[i])), bytes(vec(ser::point_to_octets(pts[i])))}) {
            for (std::size_t c = 1; c < b.size() / 48; ++c) {
                for (unsigned bit = 5; bit < 8; ++bit) {
                    bytes q = b;
                    q[48 * c] ^= std::uint8_t(1u << bit);
                    dec<G>(q);
                }
            }
        }
    }
    // small and random x coordinates: off the curve, or on it and perhaps outside the subgroup
    for (unsigned i = 0; i < 4 * n + 12; ++i) {
        bytes b(len, 0);
        if (i < 12) {
            b[len - 1] = std::uint8_t(i % 6);
        } else {
            for (auto &x : b) {
                x = std::uint8_t(rnd()());
            }
            b[0] &= 0x0f;
        }
        b[48 * (G - 1)] &= 0x0f;
        b[0] |= std::uint8_t(0x80 | (i & 1) << 5);
        dec<G>(b);
        bytes u = vec(ser::point_to_octets(pts[1 + i % (pts.size() - 1)]));
        u[1 + rnd().below(u.size() - 1)] ^= std::uint8_t(1u << rnd().below(8));
        dec<G>(u);
    }
    // lengths
    for (std::size_t i = 0; i < pts.size() && i < 3; ++i) {
        for (auto b : {vec(ser::point_to_octets_compress(pts[i])), bytes(vec(ser::point_to_octets(pts[i])))}) {
            bytes s(b.begin(), b.end() - 1), l = b, one(b.begin(), b.begin() + 1), dbl = b;
            l.push_back(0);
            dbl.insert(dbl.end(), b.begin(), b.end());
            dec<G>(s);
            dec<G>(l);
            dec<G>(one);
            dec<G>(dbl);
        }
    }
}

// a field by its own codec, or through the front end of the curve it belongs to
template<class F>
struct own_codec : nil::marshalling::bincode::field<F> {};
template<class F>
struct curve_codec {
    static constexpr std::size_t modulus_chunks = nil::marshalling::bincode::field<F>::modulus_chunks;
    static constexpr std::size_t get_element_size() {
        return nil::marshalling::bincode::field<F>::get_element_size();
    }
    template<class It>
    static auto field_element_from_bytes(It a, It b) {
        return bc::field_element_from_bytes<F>(a, b);
    }
    template<class It>
    static std::size_t field_element_to_bytes(const typename F::value_type &v, It a, It b) {
        return bc::field_element_to_bytes<F>(v, a, b);
    }
};
template<class T>
static void size_of(const char *name, std::size_t want) {
    constexpr std::size_t n = bc::element_size<T>();
    vf::count("evaluations");
    vf::count("op:element_size");
    if (n != want) {
        vf::violation("element_size", vf::cat(name, "takes", want, "octets, not", n));
    }
}
template<class F, class fs = own_codec<F>>
static void field(const char *name, const std::vector<typename F::value_type> &vals) {
    const std::size_t n = fs::get_element_size();
    vf::count("fields");
    auto from = [&](const bytes &b) {
        vf::at(std::string("field_element_from_bytes ") + name + " " + hex(b));
        ev(std::string("fdec.") + name, hex(b), guarded([&] {
               const auto r = fs::field_element_from_bytes(b.begin(), b.end());
               return std::string(r.first ? "1;" : "0;") + str(r.second);
           }));
    };
    for (const auto &v : vals) {
        const std::string t = str(v);
        vf::at(std::string("field_element_to_bytes ") + name + " " + t);
        for (int fill = 0; fill < 256; fill += 255) {
            bytes o(n, std::uint8_t(fill));
            const auto w = fs::field_element_to_bytes(v, o.begin(), o.end());
            ev(std::string("fenc.") + name, t, hex(o));
            if (w != n) {
                vf::violation("field_element_to_bytes", "returned a size other than that of the encoding");
            }
            from(o);
        }
    }
    // values at and above the modulus, coordinate by coordinate
    typedef typename F::integral_type I;
    const std::size_t chunk = fs::modulus_chunks;
    for (std::size_t c = 0; c < n / chunk; ++c) {
        // the bits the octets have beyond the length of the modulus
        for (unsigned bit = F::modulus_bits; bit < chunk * 8; ++bit) {
            for (unsigned z = 0; z < 3; ++z) {
                bytes b(n, 0);
                b[c * chunk] = z > 0;
                b[(c + 1) * chunk - 1] = std::uint8_t(1u << bit % 8);
                if (z == 2) {
                    fs::field_element_to_bytes(vals.back(), b.begin(), b.end());
                    b[(c + 1) * chunk - 1] |= std::uint8_t(1u << bit % 8);
                }
                from(b);
            }
        }
        for (unsigned kind = 0; kind < 3; ++kind) {
            bytes b(n, 0);
            const I m = F::modulus;
            const I v = kind == 0 ? I(m - 1u) : kind == 1 ? m : ~I(0u);
            boost::multiprecision::export_bits(v, b.begin() + c * chunk, 8, false);
            from(b);
        }
        for (unsigned i = 0; i < 6; ++i) {
            bytes b(n);
            for (auto &x : b) {
                x = std::uint8_t(rnd()());
            }
            from(b);
            const unsigned extra = unsigned(chunk * 8 - F::modulus_bits);
            for (std::size_t k = 1; k <= n / chunk; ++k) {
                b[k * chunk - 1] &= std::uint8_t(0xff >> extra);
            }
            from(b);
        }
    }
    bytes s(n - 1, 1), l(n + 1, 1);
    from(s);
    from(l);
}
template<class F>
static std::vector<typename F::value_type> prime_values() {
    typedef typename F::value_type V;
    typedef typename F::integral_type I;
    std::vector<V> r {V(0u), V(1u), V(2u), V(255u), V(256u), -V(1u)};
    for (unsigned b = 8; b + 1 < F::modulus_bits; b += 24) {
        r.push_back(V(I(1u) << b));
        r.push_back(V((I(1u) << b) - 1u));
    }
    for (int i = 0; i < 8; ++i) {
        V v = V(rnd()());
        r.push_back(v);
        r.push_back(v.pow(unsigned(rnd().below(1000) + 20)));
    }
    return r;
}
template<class F>
static void prime(const char *name) {
    field<F>(name, prime_values<F>());
}
template<class F>
static void of_curve(const char *name, const std::vector<typename F::value_type> &v) {
    field<F>(name, v);
    field<F, curve_codec<F>>(name, v);
}

VF_MAIN("c23") {
#if PART == 0
    group<1, curve_t::g1_type<>>(vf::n(4, 24));
#elif PART == 1
    group<2, curve_t::g2_type<>>(vf::n(3, 16));
#else
    of_curve<curve_t::scalar_field_type>("bls12_381_fr", prime_values<curve_t::scalar_field_type>());
    of_curve<curve_t::base_field_type>("bls12_381_fp", prime_values<curve_t::base_field_type>());
    prime<fields::goldilocks64_base_field>("goldilocks64");
    prime<fields::secp_k1_base_field<256>>("secp256k1");
    prime<fields::mnt4_base_field<298>>("mnt4_298");
    prime<fields::curve25519_base_field>("ed25519");
    prime<fields::vesta_base_field>("vesta");
    {
        typedef curve_t::g2_type<>::field_type F2;
        const auto b = prime_values<curve_t::base_field_type>();
        std::vector<F2::value_type> v;
        for (std::size_t i = 0; i < b.size(); ++i) {
            v.push_back(F2::value_type(b[i], b[(i * 7 + 3) % b.size()]));
        }
        of_curve<F2>("bls12_381_fp2", v);
        typedef curve_t::gt_type F12;
        std::vector<F12::value_type> w;
        for (std::size_t i = 0; i < b.size(); i += 5) {
            F12::value_type x;
            std::size_t k = i;
            for (auto &h : x.data) {
                for (auto &q : h.data) {
                    for (auto &e : q.data) {
                        e = b[k++ % b.size()];
                    }
                }
            }
            w.push_back(x);
        }
        size_of<curve_t::scalar_field_type>("bls12_381_fr", 32);
        size_of<curve_t::base_field_type>("bls12_381_fp", 48);
        size_of<F12>("bls12_381_fp12", 576);
        size_of<bc::g1_type>("bls12_381_g1", 48);
        size_of<bc::g2_type>("bls12_381_g2", 96);
        of_curve<F12>("bls12_381_fp12", w);
    }
#endif
}
