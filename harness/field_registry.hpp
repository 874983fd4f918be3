// The predefined fields, in groups of similar compile cost (GROUP selects one): FIELD_LIST(X) expands X("name", type).
#ifndef VERIF_FIELD_REGISTRY_HPP
#define VERIF_FIELD_REGISTRY_HPP
#include <array>
#include <cassert>
#include <iostream>
#include <vector>
#include "vf.hpp"
#if GROUP == 0
#include <nil/crypto3/algebra/fields/bls12/base_field.hpp>
#include <nil/crypto3/algebra/fields/bls12/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/jubjub/base_field.hpp>
#include <nil/crypto3/algebra/fields/jubjub/scalar_field.hpp>
#define FIELD_LIST(X)                          \
    X("bls12_381_fq", bls12_base_field<381>)   \
    X("bls12_377_fq", bls12_base_field<377>)   \
    X("bls12_381_fr", bls12_scalar_field<381>) \
    X("bls12_377_fr", bls12_scalar_field<377>) \
    X("jubjub_fq", jubjub_base_field)          \
    X("jubjub_fr", jubjub_scalar_field)
#elif GROUP == 1
#include <nil/crypto3/algebra/fields/alt_bn128/base_field.hpp>
#include <nil/crypto3/algebra/fields/alt_bn128/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/bn128/base_field.hpp>
#include <nil/crypto3/algebra/fields/bn128/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/babyjubjub/base_field.hpp>
#include <nil/crypto3/algebra/fields/babyjubjub/scalar_field.hpp>
#define FIELD_LIST(X)                             \
    X("alt_bn128_fq", alt_bn128_base_field<254>)   \
    X("alt_bn128_fr", alt_bn128_scalar_field<254>) \
    X("bn128_fq", bn128_base_field<254>)           \
    X("bn128_fr", bn128_scalar_field<254>)         \
    X("babyjubjub_fq", babyjubjub_base_field)      \
    X("babyjubjub_fr", babyjubjub_scalar_field)
#elif GROUP == 2
#include <nil/crypto3/algebra/fields/mnt4/base_field.hpp>
#include <nil/crypto3/algebra/fields/mnt4/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/mnt6/base_field.hpp>
#include <nil/crypto3/algebra/fields/mnt6/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/edwards/base_field.hpp>
#include <nil/crypto3/algebra/fields/edwards/scalar_field.hpp>
#define FIELD_LIST(X)                        \
    X("mnt4_fq", mnt4_base_field<298>)       \
    X("mnt4_fr", mnt4_scalar_field<298>)     \
    X("mnt6_fq", mnt6_base_field<298>)       \
    X("mnt6_fr", mnt6_scalar_field<298>)     \
    X("edwards_fq", edwards_base_field<183>) \
    X("edwards_fr", edwards_scalar_field<183>)
#elif GROUP == 3
#include <nil/crypto3/algebra/fields/goldilocks64/base_field.hpp>
#include <nil/crypto3/algebra/fields/pallas/base_field.hpp>
#include <nil/crypto3/algebra/fields/pallas/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/vesta/base_field.hpp>
#include <nil/crypto3/algebra/fields/vesta/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/curve25519/base_field.hpp>
#include <nil/crypto3/algebra/fields/curve25519/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/maxprime.hpp>
#define FIELD_LIST(X)                           \
    X("goldilocks64", goldilocks64_base_field)  \
    X("maxprime64", maxprime<64>)               \
    X("pallas_fq", pallas_base_field)           \
    X("pallas_fr", pallas_scalar_field)         \
    X("vesta_fq", vesta_base_field)             \
    X("vesta_fr", vesta_scalar_field)           \
    X("curve25519_fq", curve25519_base_field)   \
    X("curve25519_fr", curve25519_scalar_field)
#elif GROUP == 4
#include <nil/crypto3/algebra/fields/secp/secp_k1/base_field.hpp>
#include <nil/crypto3/algebra/fields/secp/secp_k1/scalar_field.hpp>
#define FIELD_LIST(X)                           \
    X("secp160k1_fq", secp_k1_base_field<160>)   \
    X("secp192k1_fq", secp_k1_base_field<192>)   \
    X("secp224k1_fq", secp_k1_base_field<224>)   \
    X("secp256k1_fq", secp_k1_base_field<256>)   \
    X("secp160k1_fr", secp_k1_scalar_field<160>) \
    X("secp192k1_fr", secp_k1_scalar_field<192>) \
    X("secp224k1_fr", secp_k1_scalar_field<224>) \
    X("secp256k1_fr", secp_k1_scalar_field<256>)
#elif GROUP == 5
#include <nil/crypto3/algebra/fields/secp/secp_r1/base_field.hpp>
#define FIELD_LIST(X)                          \
    X("secp160r1_fq", secp_r1_base_field<160>) \
    X("secp192r1_fq", secp_r1_base_field<192>) \
    X("secp224r1_fq", secp_r1_base_field<224>) \
    X("secp256r1_fq", secp_r1_base_field<256>) \
    X("secp384r1_fq", secp_r1_base_field<384>) \
    X("secp521r1_fq", secp_r1_base_field<521>)
#elif GROUP == 6
#include <nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp>
#define FIELD_LIST(X)                            \
    X("secp160r1_fr", secp_r1_scalar_field<160>) \
    X("secp192r1_fr", secp_r1_scalar_field<192>) \
    X("secp224r1_fr", secp_r1_scalar_field<224>) \
    X("secp256r1_fr", secp_r1_scalar_field<256>) \
    X("secp384r1_fr", secp_r1_scalar_field<384>) \
    X("secp521r1_fr", secp_r1_scalar_field<521>)
#elif GROUP == 7
#include <nil/crypto3/algebra/fields/gost_A/base_field.hpp>
#include <nil/crypto3/algebra/fields/gost_A/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/sm2p_v1/base_field.hpp>
#include <nil/crypto3/algebra/fields/sm2p_v1/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/frp_v1/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/sect/sect_k1/scalar_field.hpp>
#define FIELD_LIST(X)                         \
    X("gost_A_fq", gost_A_base_field<256>)    \
    X("gost_A_fr", gost_A_scalar_field<256>)  \
    X("sm2p_fq", sm2p_v1_base_field<256>)     \
    X("sm2p_fr", sm2p_v1_scalar_field<256>)   \
    X("frp_fr", frp_v1_scalar_field<256>)     \
    X("sect163k1_fr", sect_k1_scalar_field<163>)
#elif GROUP == 8
#include <nil/crypto3/algebra/fields/dsa_jce.hpp>
#include <nil/crypto3/algebra/fields/modp_srp.hpp>
#define FIELD_LIST(X)                \
    X("dsa_jce_1024", dsa_jce<1024>) \
    X("srp_1024", modp_srp<1024>)
#endif
namespace fields = nil::crypto3::algebra::fields;

namespace vfreg {
    // canonical value in hex
    template<class Number>
    std::string hex(const Number &n) {
        std::ostringstream o;
        o << std::hex << n;
        return o.str();
    }
    template<class V>
    std::string hexv(const V &v) {
        return hex(typename V::integral_type(v.data));
    }
    // pseudo-random and edge-case values below the modulus
    template<class F>
    typename F::integral_type value(vf::rng &g, int kind) {
        typedef typename F::integral_type I;
        I m = F::modulus;
        switch (kind) {
            case 0:
                return I(0u);
            case 1:
                return I(1u);
            case 2:
                return m - 1u;
            case 3:
                return I(2u);
            case 4:
                return (m - 1u) / 2u;
            case 5:
                return (m + 0u) / 2u + 1u;
            case 6:
                return I(3u);
            case 7:
                return m - 2u;
            default:
                break;
        }
        boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<F::modulus_bits + 64>> r(0u);
        std::size_t keep = g.below(8) == 0 ? 1 + g.below(F::modulus_bits) : F::modulus_bits + 64;    // sometimes short
        for (std::size_t i = 0; i < (F::modulus_bits + 127) / 64; ++i) {
            r <<= 64;
            r |= decltype(r)(g());
        }
        r >>= (F::modulus_bits + 64 - keep);
        return I(r % decltype(r)(m));
    }
}    // namespace vfreg
#endif
