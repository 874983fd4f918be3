// The predefined curves, in groups of one translation unit each: CURVE_LIST(X) with X(name, coordinates, group).
#ifndef VERIF_CURVE_REGISTRY
#define VERIF_CURVE_REGISTRY
#include <array>
#include <cassert>
#include <iostream>
#include <tuple>
#include <vector>
#include "vf.hpp"
#include <nil/crypto3/algebra/curves/forms.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
namespace curves = nil::crypto3::algebra::curves;
namespace coords = curves::coordinates;
typedef curves::forms forms;
#define JAC0_LIST(X, name, ...)                                                                    \
    X(name, "jacobian_a0", __VA_ARGS__<coords::jacobian_with_a4_0, forms::short_weierstrass>)      \
    X(name, "jacobian", __VA_ARGS__<coords::jacobian, forms::short_weierstrass>)                   \
    X(name, "projective", __VA_ARGS__<coords::projective, forms::short_weierstrass>)               \
    X(name, "affine", __VA_ARGS__<coords::affine, forms::short_weierstrass>)
#define GEN_LIST(X, name, ...)                                                                     \
    X(name, "projective", __VA_ARGS__<coords::projective, forms::short_weierstrass>)               \
    X(name, "jacobian", __VA_ARGS__<coords::jacobian, forms::short_weierstrass>)                   \
    X(name, "affine", __VA_ARGS__<coords::affine, forms::short_weierstrass>)
#define A3_LIST(X, name, ...)                                                                      \
    GEN_LIST(X, name, __VA_ARGS__)                                                                 \
    X(name, "jacobian_a3", __VA_ARGS__<coords::jacobian_with_a4_minus_3, forms::short_weierstrass>) \
    X(name, "projective_a3", __VA_ARGS__<coords::projective_with_a4_minus_3, forms::short_weierstrass>)
#define TE_LIST(X, name, ...)                                                                      \
    X(name, "inverted", __VA_ARGS__<coords::inverted, forms::twisted_edwards>)                     \
    X(name, "affine", __VA_ARGS__<coords::affine, forms::twisted_edwards>)
#define EXT_LIST(X, name, ...)                                                                     \
    TE_LIST(X, name, __VA_ARGS__)                                                                  \
    X(name, "extended", __VA_ARGS__<coords::extended_with_a_minus_1, forms::twisted_edwards>)
#define MONT_LIST(X, name, ...)                                                                    \
    TE_LIST(X, name, __VA_ARGS__)                                                                  \
    X(name, "montgomery", __VA_ARGS__<coords::affine, forms::montgomery>)

#if GROUP == 0
#include <nil/crypto3/algebra/curves/bls12.hpp>
#define CURVE_LIST(X) JAC0_LIST(X, "bls12_381_g1", curves::bls12<381>::g1_type)
#elif GROUP == 1
#include <nil/crypto3/algebra/curves/bls12.hpp>
#define CURVE_LIST(X) X("bls12_381_g2", "jacobian_a0", curves::bls12<381>::g2_type<>)
#elif GROUP == 2
#include <nil/crypto3/algebra/curves/bls12.hpp>
#define CURVE_LIST(X) JAC0_LIST(X, "bls12_377_g1", curves::bls12<377>::g1_type) X("bls12_377_g2", "jacobian_a0", curves::bls12<377>::g2_type<>)
#elif GROUP == 3
#include <nil/crypto3/algebra/curves/alt_bn128.hpp>
#define CURVE_LIST(X) JAC0_LIST(X, "alt_bn128_g1", curves::alt_bn128<254>::g1_type) X("alt_bn128_g2", "jacobian_a0", curves::alt_bn128<254>::g2_type<>)
#elif GROUP == 4
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#define CURVE_LIST(X) GEN_LIST(X, "mnt4_g1", curves::mnt4<298>::g1_type) X("mnt4_g2", "projective", curves::mnt4<298>::g2_type<>) X("mnt4_g2", "jacobian", curves::mnt4<298>::g2_type<coords::jacobian>)
#elif GROUP == 5
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#define CURVE_LIST(X) GEN_LIST(X, "mnt6_g1", curves::mnt6<298>::g1_type) X("mnt6_g2", "projective", curves::mnt6<298>::g2_type<>) X("mnt6_g2", "jacobian", curves::mnt6<298>::g2_type<coords::jacobian>)
#elif GROUP == 6
#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/curves/vesta.hpp>
#define CURVE_LIST(X) JAC0_LIST(X, "pallas", curves::pallas::g1_type) JAC0_LIST(X, "vesta", curves::vesta::g1_type)
#elif GROUP == 7
#include <nil/crypto3/algebra/curves/secp_k1.hpp>
#define CURVE_LIST(X)                                                                                                        \
    JAC0_LIST(X, "secp160k1", curves::secp_k1<160>::g1_type) JAC0_LIST(X, "secp192k1", curves::secp_k1<192>::g1_type)         \
    JAC0_LIST(X, "secp224k1", curves::secp_k1<224>::g1_type) JAC0_LIST(X, "secp256k1", curves::secp_k1<256>::g1_type)
#elif GROUP == 8
#include <nil/crypto3/algebra/curves/secp_r1.hpp>
#define CURVE_LIST(X) A3_LIST(X, "secp160r1", curves::secp_r1<160>::g1_type) A3_LIST(X, "secp192r1", curves::secp_r1<192>::g1_type)
#elif GROUP == 9
#include <nil/crypto3/algebra/curves/secp_r1.hpp>
#define CURVE_LIST(X) A3_LIST(X, "secp224r1", curves::secp_r1<224>::g1_type) A3_LIST(X, "secp256r1", curves::secp_r1<256>::g1_type)
#elif GROUP == 10
#include <nil/crypto3/algebra/curves/secp_r1.hpp>
#define CURVE_LIST(X) A3_LIST(X, "secp384r1", curves::secp_r1<384>::g1_type) A3_LIST(X, "secp521r1", curves::secp_r1<521>::g1_type)
#elif GROUP == 11
#include <nil/crypto3/algebra/curves/ed25519.hpp>
#include <nil/crypto3/algebra/curves/curve25519.hpp>
#define CURVE_LIST(X) EXT_LIST(X, "ed25519", curves::ed25519::g1_type) X("ed25519_m", "montgomery", curves::curve25519::g1_type<coords::affine, forms::montgomery>)
#elif GROUP == 12
#include <nil/crypto3/algebra/curves/jubjub.hpp>
#define CURVE_LIST(X) EXT_LIST(X, "jubjub", curves::jubjub::g1_type) X("jubjub_m", "montgomery", curves::jubjub::g1_type<coords::affine, forms::montgomery>)
#elif GROUP == 13
#include <nil/crypto3/algebra/curves/babyjubjub.hpp>
#define CURVE_LIST(X) TE_LIST(X, "babyjubjub", curves::babyjubjub::g1_type) X("babyjubjub_m", "montgomery", curves::babyjubjub::g1_type<coords::affine, forms::montgomery>)
#elif GROUP == 14
#include <nil/crypto3/algebra/curves/edwards.hpp>
#define CURVE_LIST(X) TE_LIST(X, "edwards", curves::edwards<183>::g1_type)
#elif GROUP == 15
#include <nil/crypto3/algebra/curves/edwards.hpp>
#define CURVE_LIST(X) X("edwards_g2", "inverted", curves::edwards<183>::g2_type<>)
#endif
#endif
