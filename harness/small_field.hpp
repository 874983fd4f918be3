// Tiny prime fields with the shape of the library's predefined ones, so that the library's own element
// templates can be driven exhaustively.
#ifndef VERIF_SMALL_FIELD_HPP
#define VERIF_SMALL_FIELD_HPP
#include <array>
#include <cassert>
#include <iostream>
#include <memory>
#include <utility>
#include <vector>
#include <nil/crypto3/algebra/fields/params.hpp>
#include <nil/crypto3/algebra/fields/field.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp2.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp3.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp4.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp6_3over2.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp12_2over3over2.hpp>

namespace vfield {
    namespace fields = nil::crypto3::algebra::fields;
    constexpr unsigned bits_of(unsigned long long p) {
        unsigned n = 0;
        while (p) {
            ++n;
            p >>= 1;
        }
        return n;
    }

    template<unsigned long long P>
    struct small_field : public fields::field<bits_of(P)> {
        typedef fields::field<bits_of(P)> policy_type;
        constexpr static const std::size_t modulus_bits = policy_type::modulus_bits;
        constexpr static const std::size_t number_bits = policy_type::number_bits;
        constexpr static const std::size_t value_bits = modulus_bits;
        constexpr static const std::size_t arity = 1;
        typedef typename policy_type::integral_type integral_type;
        typedef typename policy_type::extended_integral_type extended_integral_type;
        typedef typename policy_type::modular_params_type modular_params_type;
        constexpr static const integral_type modulus = integral_type(P);
        constexpr static const integral_type group_order_minus_one_half = integral_type((P - 1) / 2);
        typedef typename policy_type::modular_backend modular_backend;
        constexpr static const modular_params_type modulus_params = modulus.backend();
        typedef boost::multiprecision::number<boost::multiprecision::backends::modular_adaptor<
            modular_backend, boost::multiprecision::backends::modular_params_ct<modular_backend, modulus_params>>>
            modular_type;
        typedef typename fields::detail::element_fp<fields::params<small_field<P>>> value_type;
    };

    // the canonical residue of an element of a small prime field
    template<class V>
    unsigned long long canon(const V &v) {
        return static_cast<unsigned long long>(typename V::integral_type(v.data));
    }

    constexpr unsigned long long mpow(unsigned long long a, unsigned long long e, unsigned long long p) {
        unsigned __int128 r = 1, b = a % p;
        for (; e; e >>= 1) {
            if (e & 1) {
                r = r * b % p;
            }
            b = b * b % p;
        }
        return (unsigned long long)r;
    }
}    // namespace vfield
#endif
