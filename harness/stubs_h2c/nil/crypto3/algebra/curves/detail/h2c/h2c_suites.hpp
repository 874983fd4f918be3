// Stand-in for the header of the same name, which lives in another repository: the suites of RFC 9380, section 8.8.
#ifndef VERIF_H2C_SUITES_HPP
#define VERIF_H2C_SUITES_HPP
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <vector>
namespace nil {
    namespace crypto3 {
        namespace algebra {
            namespace curves {
                namespace detail {
                    using namespace boost::multiprecision;
                    template<class GroupType>
                    struct h2c_suite;
                    template<class GroupType>
                    struct verif_suite {
                        typedef GroupType group_type;
                        typedef typename group_type::value_type group_value_type;
                        typedef typename group_type::field_type::value_type field_value_type;
                        typedef typename group_type::field_type::integral_type integral_type;
                    };
                    template<>
                    struct h2c_suite<bls12_381::g1_type<>> : verif_suite<bls12_381::g1_type<>> {
                        static inline const field_value_type Ai = field_value_type(
                            0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d_cppui_modular381);
                        static inline const field_value_type Bi = field_value_type(
                            0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0_cppui_modular381);
                        static inline const field_value_type Z = field_value_type(11u);
                    };
                    template<>
                    struct h2c_suite<bls12_381::g2_type<>> : verif_suite<bls12_381::g2_type<>> {
                        typedef typename field_value_type::underlying_type base_value_type;
                        static inline const field_value_type Ai = field_value_type(base_value_type(0u), base_value_type(240u));
                        static inline const field_value_type Bi = field_value_type(base_value_type(1012u), base_value_type(1012u));
                        static inline const field_value_type Z = field_value_type(-base_value_type(2u), -base_value_type(1u));
                    };
                }    // namespace detail
            }        // namespace curves
        }            // namespace algebra
    }                // namespace crypto3
}    // namespace nil
#endif
