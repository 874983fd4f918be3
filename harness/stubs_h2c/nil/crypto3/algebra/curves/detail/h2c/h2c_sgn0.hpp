// Stand-in for the header of the same name, which lives in another repository: sgn0 of RFC 9380, section 4.1.
#ifndef VERIF_H2C_SGN0_HPP
#define VERIF_H2C_SGN0_HPP
#include <nil/crypto3/algebra/fields/detail/element/fp.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp2.hpp>
namespace nil {
    namespace crypto3 {
        namespace algebra {
            namespace curves {
                namespace detail {
                    template<class P>
                    bool sgn0(const fields::detail::element_fp<P> &e) {
                        typedef typename fields::detail::element_fp<P>::integral_type I;
                        return (I(e.data) & 1u) != 0u;
                    }
                    template<class P>
                    bool sgn0(const fields::detail::element_fp2<P> &e) {
                        return sgn0(e.data[0]) || (e.data[0].is_zero() && sgn0(e.data[1]));
                    }
                }    // namespace detail
            }        // namespace curves
        }            // namespace algebra
    }                // namespace crypto3
}    // namespace nil
#endif
