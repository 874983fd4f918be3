// Stand-in for a header the repository includes but does not contain: the affine form of forms::edwards.
#ifndef VERIF_STUB_EDWARDS_AFFINE
#define VERIF_STUB_EDWARDS_AFFINE
#include <nil/crypto3/algebra/curves/forms.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/edwards/coordinates.hpp>
namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
    template<typename CurveParams, typename Form, typename Coordinates>
    class curve_element;
    template<typename CurveParams>
    class curve_element<CurveParams, forms::edwards, coordinates::affine> {
    public:
        using field_type = typename CurveParams::field_type;
        typename field_type::value_type X, Y;
        constexpr curve_element(const typename field_type::value_type &x, const typename field_type::value_type &y) : X(x), Y(y) {}
        static curve_element zero() {
            return curve_element(field_type::value_type::zero(), field_type::value_type::one());
        }
        bool is_zero() const {
            return X.is_zero() && Y.is_one();
        }
    };
}}}}}
#endif
