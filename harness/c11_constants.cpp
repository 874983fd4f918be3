// C11: every constant the field types publish, recorded and judged offline by lib/constants_oracle.py.
//   PART 0..8   prime fields of field_registry.hpp (GROUP = PART)      20.. arithmetic parameters      30.. towers
//   PART 40..   large prime fields
#include "vf.hpp"
#include <array>
#if PART < 10
#define GROUP PART
#include "field_registry.hpp"
#elif PART == 20
#include <nil/crypto3/algebra/fields/arithmetic_params/alt_bn128.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/bls12.hpp>
#define ARITH_LIST(X)                                          \
    X("bls12_381_fq", "fp", bls12_base_field<381>)             \
    X("bls12_381", "fp2", fp2<bls12_base_field<381>>)          \
    X("bls12_381_fr", "fp", bls12_scalar_field<381>)           \
    X("bls12_377_fq", "fp", bls12_base_field<377>)             \
    X("bls12_377", "fp2", fp2<bls12_base_field<377>>)          \
    X("bls12_377_fr", "fp", bls12_scalar_field<377>)           \
    X("alt_bn128_fq", "fp", alt_bn128_base_field<254>)         \
    X("alt_bn128", "fp2", fp2<alt_bn128_base_field<254>>)      \
    X("alt_bn128_fr", "fp", alt_bn128_scalar_field<254>)
#elif PART == 21
#include <nil/crypto3/algebra/fields/arithmetic_params/mnt4.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/mnt6.hpp>
#define ARITH_LIST(X)                                          \
    X("mnt4_fq", "fp", mnt4_base_field<298>)                   \
    X("mnt4", "fp2", fp2<mnt4_base_field<298>>)                \
    X("mnt4_fr", "fp", mnt4_scalar_field<298>)                 \
    X("mnt6_fq", "fp", mnt6_base_field<298>)                   \
    X("mnt6", "fp3", fp3<mnt6_base_field<298>>)                \
    X("mnt6_fr", "fp", mnt6_scalar_field<298>)
#elif PART == 22
#include <nil/crypto3/algebra/fields/arithmetic_params/ed25519.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/goldilocks64.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/pallas.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/vesta.hpp>
#include <nil/crypto3/algebra/fields/pallas/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/vesta/scalar_field.hpp>
#define ARITH_LIST(X)                                          \
    X("curve25519_fq", "fp", ed25519)                          \
    X("goldilocks64", "fp", goldilocks64_base_field)           \
    X("pallas_fq", "fp", pallas_base_field)                    \
    X("pallas_fr", "fp", pallas_scalar_field)                  \
    X("vesta_fq", "fp", vesta_base_field)                      \
    X("vesta_fr", "fp", vesta_scalar_field)
#elif PART == 23
#include <nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp>
#define ARITH_LIST(X)                                          \
    X("bn128_fq", "fp", bn128_base_field<254>)                 \
    X("bn128", "fp2", fp2<bn128_base_field<254>>)              \
    X("bn128_fr", "fp", bn128_scalar_field<254>)               \
    X("edwards_fq", "fp", edwards_base_field<183>)             \
    X("edwards", "fp3", fp3<edwards_base_field<183>>)          \
    X("edwards_fr", "fp", edwards_scalar_field<183>)
#elif PART == 30
#include <nil/crypto3/algebra/fields/alt_bn128/base_field.hpp>
#include <nil/crypto3/algebra/fields/bls12/base_field.hpp>
#include <nil/crypto3/algebra/fields/bn128/base_field.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>
#define BN_TOWER(X, name, base) X(name, "fp2", fp2<base>) X(name, "fp6_3over2", fp6_3over2<base>) X(name, "fp12", fp12_2over3over2<base>)
#define TOWER_LIST(X)                                \
    BN_TOWER(X, "bls12_381", bls12_base_field<381>)  \
    BN_TOWER(X, "bls12_377", bls12_base_field<377>)  \
    BN_TOWER(X, "alt_bn128", alt_bn128_base_field<254>) \
    BN_TOWER(X, "bn128", bn128_base_field<254>)
#elif PART == 31
#include <nil/crypto3/algebra/fields/edwards/base_field.hpp>
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/fields/fp3.hpp>
#include <nil/crypto3/algebra/fields/fp4.hpp>
#include <nil/crypto3/algebra/fields/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/mnt4/base_field.hpp>
#include <nil/crypto3/algebra/fields/mnt6/base_field.hpp>
#define TOWER_LIST(X)                                      \
    X("mnt4", "fp2", fp2<mnt4_base_field<298>>)            \
    X("mnt4", "fp4", fp4<mnt4_base_field<298>>)            \
    X("mnt6", "fp3", fp3<mnt6_base_field<298>>)            \
    X("mnt6", "fp6_2over3", fp6_2over3<mnt6_base_field<298>>) \
    X("edwards", "fp3", fp3<edwards_base_field<183>>)      \
    X("edwards", "fp6_2over3", fp6_2over3<edwards_base_field<183>>)
#elif PART == 40
#include <nil/crypto3/algebra/fields/modp_srp.hpp>
#define FIELD_LIST(X)                                                                                                       \
    X("srp_1024", modp_srp<1024>) X("srp_1536", modp_srp<1536>) X("srp_2048", modp_srp<2048>) X("srp_3072", modp_srp<3072>) \
    X("srp_4096", modp_srp<4096>) X("srp_6144", modp_srp<6144>) X("srp_8192", modp_srp<8192>)
#elif PART == 41
#include <nil/crypto3/algebra/fields/ffdhe_ietf.hpp>
#define FIELD_LIST(X)                                                                                                                   \
    X("ffdhe_2048", ffdhe_ietf<2048>) X("ffdhe_3072", ffdhe_ietf<3072>) X("ffdhe_4096", ffdhe_ietf<4096>) X("ffdhe_6144", ffdhe_ietf<6144>) \
    X("ffdhe_8192", ffdhe_ietf<8192>)
#elif PART == 42
#include <nil/crypto3/algebra/fields/modp_ietf.hpp>
#define FIELD_LIST(X)                                                                                                           \
    X("modp_1024", modp_ietf<1024>) X("modp_1536", modp_ietf<1536>) X("modp_2048", modp_ietf<2048>) X("modp_3072", modp_ietf<3072>) \
    X("modp_4096", modp_ietf<4096>) X("modp_6144", modp_ietf<6144>) X("modp_8192", modp_ietf<8192>)
#elif PART == 43
#include <nil/crypto3/algebra/fields/dsa_botan.hpp>
#include <nil/crypto3/algebra/fields/dsa_jce.hpp>
#define FIELD_LIST(X) X("dsa_botan_2048", dsa_botan<2048>) X("dsa_botan_3072", dsa_botan<3072>) X("dsa_jce_1024", dsa_jce<1024>)
#endif
using namespace nil::crypto3::algebra::fields;

template<class T, class = void>
struct shown {};
template<class T>
struct shown<T, std::enable_if_t<std::is_integral<T>::value>> {
    static std::string as(T v) {
        std::ostringstream o;
        o << std::hex << (unsigned long long)v;
        return o.str();
    }
};
template<class B, boost::multiprecision::expression_template_option ET>
struct shown<boost::multiprecision::number<B, ET>, void> {
    __attribute__((noinline)) static std::string as(const boost::multiprecision::number<B, ET> &v) {
        std::ostringstream o;
        o << std::hex << v;
        return o.str();
    }
};
template<class T, std::size_t N>
struct shown<std::array<T, N>, void> {
    static std::string as(const std::array<T, N> &v) {
        std::string s;
        for (std::size_t i = 0; i < N; ++i) {
            s += (i ? ";" : "") + shown<T>::as(v[i]);
        }
        return s;
    }
};
template<class E, class = void>
struct is_element : std::false_type {};
template<class E>
struct is_element<E, std::void_t<decltype(std::declval<const E &>().data)>> : std::true_type {};
template<class E, class = void>
struct is_composite : std::false_type {};
template<class E>
struct is_composite<E, std::void_t<decltype(std::tuple_size<decltype(E::data)>::value)>> : std::true_type {};
template<class E>
struct shown<E, std::enable_if_t<is_element<E>::value>> {
    static std::string as(const E &v) {
        if constexpr (is_composite<E>::value) {
            std::string s;
            for (std::size_t i = 0; i < v.data.size(); ++i) {
                s += (i ? "," : "") + shown<std::decay_t<decltype(v.data[i])>>::as(v.data[i]);
            }
            return s;
        } else {
            return shown<typename E::integral_type>::as(typename E::integral_type(v.data));
        }
    }
};
// the definitions are out of line in places: read them as values
template<class T>
static T value(T v) {
    return v;
}
#define CONSTANT(name)                                                                                                         \
    template<class T, class = void>                                                                                            \
    struct has_##name : std::false_type {};                                                                                    \
    template<class T>                                                                                                          \
    struct has_##name<T, std::void_t<decltype(T::name)>> : std::true_type {};                                                  \
    template<class T>                                                                                                          \
    static void put_##name(const char *field, const char *kind, const char *where) {                                           \
        if constexpr (has_##name<T>::value) {                                                                                  \
            vf::at(std::string(field) + " " + kind + " " + where + " " #name);                                                 \
            const auto v = value(T::name);                                                                                     \
            std::printf("T\t%s\t%s\t%s\t%s\t%s\n", field, kind, where, #name, shown<std::decay_t<decltype(v)>>::as(v).c_str()); \
        }                                                                                                                      \
    }
CONSTANT(modulus)
CONSTANT(modulus_bits)
CONSTANT(number_bits)
CONSTANT(value_bits)
CONSTANT(arity)
CONSTANT(group_order_minus_one_half)
CONSTANT(group_order)
CONSTANT(mul_generator)
CONSTANT(s)
CONSTANT(t)
CONSTANT(t_minus_1_over_2)
CONSTANT(arithmetic_generator)
CONSTANT(geometric_generator)
CONSTANT(multiplicative_generator)
CONSTANT(root_of_unity)
CONSTANT(nqr)
CONSTANT(nqr_to_t)
CONSTANT(Rsquared)
CONSTANT(Rcubed)
CONSTANT(non_residue)
CONSTANT(Frobenius_coeffs_c1)
CONSTANT(Frobenius_coeffs_c2)

template<class T>
static void put(const char *field, const char *kind, const char *where) {
    put_modulus<T>(field, kind, where);
    put_modulus_bits<T>(field, kind, where);
    put_number_bits<T>(field, kind, where);
    put_value_bits<T>(field, kind, where);
    put_arity<T>(field, kind, where);
    put_group_order_minus_one_half<T>(field, kind, where);
    put_group_order<T>(field, kind, where);
    put_mul_generator<T>(field, kind, where);
    put_s<T>(field, kind, where);
    put_t<T>(field, kind, where);
    put_t_minus_1_over_2<T>(field, kind, where);
    put_arithmetic_generator<T>(field, kind, where);
    put_geometric_generator<T>(field, kind, where);
    put_multiplicative_generator<T>(field, kind, where);
    put_root_of_unity<T>(field, kind, where);
    put_nqr<T>(field, kind, where);
    put_nqr_to_t<T>(field, kind, where);
    put_Rsquared<T>(field, kind, where);
    put_Rcubed<T>(field, kind, where);
    put_non_residue<T>(field, kind, where);
    put_Frobenius_coeffs_c1<T>(field, kind, where);
    put_Frobenius_coeffs_c2<T>(field, kind, where);
}

VF_MAIN("c11_constants") {
#ifdef FIELD_LIST
#if PART < 40
#define PARAMS(name, type) put<params<type>>(name, "fp", "params");
#else
#define PARAMS(name, type)
#endif
#define X(name, type)                        \
    put<type>(name, "fp", "field");          \
    PARAMS(name, type)
    FIELD_LIST(X)
#endif
#ifdef ARITH_LIST
#define X(name, kind, type) put<arithmetic_params<type>>(name, kind, "arithmetic");
    ARITH_LIST(X)
#endif
#ifdef TOWER_LIST
#define X(name, kind, type)          \
    put<type>(name, kind, "field");  \
    put<typename type::extension_policy>(name, kind, "extension");
    TOWER_LIST(X)
#endif
}
