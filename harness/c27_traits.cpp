// Type traits over a catalogue. PART 0: the library's own fields, curves, groups and elements; PART 1: containers, iterators, policies and lookalikes missing one member
#include "vf.hpp"
#include <array>
#include <cassert>
#include <complex>
#include <type_traits>
#if PART == 0
#include <iostream>
#include <vector>
#include <nil/crypto3/algebra/curves/forms.hpp>
#include <nil/crypto3/algebra/curves/alt_bn128.hpp>
#include <nil/crypto3/algebra/curves/babyjubjub.hpp>
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/curve25519.hpp>
#include <nil/crypto3/algebra/curves/ed25519.hpp>
#include <nil/crypto3/algebra/curves/edwards.hpp>
#include <nil/crypto3/algebra/curves/jubjub.hpp>
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/curves/secp_k1.hpp>
#include <nil/crypto3/algebra/curves/secp_r1.hpp>
#include <nil/crypto3/algebra/curves/vesta.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp>
#include <nil/crypto3/algebra/fields/goldilocks64/base_field.hpp>
#include <nil/crypto3/algebra/type_traits.hpp>
#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/vector/vector.hpp>
namespace algebra = nil::crypto3::algebra;
namespace curves = algebra::curves;
namespace fields = algebra::fields;
namespace coords = curves::coordinates;
typedef curves::forms forms;
// what a type is, as far as these traits go; PAIRED: a curve with two groups and a target field
enum kind { OTHER = 0, PAIRED = 1, GROUP_ = 2, FIELD = 4, EXTENDED = 8, POINT = 16, ELEMENT = 32, EXTENDED_ELEMENT = 64, MIXED = 128, UNPAIRED = 256 };
static const char *names[] = {"is_curve", "is_curve_group", "is_field", "is_extended_field", "is_group_element", "is_field_element", "is_extended_field_element", "has_mixed_add"};
static __attribute__((noinline)) void judge(const std::string &type, unsigned want, unsigned got) {
    vf::at("traits of " + type);
    for (unsigned i = 0; i < 8; ++i) {
        if (i == 0 && (want & UNPAIRED)) {
            continue;    // curves without a second group: is_curve is not judged
        }
        vf::check((got >> i & 1) == (want >> i & 1), names[i], vf::hash(type + names[i]), want != OTHER, [&] { return vf::cat("of", type, "is", got >> i & 1); });
    }
    vf::sample(vf::cat(type, "kind", got));
}
template<class T, class = void>
struct adds_mixed : std::false_type { };
template<class T>
struct adds_mixed<T, std::enable_if_t<std::is_void<decltype(std::declval<T &>().mixed_add(std::declval<const T &>()))>::value>> : std::true_type { };
template<class T>
static void is(const char *name, unsigned want) {
    judge(name, want | (adds_mixed<T>::value ? MIXED : 0),
          algebra::is_curve<T>::value * PAIRED + algebra::is_curve_group<T>::value * GROUP_ + algebra::is_field<T>::value * FIELD + algebra::is_extended_field<T>::value * EXTENDED +
              algebra::is_group_element<T>::value * POINT + algebra::is_field_element<T>::value * ELEMENT + algebra::is_extended_field_element<T>::value * EXTENDED_ELEMENT + algebra::has_mixed_add<T>::value * MIXED);
}
template<class F>
static void field(const char *name, bool extended) {
    is<F>(name, FIELD | extended * EXTENDED);
    is<typename F::value_type>(vf::cat("element of", name).c_str(), ELEMENT | extended * EXTENDED_ELEMENT);
    is<typename F::value_type *>(vf::cat("pointer to element of", name).c_str(), OTHER);
    is<typename F::integral_type>(vf::cat("integer of", name).c_str(), OTHER);
    is<typename F::modular_type>(vf::cat("residue of", name).c_str(), OTHER);
    is<std::array<typename F::value_type, 2>>(vf::cat("array of", name).c_str(), OTHER);
    is<algebra::vector<typename F::value_type, 3>>(vf::cat("vector of", name).c_str(), OTHER);
    is<algebra::matrix<typename F::value_type, 2, 3>>(vf::cat("matrix of", name).c_str(), OTHER);
}
template<class G>
static void group(const char *name) {
    is<G>(name, GROUP_);
    is<typename G::value_type>(vf::cat("point of", name).c_str(), POINT);
    is<typename G::params_type>(vf::cat("parameters of", name).c_str(), OTHER);
    is<std::vector<typename G::value_type>>(vf::cat("points of", name).c_str(), OTHER);
}
template<class C, bool paired>
static void curve(const char *name) {
    is<C>(name, paired ? PAIRED : UNPAIRED);
    is<std::array<C, 1>>(vf::cat("array of", name).c_str(), OTHER);
    field<typename C::base_field_type>(vf::cat("base field of", name).c_str(), false);
    field<typename C::scalar_field_type>(vf::cat("scalar field of", name).c_str(), false);
    group<typename C::template g1_type<>>(vf::cat("g1 of", name).c_str());
}
template<class V>
static void first(const char *name) {
    const bool a = algebra::is_g1_group_element<V>::value, b = algebra::is_g2_group_element<V>::value;
    vf::check(a && !b, "is_g1_group_element", vf::hash(name), true, [&] { return vf::cat("point of g1 of", name, "is_g1", a, "is_g2", b); });
}
template<class V>
static void second(const char *name) {
    const bool a = algebra::is_g1_group_element<V>::value, b = algebra::is_g2_group_element<V>::value;
    vf::check(!a && b, "is_g2_group_element", vf::hash(name), true, [&] { return vf::cat("point of g2 of", name, "is_g1", a, "is_g2", b); });
}
// one coordinate system: the group, its point, and which of the two groups it is in
template<class C, class Coordinates, class Form>
static void coordinates(const char *name) {
    typedef typename C::template g1_type<Coordinates, Form> g;
    group<g>(name);
    vf::check(algebra::is_g1_group_element<typename g::value_type>::value, "is_g1_group_element", vf::hash(name), true, [&] { return vf::cat("point of", name, "is not"); });
    vf::check(std::is_same<typename g::value_type::group_type, g>::value && std::is_same<typename g::curve_type, C>::value && std::is_same<typename g::value_type::field_type, typename g::field_type>::value, "group_type", vf::hash(name), true,
              [&] { return vf::cat("of the point of", name, "is another group"); });
}
#define WEIERSTRASS(name, ...)                                                                                  \
    coordinates<__VA_ARGS__, coords::projective, forms::short_weierstrass>(name " projective");                 \
    coordinates<__VA_ARGS__, coords::jacobian, forms::short_weierstrass>(name " jacobian");                     \
    coordinates<__VA_ARGS__, coords::affine, forms::short_weierstrass>(name " affine");
#define WEIERSTRASS0(name, ...)      \
    WEIERSTRASS(name, __VA_ARGS__)   \
    coordinates<__VA_ARGS__, coords::jacobian_with_a4_0, forms::short_weierstrass>(name " jacobian_with_a4_0");
#define WEIERSTRASS3(name, ...)      \
    WEIERSTRASS(name, __VA_ARGS__)   \
    coordinates<__VA_ARGS__, coords::jacobian_with_a4_minus_3, forms::short_weierstrass>(name " jacobian_with_a4_minus_3"); \
    coordinates<__VA_ARGS__, coords::projective_with_a4_minus_3, forms::short_weierstrass>(name " projective_with_a4_minus_3");
#define EDWARDS(name, ...)                                                                                      \
    coordinates<__VA_ARGS__, coords::inverted, forms::twisted_edwards>(name " inverted");                       \
    coordinates<__VA_ARGS__, coords::affine, forms::twisted_edwards>(name " affine");
VF_MAIN("c27") {
    curve<curves::bls12<381>, true>("bls12_381");
    curve<curves::bls12<377>, true>("bls12_377");
    curve<curves::alt_bn128<254>, true>("alt_bn128");
    curve<curves::mnt4<298>, true>("mnt4");
    curve<curves::mnt6<298>, true>("mnt6");
    curve<curves::edwards<183>, true>("edwards");
    curve<curves::pallas, false>("pallas");
    curve<curves::vesta, false>("vesta");
    curve<curves::secp_k1<160>, false>("secp160k1");
    curve<curves::secp_k1<256>, false>("secp256k1");
    curve<curves::secp_r1<256>, false>("secp256r1");
    curve<curves::secp_r1<521>, false>("secp521r1");
    curve<curves::ed25519, false>("ed25519");
    curve<curves::jubjub, false>("jubjub");
    curve<curves::babyjubjub, false>("babyjubjub");
    field<fields::goldilocks64_base_field>("goldilocks64", false);
    field<curves::bls12<381>::g2_type<>::field_type>("fp2 of bls12_381", true);
    field<curves::mnt4<298>::g2_type<>::field_type>("fp2 of mnt4", true);
    field<curves::mnt6<298>::g2_type<>::field_type>("fp3 of mnt6", true);
    field<curves::bls12<381>::gt_type>("fp12 of bls12_381", true);
    field<curves::bls12<377>::gt_type>("fp12 of bls12_377", true);
    field<curves::alt_bn128<254>::gt_type>("fp12 of alt_bn128", true);
    field<curves::mnt4<298>::gt_type>("fp4 of mnt4", true);
    field<curves::mnt6<298>::gt_type>("fp6 of mnt6", true);
    field<curves::edwards<183>::gt_type>("fp6 of edwards", true);
    is<curves::bls12<381>::gt_type::value_type::underlying_type>("fp6_3over2 element", ELEMENT | EXTENDED_ELEMENT);
    group<curves::bls12<381>::g2_type<>>("g2 of bls12_381");
    group<curves::mnt4<298>::g2_type<>>("g2 of mnt4");
    group<curves::mnt6<298>::g2_type<>>("g2 of mnt6");
    first<curves::bls12<381>::g1_type<>::value_type>("bls12_381");
    second<curves::bls12<381>::g2_type<>::value_type>("bls12_381");
    first<curves::bls12<377>::g1_type<>::value_type>("bls12_377");
    second<curves::bls12<377>::g2_type<>::value_type>("bls12_377");
    first<curves::alt_bn128<254>::g1_type<>::value_type>("alt_bn128");
    second<curves::alt_bn128<254>::g2_type<>::value_type>("alt_bn128");
    first<curves::mnt4<298>::g1_type<>::value_type>("mnt4");
    second<curves::mnt4<298>::g2_type<>::value_type>("mnt4");
    second<curves::mnt4<298>::g2_type<coords::jacobian>::value_type>("mnt4 jacobian");
    first<curves::mnt6<298>::g1_type<coords::affine>::value_type>("mnt6 affine");
    second<curves::mnt6<298>::g2_type<>::value_type>("mnt6");
    first<curves::bls12<381>::g1_type<coords::affine>::value_type>("bls12_381 affine");
    WEIERSTRASS0("bls12_381", curves::bls12<381>)
    WEIERSTRASS0("pallas", curves::pallas)
    WEIERSTRASS0("secp256k1", curves::secp_k1<256>)
    WEIERSTRASS("mnt4", curves::mnt4<298>)
    WEIERSTRASS3("secp256r1", curves::secp_r1<256>)
    EDWARDS("ed25519", curves::ed25519)
    EDWARDS("jubjub", curves::jubjub)
    EDWARDS("babyjubjub", curves::babyjubjub)
    EDWARDS("edwards", curves::edwards<183>)
    coordinates<curves::ed25519, coords::extended_with_a_minus_1, forms::twisted_edwards>("ed25519 extended");
    coordinates<curves::jubjub, coords::affine, forms::montgomery>("jubjub montgomery");
    is<int>("int", OTHER);
    is<double>("double", OTHER);
    is<std::complex<double>>("complex", OTHER);
    is<std::vector<int>>("vector<int>", OTHER);
    is<coords::affine>("coordinates", OTHER);
    is<forms>("forms", OTHER);
}
#else
#include <deque>
#include <forward_list>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <vector>
#include <nil/crypto3/algebra/type_traits.hpp>
#include <nil/crypto3/detail/type_traits.hpp>
namespace algebra = nil::crypto3::algebra;
namespace d = nil::crypto3::detail;
static __attribute__((noinline)) void judge(const char *trait, const std::string &type, bool want, bool got) {
    vf::at(vf::cat(trait, type));
    vf::check(got == want, trait, vf::hash(trait + type), true, [&] { return vf::cat("of", type, "is", got); });
}
// members, each alone in a base class
namespace m {
#define T_(n) struct t_##n { typedef int n; };
#define D_(n) struct d_##n { static const std::size_t n = 8; };
#define F_(n) struct f_##n { int n(); };
#define C_(n) struct c_##n { int n() const; };
#define A_(n) template<class A, class B> struct alias_##n { }; struct a_##n { template<class A = int, class B = int> using n = alias_##n<A, B>; };
    T_(base_field_type) T_(scalar_field_type) T_(g1_type) T_(g2_type) T_(gt_type) A_(g1_type) A_(g2_type)
    T_(value_type) T_(field_type) T_(curve_type) T_(integral_type) T_(modular_type) T_(extension_policy) D_(value_bits) D_(modulus_bits) D_(arity)
    T_(key_schedule_type) D_(key_schedule_bits) T_(word_type) D_(word_bits) T_(block_type) D_(block_bits) T_(key_type) D_(key_bits) D_(rounds) F_(encrypt) F_(decrypt)
    T_(digest_type) D_(digest_bits) D_(max_key_bits) D_(min_key_bits) F_(generate) C_(check)
    T_(encoded_value_type) D_(encoded_value_bits) T_(decoded_value_type) D_(decoded_value_bits) T_(encoded_block_type) D_(encoded_block_bits) T_(decoded_block_type) D_(decoded_block_bits) F_(encode) F_(decode)
    T_(iterator) T_(const_iterator) C_(begin) C_(end)
    struct t_construction { struct construction { typedef int type; typedef int params_type; }; };
    struct extra { typedef long other_type; int other(); static const int bits = 3; };
}
template<class... M>
struct made : M... { };
template<std::size_t Drop, std::size_t I, class Kept, class... M>
struct without;
template<std::size_t Drop, std::size_t I, class... K>
struct without<Drop, I, made<K...>> {
    typedef made<K...> type;
};
template<std::size_t Drop, std::size_t I, class... K, class H, class... M>
struct without<Drop, I, made<K...>, H, M...> {
    typedef typename std::conditional_t<Drop == I, without<Drop, I + 1, made<K...>, M...>, without<Drop, I + 1, made<K..., H>, M...>>::type type;
};
template<template<class> class Trait, class... M, std::size_t... I>
static void concept_of(const char *trait, std::index_sequence<I...>) {
    judge(trait, "a type with every member", true, Trait<made<M...>>::value);
    judge(trait, "a type with every member and more", true, Trait<made<m::extra, M...>>::value);
    judge(trait, "a class derived from one with every member", true, Trait<made<made<M...>>>::value);
    (judge(trait, vf::cat("a type missing member", I), false, Trait<typename without<I, 0, made<>, M...>::type>::value), ...);
    (judge(trait, vf::cat("a type with only member", I), false, Trait<made<M>>::value), ...);
    judge(trait, "an empty class", false, Trait<made<>>::value);
    judge(trait, "an unrelated class", false, Trait<m::extra>::value);
    judge(trait, "int", false, Trait<int>::value);
    judge(trait, "a pointer", false, Trait<made<M...> *>::value);
    judge(trait, "a reference", false, Trait<made<M...> &>::value);
    judge(trait, "an enumeration", false, Trait<std::byte>::value);
    judge(trait, "an array", false, Trait<int[3]>::value);
}
#define CONCEPT(ns, trait, ...) concept_of<ns::trait, __VA_ARGS__>(#trait, std::make_index_sequence<std::tuple_size<std::tuple<__VA_ARGS__>>::value>())
template<class T>
static void container(const char *name, bool want) {
    judge("is_range", name, want, d::is_range<T>::value);
    judge("is_container", name, want, d::is_container<T>::value);
}
template<class T>
static void iterator(const char *name, bool want) {
    judge("is_iterator", name, want, d::is_iterator<T>::value);
}
template<class T, class R>
static void complex(const char *name, bool want) {
    judge("is_complex", name, want, algebra::is_complex<T>::value);
    judge("is_complex_v", name, want, algebra::is_complex_v<T>);
    judge("remove_complex", name, true, std::is_same<typename algebra::remove_complex<T>::type, R>::value);
    judge("remove_complex_t", name, true, std::is_same<algebra::remove_complex_t<T>, R>::value);
}
// point-like classes
#define POINT(name, field, group, zero_, one_, is_zero_, well, dbl) struct name { field; group; zero_; one_; is_zero_; well; dbl; };
#define FIELD typedef int field_type
#define GROUP_ typedef int group_type
#define ZERO(n) static n zero()
#define ONE(n) static n one()
#define ISZERO bool is_zero()
#define WELL bool is_well_formed()
#define DBL(n) n &double_inplace()
#define NONE static_assert(true)
POINT(whole, FIELD, GROUP_, ZERO(whole), ONE(whole), ISZERO, WELL, DBL(whole))
POINT(no_field, NONE, GROUP_, ZERO(no_field), ONE(no_field), ISZERO, WELL, DBL(no_field))
POINT(no_group, FIELD, NONE, ZERO(no_group), ONE(no_group), ISZERO, WELL, DBL(no_group))
POINT(no_zero, FIELD, GROUP_, NONE, ONE(no_zero), ISZERO, WELL, DBL(no_zero))
POINT(no_one, FIELD, GROUP_, ZERO(no_one), NONE, ISZERO, WELL, DBL(no_one))
POINT(no_is_zero, FIELD, GROUP_, ZERO(no_is_zero), ONE(no_is_zero), NONE, WELL, DBL(no_is_zero))
POINT(no_well, FIELD, GROUP_, ZERO(no_well), ONE(no_well), ISZERO, NONE, DBL(no_well))
POINT(no_double, FIELD, GROUP_, ZERO(no_double), ONE(no_double), ISZERO, WELL, NONE)
struct adds_mixed { void mixed_add(const adds_mixed &); };
struct adds_other { void mixed_add(int); };
// one detector alone: a class with the member, classes without it, and types that are no classes
template<template<class> class Has, class With>
static void detector(const char *trait) {
    judge(trait, "a class with it", true, Has<With>::value);
    judge(trait, "a class derived from one with it", true, Has<made<With, m::extra>>::value);
    judge(trait, "a class without it", false, Has<m::extra>::value);
    judge(trait, "an empty class", false, Has<made<>>::value);
    judge(trait, "int", false, Has<int>::value);
    judge(trait, "double", false, Has<double>::value);
    judge(trait, "an enumeration", false, Has<std::byte>::value);
    judge(trait, "a pointer", false, Has<With *>::value);
    judge(trait, "a reference", false, Has<With &>::value);
    judge(trait, "an array", false, Has<With[2]>::value);
    judge(trait, "a function", false, Has<int(int)>::value);
}
#define DETECT(name, ...) detector<d::has_##name, __VA_ARGS__>("has_" #name)
struct encodes : m::t_encoded_block_type { encoded_block_type encode(); };
struct decodes : m::t_decoded_block_type { decoded_block_type decode(); };
struct encrypts : m::t_block_type { block_type encrypt(); };
struct decrypts : m::t_block_type { block_type decrypt(); };
struct begins : m::t_const_iterator { const_iterator begin() const; };
struct ends : m::t_const_iterator { const_iterator end() const; };
VF_MAIN("c27") {
    CONCEPT(algebra, is_curve, m::t_base_field_type, m::t_scalar_field_type, m::t_g1_type, m::t_g2_type, m::t_gt_type);
    CONCEPT(algebra, is_curve, m::t_base_field_type, m::t_scalar_field_type, m::a_g1_type, m::a_g2_type, m::t_gt_type);
    CONCEPT(algebra, is_curve_group, m::t_value_type, m::t_field_type, m::d_value_bits, m::t_curve_type);
    CONCEPT(algebra, is_field, m::t_value_type, m::d_value_bits, m::t_integral_type, m::d_modulus_bits, m::t_modular_type, m::d_arity);
    CONCEPT(algebra, is_extended_field, m::t_value_type, m::d_value_bits, m::t_integral_type, m::d_modulus_bits, m::t_modular_type, m::t_extension_policy);
    CONCEPT(d, is_block_cipher, m::t_word_type, m::d_word_bits, m::t_block_type, m::d_block_bits, m::t_key_type, m::d_key_bits, m::d_rounds, m::f_encrypt, m::f_decrypt);
    CONCEPT(d, is_hash, m::t_digest_type, m::d_digest_bits, m::t_construction);
    CONCEPT(d, is_mac, m::t_digest_type, m::d_digest_bits, m::t_block_type, m::d_block_bits, m::t_key_type, m::d_key_bits);
    CONCEPT(d, is_kdf, m::t_digest_type, m::d_digest_bits, m::t_key_type, m::d_max_key_bits, m::d_min_key_bits);
    CONCEPT(d, is_passhash, m::f_generate, m::c_check);
    CONCEPT(d, is_codec, m::t_encoded_value_type, m::d_encoded_value_bits, m::t_decoded_value_type, m::d_decoded_value_bits, m::t_encoded_block_type, m::d_encoded_block_bits, m::t_decoded_block_type, m::d_decoded_block_bits,
            m::f_encode, m::f_decode);
    CONCEPT(d, is_container, m::t_iterator, m::t_const_iterator, m::c_begin, m::c_end);
    DETECT(iterator, m::t_iterator);
    DETECT(const_iterator, m::t_const_iterator);
    DETECT(encoded_value_type, m::t_encoded_value_type);
    DETECT(encoded_block_type, m::t_encoded_block_type);
    DETECT(decoded_value_type, m::t_decoded_value_type);
    DETECT(decoded_block_type, m::t_decoded_block_type);
    DETECT(block_type, m::t_block_type);
    DETECT(digest_type, m::t_digest_type);
    DETECT(key_type, m::t_key_type);
    DETECT(key_schedule_type, m::t_key_schedule_type);
    DETECT(word_type, m::t_word_type);
    DETECT(encoded_value_bits, m::d_encoded_value_bits);
    DETECT(encoded_block_bits, m::d_encoded_block_bits);
    DETECT(decoded_value_bits, m::d_decoded_value_bits);
    DETECT(decoded_block_bits, m::d_decoded_block_bits);
    DETECT(block_bits, m::d_block_bits);
    DETECT(digest_bits, m::d_digest_bits);
    DETECT(key_bits, m::d_key_bits);
    DETECT(min_key_bits, m::d_min_key_bits);
    DETECT(max_key_bits, m::d_max_key_bits);
    DETECT(key_schedule_bits, m::d_key_schedule_bits);
    DETECT(word_bits, m::d_word_bits);
    DETECT(rounds, m::d_rounds);
    DETECT(begin, begins);
    DETECT(end, ends);
    DETECT(encode, encodes);
    DETECT(decode, decodes);
    DETECT(encrypt, encrypts);
    DETECT(decrypt, decrypts);
    DETECT(generate, m::f_generate);
    DETECT(check, m::c_check);
    container<std::vector<int>>("vector", true);
    container<std::vector<bool>>("vector<bool>", true);
    container<std::array<char, 3>>("array", true);
    container<std::array<char, 0>>("empty array", true);
    container<std::string>("string", true);
    container<std::list<int>>("list", true);
    container<std::forward_list<int>>("forward_list", true);
    container<std::deque<double>>("deque", true);
    container<std::map<int, int>>("map", true);
    container<std::set<int>>("set", true);
    container<std::unordered_map<int, int>>("unordered_map", true);
    container<std::string_view>("string_view", true);
    container<int>("int", false);
    container<void>("void", false);
    container<int *>("pointer", false);
    container<std::vector<int>::iterator>("iterator", false);
    container<std::list<int>::const_iterator>("const_iterator", false);
    container<std::pair<int *, int *>>("pair", false);
    container<std::tuple<int>>("tuple", false);
    container<std::unique_ptr<int>>("unique_ptr", false);
    container<std::function<int()>>("function", false);
    container<std::complex<double>>("complex", false);
    judge("is_range", "a type without end", false, d::is_range<made<m::t_iterator, m::t_const_iterator, m::c_begin>>::value);
    judge("is_range", "a type without begin", false, d::is_range<made<m::t_iterator, m::t_const_iterator, m::c_end>>::value);
    judge("is_range", "a type without iterator", false, d::is_range<made<m::t_const_iterator, m::c_begin, m::c_end>>::value);
    iterator<int *>("int *", true);
    iterator<const char *>("const char *", true);
    iterator<std::vector<int>::iterator>("vector iterator", true);
    iterator<std::vector<int>::const_iterator>("vector const_iterator", true);
    iterator<std::vector<int>::reverse_iterator>("vector reverse_iterator", true);
    iterator<std::list<int>::iterator>("list iterator", true);
    iterator<std::map<int, int>::iterator>("map iterator", true);
    iterator<std::istream_iterator<int>>("istream_iterator", true);
    iterator<std::back_insert_iterator<std::vector<int>>>("back_insert_iterator", true);
    iterator<std::ostream_iterator<int>>("ostream_iterator", true);
    iterator<int>("int", false);
    iterator<double>("double", false);
    iterator<std::vector<int>>("vector", false);
    iterator<std::string>("string", false);
    iterator<std::shared_ptr<int>>("shared_ptr", false);
    iterator<std::complex<float>>("complex", false);
    iterator<m::extra>("an unrelated class", false);
    complex<std::complex<float>, float>("complex<float>", true);
    complex<std::complex<double>, double>("complex<double>", true);
    complex<std::complex<long double>, long double>("complex<long double>", true);
    complex<double, double>("double", false);
    complex<int, int>("int", false);
    complex<unsigned char, unsigned char>("unsigned char", false);
    complex<std::pair<double, double>, std::pair<double, double>>("pair", false);
    complex<std::array<double, 2>, std::array<double, 2>>("array", false);
    complex<std::vector<std::complex<double>>, std::vector<std::complex<double>>>("vector of complex", false);
    complex<std::complex<double> *, std::complex<double> *>("pointer to complex", false);
    judge("is_group_element", "a class with every member", true, algebra::is_group_element<whole>::value);
    judge("is_group_element", "a class without field_type", false, algebra::is_group_element<no_field>::value);
    judge("is_group_element", "a class without group_type", false, algebra::is_group_element<no_group>::value);
    judge("is_group_element", "a class without zero", false, algebra::is_group_element<no_zero>::value);
    judge("is_group_element", "a class without one", false, algebra::is_group_element<no_one>::value);
    judge("is_group_element", "a class without is_zero", false, algebra::is_group_element<no_is_zero>::value);
    judge("is_group_element", "a class without is_well_formed", false, algebra::is_group_element<no_well>::value);
    judge("is_group_element", "a class without double_inplace", false, algebra::is_group_element<no_double>::value);
    judge("has_mixed_add", "a class with it", true, algebra::has_mixed_add<adds_mixed>::value);
    judge("has_mixed_add", "a class with another one", false, algebra::has_mixed_add<adds_other>::value);
    judge("has_mixed_add", "a class without it", false, algebra::has_mixed_add<whole>::value);
    judge("is_field_element", "double", false, algebra::is_field_element<double>::value);
    judge("is_field_element", "a class", false, algebra::is_field_element<whole>::value);
    judge("is_extended_field_element", "complex", false, algebra::is_extended_field_element<std::complex<double>>::value);
    judge("is_extended_field_element", "a class", false, algebra::is_extended_field_element<whole>::value);
}
#endif
