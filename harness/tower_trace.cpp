// C08/C09/C10: operations of the predefined extension fields, recorded and judged offline.  MODE as in c08_small.cpp.
#include <array>
#include <cassert>
#include <iostream>
#include <vector>
#include "vf.hpp"
#if GROUP == 0
#include <nil/crypto3/algebra/fields/bls12/base_field.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>
typedef nil::crypto3::algebra::fields::bls12_base_field<381> base;
#define TOWER "bls12_381"
#elif GROUP == 1
#include <nil/crypto3/algebra/fields/bls12/base_field.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>
typedef nil::crypto3::algebra::fields::bls12_base_field<377> base;
#define TOWER "bls12_377"
#elif GROUP == 2
#include <nil/crypto3/algebra/fields/alt_bn128/base_field.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>
typedef nil::crypto3::algebra::fields::alt_bn128_base_field<254> base;
#define TOWER "alt_bn128"
#elif GROUP == 3
#include <nil/crypto3/algebra/fields/bn128/base_field.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>
typedef nil::crypto3::algebra::fields::bn128_base_field<254> base;
#define TOWER "bn128"
#elif GROUP == 4
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/fields/fp4.hpp>
#include <nil/crypto3/algebra/fields/mnt4/base_field.hpp>
typedef nil::crypto3::algebra::fields::mnt4_base_field<298> base;
#define TOWER "mnt4"
#elif GROUP == 5
#include <nil/crypto3/algebra/fields/fp3.hpp>
#include <nil/crypto3/algebra/fields/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/mnt6/base_field.hpp>
typedef nil::crypto3::algebra::fields::mnt6_base_field<298> base;
#define TOWER "mnt6"
#elif GROUP == 6
#include <nil/crypto3/algebra/fields/edwards/base_field.hpp>
#include <nil/crypto3/algebra/fields/fp3.hpp>
#include <nil/crypto3/algebra/fields/fp6_2over3.hpp>
typedef nil::crypto3::algebra::fields::edwards_base_field<183> base;
#define TOWER "edwards"
#endif
using namespace nil::crypto3::algebra::fields;
#if GROUP == 4
typedef fp4<base> SKIP_SCALE;
#else
typedef void SKIP_SCALE;
#endif
typedef typename base::value_type B;
typedef typename base::integral_type I;

static std::string hex(const I &n) {
    std::ostringstream o;
    o << std::hex << n;
    return o.str();
}
__attribute__((noinline)) static std::string flat(const B &v) {
    return hex(I(v.data));
}
template<class V>
static std::string flat(const V &v) {
    std::string s;
    for (std::size_t i = 0; i < v.data.size(); ++i) {
        s += (i ? "," : "") + flat(v.data[i]);
    }
    return s;
}
__attribute__((noinline)) static B draw(vf::rng &g, int kind, B *) {
    I m = base::modulus;
    switch (kind) {
        case 0:
            return B(0u);
        case 1:
            return B(1u);
        case 2:
            return B(m - 1u);
        case 3:
            return B((unsigned)g.below(5));
        default:
            break;
    }
    boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<base::modulus_bits + 64>> r(0u);
    for (std::size_t i = 0; i < (base::modulus_bits + 64) / 64; ++i) {
        r <<= 64;
        r |= decltype(r)(g());
    }
    return B(I(r % decltype(r)(m)));
}
template<class V>
static V draw(vf::rng &g, int kind, V *) {
    V v;
    for (std::size_t i = 0; i < v.data.size(); ++i) {
        typedef typename std::remove_reference<decltype(v.data[i])>::type W;
        int k = kind == 4 ? (g.below(3) ? 0 : 5) : kind == 1 ? (i ? 0 : 1) : kind;
        v.data[i] = draw(g, k, (W *)0);
    }
    return v;
}
template<class V>
static V any(vf::rng &g, std::size_t i) {
    return draw(g, i < 3 ? (int)i : (i % 4 == 3 ? 3 + (int)g.below(2) : 5), (V *)0);
}
__attribute__((noinline)) static void emit(const char *f, const char *op, const std::string &a, const std::string &b, const std::string &r) {
    std::printf("T\t" TOWER "\t%s\t%s\t%s\t%s\t%s\n", f, op, a.c_str(), b.c_str(), r.c_str());
}
static std::string flag(bool b) {
    return b ? "1" : "0";
}

template<class F>
static void ring(const char *f, std::size_t n) {
    typedef typename F::value_type V;
#if GROUP == 5 || GROUP == 6
    typedef B U;    // what may scale an element
#else
    typedef typename V::underlying_type U;
#endif
    vf::rng g(vf::seed() * 131 + vf::hash(f));
    emit(f, "zero", "", "", flat(V::zero()));
    emit(f, "one", "", "", flat(V::one()));
    for (std::size_t i = 0; i < n; ++i) {
        const V a = any<V>(g, i), b = i % 8 == 5 ? a : i % 8 == 6 ? -a : any<V>(g, i / 2);
        const U s = draw(g, 5, (U *)0);
        std::string A = flat(a), Bs = flat(b);
        vf::at(std::string(f) + " " + A + " " + Bs);
        emit(f, "add", A, Bs, flat(a + b));
        emit(f, "sub", A, Bs, flat(a - b));
        emit(f, "mul", A, Bs, flat(a * b));
        emit(f, "eq", A, Bs, flag(a == b));
        emit(f, "neg", A, "", flat(-a));
        emit(f, "dbl", A, "", flat(a.doubled()));
        emit(f, "sqr", A, "", flat(a.squared()));
        if constexpr (!std::is_same<F, SKIP_SCALE>::value) {
            emit(f, "scale", A, flat(s), flat(s * a));
            emit(f, "scale", A, flat(s), flat(a * s));
        }
        emit(f, "is_zero", A, "", flag(a.is_zero()));
        emit(f, "is_one", A, "", flag(a.is_one()));
        if (!a.is_zero()) {
            emit(f, "inv", A, "", flat(a.inversed()));
        }
        V t = a;
        t *= b;
        emit(f, "mul", A, Bs, flat(t));
        t = a;
        t += b;
        emit(f, "add", A, Bs, flat(t));
        t = a;
        t -= b;
        emit(f, "sub", A, Bs, flat(t));
        if (i % 8 == 0) {
            I e = I(draw(g, 5, (B *)0).data);
            emit(f, "pow", A, hex(e), flat(a.pow(e)));
        }
        emit(f, "kept", A, A, flat(a));
    }
}
template<class F>
static void frobenius(const char *f, std::size_t n) {
    typedef typename F::value_type V;
    vf::rng g(vf::seed() * 137 + vf::hash(f));
    for (std::size_t i = 0; i < n; ++i) {
        const V a = any<V>(g, i);
        std::string A = flat(a);
        vf::at(std::string(f) + " Frobenius " + A);
        for (unsigned k = 0; k <= 2 * F::arity + 1; ++k) {
            emit(f, "frobenius", A, hex(I(k)), flat(a.Frobenius_map(k)));
        }
    }
}
// the easy part of the final exponentiation puts an element into the cyclotomic subgroup
template<class F>
static void cyclotomic(const char *f, std::size_t n) {
    typedef typename F::value_type V;
    vf::rng g(vf::seed() * 139 + vf::hash(f));
    for (std::size_t i = 0; i < n; ++i) {
        V a = any<V>(g, i + 5);
        if (a.is_zero()) {
            continue;
        }
        V c = i == 0 ? V::one() : a;
        vf::at(std::string(f) + " cyclotomic " + flat(a));
        if (i) {
            // a^((p^(k/2)-1) * (p^(k/6)+1)); for k = 4 the second factor is dropped.  a^(p^j) by repeated p-th powers.
            auto frob = [](V x, unsigned j) {
                while (j--) {
                    x = x.pow(base::modulus);
                }
                return x;
            };
            unsigned k = F::arity;
            c = frob(c, k / 2) * c.inversed();
            if (k != 4) {
                c = frob(c, k / 6) * c;
            }
        }
        std::string A = flat(c);
        emit(f, "unitary_inversed", A, "", flat(c.unitary_inversed()));
        emit(f, "cyclotomic_squared", A, "", flat(c.cyclotomic_squared()));
        I e = I(draw(g, 5, (B *)0).data);
        emit(f, "cyclotomic_exp", A, hex(e), flat(c.cyclotomic_exp(e)));
        emit(f, "cyclotomic_exp", A, "5", flat(c.cyclotomic_exp(I(5u))));
        emit(f, "cyclotomic_exp", A, "0", flat(c.cyclotomic_exp(I(0u))));
        emit(f, "cyclotomic_exp", A, "1", flat(c.cyclotomic_exp(I(1u))));
    }
}
template<class F>
static void roots(const char *f, std::size_t n) {
    typedef typename F::value_type V;
    vf::rng g(vf::seed() * 149 + vf::hash(f));
    for (std::size_t i = 0; i < n; ++i) {
        const V a = any<V>(g, i), s = a * a;
        std::string A = flat(a), S = flat(s);
        vf::at(std::string(f) + " sqrt " + S);
        vf::arm(60);
        emit(f, "is_square", A, "", flag(a.is_square()));
        emit(f, "is_square", S, "", flag(s.is_square()));
        emit(f, "sqrt", S, "", flat(s.sqrt()));
    }
    vf::arm(0);
}

VF_MAIN("tower_trace") {
    std::size_t n = vf::n(1, 12);
    (void)n;
#if MODE == 0
#if GROUP <= 3
    ring<fp2<base>>("fp2", 40 * n);
    ring<fp6_3over2<base>>("fp6_3over2", 30 * n);
    ring<fp12_2over3over2<base>>("fp12", 24 * n);
#elif GROUP == 4
    ring<fp2<base>>("fp2", 60 * n);
    ring<fp4<base>>("fp4", 40 * n);
#else
    ring<fp3<base>>("fp3", 60 * n);
    ring<fp6_2over3<base>>("fp6_2over3", 40 * n);
#endif
#elif MODE == 1
#if GROUP <= 3
    frobenius<fp2<base>>("fp2", 4 * n);
    frobenius<fp6_3over2<base>>("fp6_3over2", 6 * n);
    frobenius<fp12_2over3over2<base>>("fp12", 6 * n);
    cyclotomic<fp12_2over3over2<base>>("fp12", 2 * n);
#elif GROUP == 4
    frobenius<fp2<base>>("fp2", 5 * n);
    frobenius<fp4<base>>("fp4", 6 * n);
    cyclotomic<fp4<base>>("fp4", 4 * n);
#else
    frobenius<fp3<base>>("fp3", 5 * n);
    frobenius<fp6_2over3<base>>("fp6_2over3", 6 * n);
    cyclotomic<fp6_2over3<base>>("fp6_2over3", 4 * n);
#endif
#elif MODE == 2
#if GROUP <= 4
    roots<fp2<base>>("fp2", 10 * n);
#else
    roots<fp3<base>>("fp3", 10 * n);
#endif
#endif
}
