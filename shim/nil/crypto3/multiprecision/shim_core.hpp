// Verification stand-in for the crypto3-multiprecision library, which /repo depends on but which is
// not installed in this sandbox.  It implements the part of the boost::multiprecision interface that
// crypto3-algebra calls: fixed-width unsigned integers (number<cpp_int_modular_backend<N>>), residues
// modulo a compile-time modulus (number<modular_adaptor<...>>, Montgomery form), powm, inverse_mod,
// ressol, find_wnaf, msb, bit_test, gcd, import_bits/export_bits and the _cppui_modularN literals.
// Everything is constexpr.  It is trusted base, and is itself checked by harness/shim_selftest.cpp
// against Python integers.
#ifndef VERIF_SHIM_MULTIPRECISION_CORE_HPP
#define VERIF_SHIM_MULTIPRECISION_CORE_HPP

#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <ios>
#include <iterator>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <boost/assert.hpp>
#include <boost/cstdint.hpp>
#include <boost/functional/hash.hpp>
#include <boost/range/concepts.hpp>
#include <boost/random/uniform_int_distribution.hpp>

namespace boost {
    namespace multiprecision {

        enum expression_template_option { et_off = 0, et_on = 1 };

        template<class Backend, expression_template_option ET = et_off>
        class number;

        template<class T>
        struct is_number : std::false_type { };
        template<class B, expression_template_option ET>
        struct is_number<number<B, ET>> : std::true_type { };

        namespace shim {
            typedef unsigned long long u64;
            typedef unsigned __int128 u128;

            template<class T>
            struct is_builtin_int
                : std::integral_constant<bool, std::is_integral<T>::value || std::is_same<T, __int128>::value ||
                                                   std::is_same<T, unsigned __int128>::value> { };
        }    // namespace shim

        namespace backends {

            // The inner loops are not instrumented by ThreadSanitizer, whose bounded history they would fill; their callers
            // read the operands once under its eyes instead.
#if defined(__SANITIZE_THREAD__)
#define VERIF_SHIM_THREADS 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VERIF_SHIM_THREADS 1
#endif
#endif
#ifdef VERIF_SHIM_THREADS
#define VERIF_SHIM_QUIET __attribute__((no_sanitize("thread"), noinline))
#define VERIF_SHIM_TOUCH(limb)                              \
    if (!__builtin_is_constant_evaluated()) {               \
        (void)*static_cast<const volatile shim::u64 *>(&(limb)); \
    }
#else
#define VERIF_SHIM_QUIET
#define VERIF_SHIM_TOUCH(limb)
#endif
            template<unsigned Bits>
            struct cpp_int_modular_backend {
                static_assert(Bits > 0, "width");
                constexpr static unsigned bits = Bits;
                constexpr static std::size_t limbs = (Bits + 63) / 64;
                constexpr static shim::u64 top_mask =
                    (Bits % 64) == 0 ? ~shim::u64(0) : ((shim::u64(1) << (Bits % 64)) - 1);

                shim::u64 d[limbs] {};

                constexpr cpp_int_modular_backend() = default;
                constexpr cpp_int_modular_backend(const cpp_int_modular_backend &) = default;
                constexpr cpp_int_modular_backend &operator=(const cpp_int_modular_backend &) = default;

                template<class I, typename std::enable_if<shim::is_builtin_int<I>::value, bool>::type = true>
                constexpr cpp_int_modular_backend(I v) {
                    const bool neg = v < I(0);
                    shim::u128 w = static_cast<shim::u128>(v);
                    for (std::size_t i = 0; i < limbs; ++i) {
                        if (i < 2) {
                            d[i] = static_cast<shim::u64>(w >> (64 * i));
                        } else {
                            d[i] = neg ? ~shim::u64(0) : 0;
                        }
                    }
                    normalize();
                }

                template<unsigned Bits2, typename std::enable_if<Bits2 != Bits, bool>::type = true>
                constexpr cpp_int_modular_backend(const cpp_int_modular_backend<Bits2> &o) {
                    for (std::size_t i = 0; i < limbs; ++i) {
                        d[i] = i < cpp_int_modular_backend<Bits2>::limbs ? o.d[i] : 0;
                    }
                    normalize();
                }

                constexpr void normalize() {
                    d[limbs - 1] &= top_mask;
                }
                constexpr bool is_zero() const {
                    for (std::size_t i = 0; i < limbs; ++i) {
                        if (d[i]) {
                            return false;
                        }
                    }
                    return true;
                }
                constexpr bool bit(std::size_t i) const {
                    return i / 64 < limbs && ((d[i / 64] >> (i % 64)) & 1u);
                }
                constexpr int compare(const cpp_int_modular_backend &o) const {
                    for (std::size_t i = limbs; i-- > 0;) {
                        if (d[i] != o.d[i]) {
                            return d[i] < o.d[i] ? -1 : 1;
                        }
                    }
                    return 0;
                }
                // index of the highest set bit, -1 for zero
                constexpr long top() const {
                    for (std::size_t i = limbs; i-- > 0;) {
                        if (d[i]) {
                            return static_cast<long>(i * 64 + 63 - __builtin_clzll(d[i]));
                        }
                    }
                    return -1;
                }
                constexpr bool add(const cpp_int_modular_backend &o) {
                    shim::u64 c = 0;
                    for (std::size_t i = 0; i < limbs; ++i) {
                        shim::u128 t = shim::u128(d[i]) + o.d[i] + c;
                        d[i] = static_cast<shim::u64>(t);
                        c = static_cast<shim::u64>(t >> 64);
                    }
                    return c != 0;
                }
                constexpr bool sub(const cpp_int_modular_backend &o) {
                    shim::u64 b = 0;
                    for (std::size_t i = 0; i < limbs; ++i) {
                        shim::u128 t = shim::u128(d[i]) - o.d[i] - b;
                        d[i] = static_cast<shim::u64>(t);
                        b = static_cast<shim::u64>(t >> 64) & 1u;
                    }
                    return b != 0;
                }
                constexpr void shl(std::size_t n) {
                    const std::size_t w = n / 64, s = n % 64;
                    for (std::size_t i = limbs; i-- > 0;) {
                        shim::u64 v = 0;
                        if (i >= w) {
                            v = d[i - w] << s;
                            if (s && i > w) {
                                v |= d[i - w - 1] >> (64 - s);
                            }
                        }
                        d[i] = v;
                    }
                    normalize();
                }
                constexpr void shr(std::size_t n) {
                    const std::size_t w = n / 64, s = n % 64;
                    for (std::size_t i = 0; i < limbs; ++i) {
                        shim::u64 v = 0;
                        if (i + w < limbs) {
                            v = d[i + w] >> s;
                            if (s && i + w + 1 < limbs) {
                                v |= d[i + w + 1] << (64 - s);
                            }
                        }
                        d[i] = v;
                    }
                }
                constexpr cpp_int_modular_backend mul(const cpp_int_modular_backend &o) const {
                    cpp_int_modular_backend r;
                    for (std::size_t i = 0; i < limbs; ++i) {
                        if (!d[i]) {
                            continue;
                        }
                        shim::u64 c = 0;
                        for (std::size_t j = 0; i + j < limbs; ++j) {
                            shim::u128 t = shim::u128(d[i]) * o.d[j] + r.d[i + j] + c;
                            r.d[i + j] = static_cast<shim::u64>(t);
                            c = static_cast<shim::u64>(t >> 64);
                        }
                    }
                    r.normalize();
                    return r;
                }
                // schoolbook shift-subtract division
                constexpr static void divmod(const cpp_int_modular_backend &a, const cpp_int_modular_backend &b,
                                             cpp_int_modular_backend &q, cpp_int_modular_backend &r) {
                    VERIF_SHIM_TOUCH(a.d[0])
                    VERIF_SHIM_TOUCH(b.d[0])
                    cpp_int_modular_backend qq, rr;
                    divmod_core(a, b, qq, rr);
                    q = qq;
                    r = rr;
                }
                VERIF_SHIM_QUIET constexpr static void divmod_core(const cpp_int_modular_backend &a, const cpp_int_modular_backend &b,
                                                                   cpp_int_modular_backend &q, cpp_int_modular_backend &r) {
                    if (b.is_zero()) {
                        throw std::overflow_error("Integer Division by zero.");
                    }
                    cpp_int_modular_backend qq, rr;
                    for (long i = a.top(); i >= 0; --i) {
                        const bool carry = rr.bit(bits - 1);
                        rr.shl(1);
                        rr.d[0] |= a.bit(i) ? 1u : 0u;
                        if (carry || rr.compare(b) >= 0) {
                            rr.sub(b);
                            rr.normalize();
                            qq.d[i / 64] |= shim::u64(1) << (i % 64);
                        }
                    }
                    q = qq;
                    r = rr;
                }
            };

            // Modulus plus Montgomery constants.  An aggregate of the backend so that
            // "modular_params_type p = modulus.backend();" works as in the original library.
            template<class Backend>
            struct modular_params {
                Backend m {};
                Backend r1 {};     // R mod m
                Backend r2 {};     // R^2 mod m
                shim::u64 ninv = 0;    // -m^{-1} mod 2^64
                bool odd = true;

                constexpr modular_params() = default;
                constexpr modular_params(const Backend &mod) : m(mod) {
                    odd = (mod.d[0] & 1u) != 0;
                    if (odd) {
                        shim::u64 x = 1;
                        for (int i = 0; i < 6; ++i) {
                            x *= 2 - mod.d[0] * x;
                        }
                        ninv = ~x + 1;
                        Backend one(1u), acc;
                        if (one.compare(mod) >= 0) {
                            one = Backend();
                        }
                        acc = one;
                        for (std::size_t i = 0; i < 64 * Backend::limbs; ++i) {
                            acc = dbl(acc);
                        }
                        r1 = acc;
                        for (std::size_t i = 0; i < 64 * Backend::limbs; ++i) {
                            acc = dbl(acc);
                        }
                        r2 = acc;
                    }
                }
                template<class B>
                constexpr modular_params(const number<B, et_off> &n) : modular_params(Backend(n.backend())) { }

                constexpr const Backend &get_mod() const {
                    return m;
                }

                constexpr Backend dbl(const Backend &a) const {
                    return add(a, a);
                }
                constexpr Backend add(Backend a, const Backend &b) const {
                    const bool carry = a.add(b);
                    if (carry || a.compare(m) >= 0) {
                        a.sub(m);
                    }
                    return a;
                }
                constexpr Backend sub(Backend a, const Backend &b) const {
                    if (a.sub(b)) {
                        a.add(m);
                    }
                    return a;
                }
                constexpr Backend mont_mul(const Backend &a, const Backend &b) const {
                    VERIF_SHIM_TOUCH(a.d[0])
                    VERIF_SHIM_TOUCH(b.d[0])
                    return mont_core(a, b);
                }
                VERIF_SHIM_QUIET constexpr Backend mont_core(const Backend &a, const Backend &b) const {
                    constexpr std::size_t n = Backend::limbs;
                    if (!odd) {
                        // plain double-and-add, residues are stored unscaled
                        Backend acc;
                        for (long i = b.top(); i >= 0; --i) {
                            acc = dbl(acc);
                            if (b.bit(i)) {
                                acc = add(acc, a);
                            }
                        }
                        return acc;
                    }
                    shim::u64 t[n + 2] {};
                    for (std::size_t i = 0; i < n; ++i) {
                        shim::u64 c = 0;
                        for (std::size_t j = 0; j < n; ++j) {
                            shim::u128 s = shim::u128(a.d[j]) * b.d[i] + t[j] + c;
                            t[j] = static_cast<shim::u64>(s);
                            c = static_cast<shim::u64>(s >> 64);
                        }
                        shim::u128 s = shim::u128(t[n]) + c;
                        t[n] = static_cast<shim::u64>(s);
                        t[n + 1] = static_cast<shim::u64>(s >> 64);
                        const shim::u64 q = t[0] * ninv;
                        s = shim::u128(q) * m.d[0] + t[0];
                        c = static_cast<shim::u64>(s >> 64);
                        for (std::size_t j = 1; j < n; ++j) {
                            s = shim::u128(q) * m.d[j] + t[j] + c;
                            t[j - 1] = static_cast<shim::u64>(s);
                            c = static_cast<shim::u64>(s >> 64);
                        }
                        s = shim::u128(t[n]) + c;
                        t[n - 1] = static_cast<shim::u64>(s);
                        t[n] = t[n + 1] + static_cast<shim::u64>(s >> 64);
                    }
                    Backend r;
                    for (std::size_t j = 0; j < n; ++j) {
                        r.d[j] = t[j];
                    }
                    if (t[n] || r.compare(m) >= 0) {
                        r.sub(m);
                    }
                    return r;
                }
                template<unsigned Bits2>
                constexpr Backend reduce(const cpp_int_modular_backend<Bits2> &v) const {
                    // Horner over the bits: exact for any width.
                    constexpr unsigned W = Bits2 > Backend::bits ? Bits2 : Backend::bits;
                    const cpp_int_modular_backend<W> wv(v), wm(m);
                    if (wv.compare(wm) < 0) {
                        return Backend(wv);
                    }
                    Backend acc, one(1u);
                    if (one.compare(m) >= 0) {
                        return Backend();
                    }
                    for (long i = v.top(); i >= 0; --i) {
                        acc = dbl(acc);
                        if (v.bit(i)) {
                            acc = add(acc, one);
                        }
                    }
                    return acc;
                }
                constexpr Backend to_mont(const Backend &canon) const {
                    return odd ? mont_mul(canon, r2) : canon;
                }
                constexpr Backend from_mont(const Backend &v) const {
                    return odd ? mont_mul(v, Backend(1u)) : v;
                }
            };

            template<class Backend, const modular_params<Backend> &Params>
            struct modular_params_ct {
                typedef modular_params<Backend> params_type;
                constexpr static const params_type &get() {
                    return Params;
                }
            };

            template<class Backend, class Storage>
            struct modular_adaptor {
                typedef Backend backend_type;
                typedef modular_params<Backend> params_type;
                Backend v {};    // Montgomery form

                constexpr static const params_type &params() {
                    return Storage::get();
                }
                constexpr modular_adaptor() = default;
                constexpr modular_adaptor(const modular_adaptor &) = default;
                constexpr modular_adaptor &operator=(const modular_adaptor &) = default;

                template<unsigned Bits2>
                constexpr modular_adaptor(const cpp_int_modular_backend<Bits2> &b, const params_type &)
                    : v(params().to_mont(params().reduce(b))) { }
                template<class S2>
                constexpr modular_adaptor(const modular_adaptor<Backend, S2> &b, const params_type &)
                    : v(params().to_mont(params().reduce(b.canonical()))) { }
                template<class B2, class S2, typename std::enable_if<!std::is_same<B2, Backend>::value, bool>::type = true>
                constexpr modular_adaptor(const modular_adaptor<B2, S2> &b, const params_type &)
                    : v(params().to_mont(params().reduce(b.canonical()))) { }
                template<class I, typename std::enable_if<shim::is_builtin_int<I>::value, bool>::type = true>
                constexpr modular_adaptor(I i, const params_type &) {
                    const bool neg = i < I(0);
                    shim::u128 w = static_cast<shim::u128>(i);
                    if (neg) {
                        w = ~w + 1;
                    }
                    v = params().to_mont(params().reduce(cpp_int_modular_backend<128>(w)));
                    if (neg) {
                        v = params().sub(Backend(), v);
                    }
                }
                constexpr Backend canonical() const {
                    return params().from_mont(v);
                }
            };
        }    // namespace backends

        namespace shim {
            template<class B>
            struct is_modular : std::false_type { };
            template<class B, class S>
            struct is_modular<backends::modular_adaptor<B, S>> : std::true_type { };
        }    // namespace shim

        // ---------------------------------------------------------------- plain integers
        template<unsigned Bits, expression_template_option ET>
        class number<backends::cpp_int_modular_backend<Bits>, ET> {
        public:
            typedef backends::cpp_int_modular_backend<Bits> backend_type;
            typedef number value_type;

        private:
            backend_type m_b;
            template<class T>
            using if_int = typename std::enable_if<shim::is_builtin_int<T>::value, bool>::type;

        public:
            constexpr number() = default;
            constexpr number(const number &) = default;
            constexpr number &operator=(const number &) = default;
            constexpr number(const backend_type &b) : m_b(b) { }
            template<class I, if_int<I> = true>
            constexpr number(I v) : m_b(v) { }
            template<unsigned B2, expression_template_option E2, typename std::enable_if<B2 != Bits, bool>::type = true>
            constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &o) : m_b(o.backend()) { }
            template<class B2, class S2, expression_template_option E2>
            explicit constexpr number(const number<backends::modular_adaptor<B2, S2>, E2> &o)
                : m_b(o.backend().canonical()) { }
            explicit number(const char *s) : m_b() {
                parse(s);
            }
            explicit number(const std::string &s) : m_b() {
                parse(s.c_str());
            }
            template<class I, if_int<I> = true>
            constexpr number &operator=(I v) {
                m_b = backend_type(v);
                return *this;
            }

            constexpr backend_type &backend() {
                return m_b;
            }
            constexpr const backend_type &backend() const {
                return m_b;
            }
            constexpr bool is_zero() const {
                return m_b.is_zero();
            }
            constexpr int sign() const {
                return m_b.is_zero() ? 0 : 1;
            }
            constexpr int compare(const number &o) const {
                return m_b.compare(o.m_b);
            }
            constexpr void swap(number &o) {
                const backend_type t = m_b;
                m_b = o.m_b;
                o.m_b = t;
            }
            constexpr number operator+() const {
                return *this;
            }
            template<class T>
            constexpr T convert_to() const {
                return static_cast<T>(*this);
            }
            template<class I, if_int<I> = true>
            explicit constexpr operator I() const {
                shim::u128 w = m_b.d[0];
                if (backend_type::limbs > 1) {
                    w |= shim::u128(m_b.d[backend_type::limbs > 1 ? 1 : 0]) << 64;
                }
                if (std::is_same<I, bool>::value) {
                    return static_cast<I>(!is_zero());
                }
                return static_cast<I>(w);
            }

            constexpr number &operator+=(const number &o) {
                m_b.add(o.m_b);
                m_b.normalize();
                return *this;
            }
            constexpr number &operator-=(const number &o) {
                m_b.sub(o.m_b);
                m_b.normalize();
                return *this;
            }
            constexpr number &operator*=(const number &o) {
                m_b = m_b.mul(o.m_b);
                return *this;
            }
            constexpr number &operator/=(const number &o) {
                backend_type q, r;
                backend_type::divmod(m_b, o.m_b, q, r);
                m_b = q;
                return *this;
            }
            constexpr number &operator%=(const number &o) {
                backend_type q, r;
                backend_type::divmod(m_b, o.m_b, q, r);
                m_b = r;
                return *this;
            }
            constexpr number &operator&=(const number &o) {
                for (std::size_t i = 0; i < backend_type::limbs; ++i) {
                    m_b.d[i] &= o.m_b.d[i];
                }
                return *this;
            }
            constexpr number &operator|=(const number &o) {
                for (std::size_t i = 0; i < backend_type::limbs; ++i) {
                    m_b.d[i] |= o.m_b.d[i];
                }
                return *this;
            }
            constexpr number &operator^=(const number &o) {
                for (std::size_t i = 0; i < backend_type::limbs; ++i) {
                    m_b.d[i] ^= o.m_b.d[i];
                }
                return *this;
            }
            constexpr number operator~() const {
                number r(*this);
                for (std::size_t i = 0; i < backend_type::limbs; ++i) {
                    r.m_b.d[i] = ~r.m_b.d[i];
                }
                r.m_b.normalize();
                return r;
            }
            template<class I, if_int<I> = true>
            constexpr number &operator<<=(I n) {
                m_b.shl(static_cast<std::size_t>(n));
                return *this;
            }
            template<class I, if_int<I> = true>
            constexpr number &operator>>=(I n) {
                m_b.shr(static_cast<std::size_t>(n));
                return *this;
            }
            template<class I, if_int<I> = true>
            friend constexpr number operator<<(number a, I n) {
                return a <<= n;
            }
            template<class I, if_int<I> = true>
            friend constexpr number operator>>(number a, I n) {
                return a >>= n;
            }
            constexpr number &operator++() {
                return *this += number(1u);
            }
            constexpr number &operator--() {
                return *this -= number(1u);
            }
            constexpr number operator++(int) {
                number t(*this);
                ++*this;
                return t;
            }
            constexpr number operator--(int) {
                number t(*this);
                --*this;
                return t;
            }

#define VERIF_SHIM_BIN(op)                                                     \
    friend constexpr number operator op(number a, const number &b) {           \
        return a op## = b;                                                     \
    }                                                                          \
    template<class I, if_int<I> = true>                                        \
    friend constexpr number operator op(number a, I b) {                       \
        return a op## = number(b);                                             \
    }                                                                          \
    template<class I, if_int<I> = true>                                        \
    friend constexpr number operator op(I a, const number &b) {                \
        number t(a);                                                           \
        return t op## = b;                                                     \
    }
#undef VERIF_SHIM_BIN
#define VERIF_SHIM_BIN(op, opa)                                                \
    friend constexpr number operator op(number a, const number &b) {           \
        return a opa b;                                                        \
    }                                                                          \
    template<class I, if_int<I> = true>                                        \
    friend constexpr number operator op(number a, I b) {                       \
        return a opa number(b);                                                \
    }                                                                          \
    template<class I, if_int<I> = true>                                        \
    friend constexpr number operator op(I a, const number &b) {                \
        number t(a);                                                           \
        return t opa b;                                                        \
    }
            VERIF_SHIM_BIN(+, +=)
            VERIF_SHIM_BIN(-, -=)
            VERIF_SHIM_BIN(*, *=)
            VERIF_SHIM_BIN(/, /=)
            VERIF_SHIM_BIN(%, %=)
            VERIF_SHIM_BIN(&, &=)
            VERIF_SHIM_BIN(|, |=)
            VERIF_SHIM_BIN(^, ^=)
#undef VERIF_SHIM_BIN

#define VERIF_SHIM_CMP(op)                                                     \
    friend constexpr bool operator op(const number &a, const number &b) {      \
        return a.compare(b) op 0;                                              \
    }                                                                          \
    template<class I, if_int<I> = true>                                        \
    friend constexpr bool operator op(const number &a, I b) {                  \
        return (b < I(0) ? 1 : a.compare(number(b))) op 0;                     \
    }                                                                          \
    template<class I, if_int<I> = true>                                        \
    friend constexpr bool operator op(I a, const number &b) {                  \
        return (a < I(0) ? -1 : number(a).compare(b)) op 0;                    \
    }
            VERIF_SHIM_CMP(==)
            VERIF_SHIM_CMP(!=)
            VERIF_SHIM_CMP(<)
            VERIF_SHIM_CMP(>)
            VERIF_SHIM_CMP(<=)
            VERIF_SHIM_CMP(>=)
#undef VERIF_SHIM_CMP

            std::string str(int base = 10) const {
                if (is_zero()) {
                    return "0";
                }
                std::string s;
                backend_type t(m_b);
                const unsigned div = base == 16 ? 16 : 10;
                while (!t.is_zero()) {
                    shim::u64 r = 0;
                    for (std::size_t i = backend_type::limbs; i-- > 0;) {
                        shim::u128 w = (shim::u128(r) << 64) | t.d[i];
                        t.d[i] = static_cast<shim::u64>(w / div);
                        r = static_cast<shim::u64>(w % div);
                    }
                    s.push_back("0123456789abcdef"[r]);
                }
                std::reverse(s.begin(), s.end());
                return s;
            }
            std::string str(std::streamsize, std::ios_base::fmtflags flags) const {
                const bool hex = (flags & std::ios_base::basefield) == std::ios_base::hex;
                return (hex && (flags & std::ios_base::showbase) ? "0x" : "") + str(hex ? 16 : 10);
            }
            friend std::ostream &operator<<(std::ostream &os, const number &n) {
                const bool hex = (os.flags() & std::ios_base::basefield) == std::ios_base::hex;
                if (hex && (os.flags() & std::ios_base::showbase)) {
                    os << "0x";
                }
                return os << n.str(hex ? 16 : 10);
            }

        private:
            void parse(const char *s) {
                unsigned base = 10;
                if (s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) {
                    base = 16;
                    s += 2;
                }
                for (; *s; ++s) {
                    unsigned v = *s >= 'a' ? *s - 'a' + 10 : *s >= 'A' ? *s - 'A' + 10 : *s - '0';
                    if (v >= base) {
                        throw std::runtime_error("bad digit");
                    }
                    *this *= number(base);
                    *this += number(v);
                }
            }
        };

        // mixed-width integer comparisons and arithmetic go to the wider type
        template<unsigned A, unsigned B>
        using wider_number = number<backends::cpp_int_modular_backend<(A > B ? A : B)>, et_off>;
#define VERIF_SHIM_MIX(op, R)                                                                                  \
    template<unsigned A, unsigned B, typename std::enable_if<A != B, bool>::type = true>                       \
    constexpr R operator op(const number<backends::cpp_int_modular_backend<A>, et_off> &a,                     \
                            const number<backends::cpp_int_modular_backend<B>, et_off> &b) {                   \
        return wider_number<A, B>(a) op wider_number<A, B>(b);                                                 \
    }
#define VERIF_COMMA ,
        VERIF_SHIM_MIX(==, bool)
        VERIF_SHIM_MIX(!=, bool)
        VERIF_SHIM_MIX(<, bool)
        VERIF_SHIM_MIX(>, bool)
        VERIF_SHIM_MIX(<=, bool)
        VERIF_SHIM_MIX(>=, bool)
        VERIF_SHIM_MIX(+, wider_number<A VERIF_COMMA B>)
        VERIF_SHIM_MIX(-, wider_number<A VERIF_COMMA B>)
        VERIF_SHIM_MIX(*, wider_number<A VERIF_COMMA B>)
        VERIF_SHIM_MIX(/, wider_number<A VERIF_COMMA B>)
        VERIF_SHIM_MIX(%, wider_number<A VERIF_COMMA B>)
#undef VERIF_SHIM_MIX
#undef VERIF_COMMA

        // ---------------------------------------------------------------- residues
        template<class Bk, class St, expression_template_option ET>
        class number<backends::modular_adaptor<Bk, St>, ET> {
        public:
            typedef backends::modular_adaptor<Bk, St> backend_type;
            typedef number value_type;
            typedef number<Bk, et_off> plain_type;

        private:
            backend_type m_b;
            template<class T>
            using if_int = typename std::enable_if<shim::is_builtin_int<T>::value, bool>::type;
            struct raw { };
            constexpr number(const Bk &v, raw) {
                m_b.v = v;
            }

        public:
            constexpr number() = default;
            constexpr number(const number &) = default;
            constexpr number &operator=(const number &) = default;
            constexpr number(const backend_type &b) : m_b(b) { }
            template<class I, if_int<I> = true>
            constexpr number(I v) : m_b(v, backend_type::params()) { }
            template<class V>
            constexpr number(const V &v, const backends::modular_params<Bk> &p) : m_b(v, p) { }
            template<unsigned B2, expression_template_option E2>
            explicit constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &o)
                : m_b(o.backend(), backend_type::params()) { }

            constexpr backend_type &backend() {
                return m_b;
            }
            constexpr const backend_type &backend() const {
                return m_b;
            }
            constexpr bool is_zero() const {
                return m_b.v.is_zero();
            }
            constexpr plain_type plain() const {
                return plain_type(m_b.canonical());
            }
            constexpr int compare(const number &o) const {
                return m_b.v.compare(o.m_b.v) == 0 ? 0 : m_b.canonical().compare(o.m_b.canonical());
            }
            template<class T>
            constexpr T convert_to() const {
                return static_cast<T>(plain());
            }
            template<class I, if_int<I> = true>
            explicit constexpr operator I() const {
                return static_cast<I>(plain());
            }
            constexpr number &operator+=(const number &o) {
                m_b.v = backend_type::params().add(m_b.v, o.m_b.v);
                return *this;
            }
            constexpr number &operator-=(const number &o) {
                m_b.v = backend_type::params().sub(m_b.v, o.m_b.v);
                return *this;
            }
            constexpr number &operator*=(const number &o) {
                m_b.v = backend_type::params().mont_mul(m_b.v, o.m_b.v);
                return *this;
            }
            constexpr number &operator/=(const number &o);
            friend constexpr number operator/(number a, const number &b) {
                return a /= b;
            }
            constexpr number &operator++() {
                return *this += number(1u);
            }
            constexpr number &operator--() {
                return *this -= number(1u);
            }
            constexpr number operator++(int) {
                const number r = *this;
                ++*this;
                return r;
            }
            constexpr number operator--(int) {
                const number r = *this;
                --*this;
                return r;
            }
            constexpr void swap(number &o) {
                const number t = *this;
                *this = o;
                o = t;
            }
            constexpr number operator+() const {
                return *this;
            }
            constexpr int sign() const {
                return is_zero() ? 0 : 1;
            }
            template<unsigned B2, expression_template_option E2>
            constexpr number &operator=(const number<backends::cpp_int_modular_backend<B2>, E2> &o) {
                return *this = number(o);
            }
            constexpr number operator-() const {
                number r;
                r -= *this;
                return r;
            }
            friend constexpr number operator+(number a, const number &b) {
                return a += b;
            }
            friend constexpr number operator-(number a, const number &b) {
                return a -= b;
            }
            friend constexpr number operator*(number a, const number &b) {
                return a *= b;
            }
#define VERIF_SHIM_CMP(op)                                                     \
    friend constexpr bool operator op(const number &a, const number &b) {      \
        return a.compare(b) op 0;                                              \
    }                                                                          \
    template<class I, if_int<I> = true>                                        \
    friend constexpr bool operator op(const number &a, I b) {                  \
        return a.plain() op b;                                                 \
    }
            VERIF_SHIM_CMP(==)
            VERIF_SHIM_CMP(!=)
            VERIF_SHIM_CMP(<)
            VERIF_SHIM_CMP(>)
            VERIF_SHIM_CMP(<=)
            VERIF_SHIM_CMP(>=)
#undef VERIF_SHIM_CMP
            std::string str() const {
                return plain().str();
            }
            friend std::ostream &operator<<(std::ostream &os, const number &n) {
                return os << n.plain();
            }
        };

        typedef number<backends::cpp_int_modular_backend<128>> uint128_t;
        typedef number<backends::cpp_int_modular_backend<256>> uint256_t;
        typedef number<backends::cpp_int_modular_backend<512>> uint512_t;

        // ---------------------------------------------------------------- free functions
        namespace shim {
            template<class B, expression_template_option E>
            constexpr const number<B, E> &plain(const number<B, E> &n) {
                return n;
            }
            template<class B, class S, expression_template_option E>
            constexpr number<B, et_off> plain(const number<backends::modular_adaptor<B, S>, E> &n) {
                return n.plain();
            }
        }    // namespace shim

        template<class B, expression_template_option E>
        constexpr std::size_t msb(const number<B, E> &n) {
            const long t = shim::plain(n).backend().top();
            if (t < 0) {
                throw std::range_error("No bits were set in the operand.");
            }
            return static_cast<std::size_t>(t);
        }
        template<class I, typename std::enable_if<shim::is_builtin_int<I>::value, bool>::type = true>
        constexpr std::size_t msb(I v) {
            return msb(number<backends::cpp_int_modular_backend<128>>(v));
        }
        template<class B, expression_template_option E>
        constexpr bool bit_test(const number<B, E> &n, std::size_t i) {
            return shim::plain(n).backend().bit(i);
        }
        template<class I, typename std::enable_if<shim::is_builtin_int<I>::value, bool>::type = true>
        constexpr bool bit_test(I v, std::size_t i) {
            return i < 128 && ((static_cast<shim::u128>(v) >> i) & 1u);
        }
        template<class B, class S, expression_template_option E, class B2, expression_template_option E2>
        constexpr number<backends::modular_adaptor<B, S>, E> powm(const number<backends::modular_adaptor<B, S>, E> &b,
                                                                  const number<B2, E2> &e_) {
            typedef number<backends::modular_adaptor<B, S>, E> M;
            M r(1u);
            const auto e = shim::plain(e_);
            for (long i = e.backend().top(); i >= 0; --i) {
                r *= r;
                if (e.backend().bit(i)) {
                    r *= b;
                }
            }
            return r;
        }
        template<class B, class S, expression_template_option E, class I,
                 typename std::enable_if<shim::is_builtin_int<I>::value, bool>::type = true>
        constexpr number<backends::modular_adaptor<B, S>, E> powm(const number<backends::modular_adaptor<B, S>, E> &b,
                                                                  I e) {
            return powm(b, uint128_t(e));
        }
        template<class T>
        constexpr T shim_gcd(T a, T b) {
            while (b != 0u) {
                T t = a % b;
                a = b;
                b = t;
            }
            return a;
        }
        template<class B, expression_template_option E>
        constexpr number<B, E> gcd(const number<B, E> &a, const number<B, E> &b) {
            return shim_gcd(a, b);
        }

        // Inverse of a residue; zero (and any non-unit) maps to zero.
        template<class B, class S, expression_template_option E>
        constexpr number<backends::modular_adaptor<B, S>, E>
            inverse_mod(const number<backends::modular_adaptor<B, S>, E> &a) {
            typedef number<backends::modular_adaptor<B, S>, E> M;
            typedef backends::modular_params<B> P;
            const P &p = backends::modular_adaptor<B, S>::params();
            if (a.is_zero()) {
                return M(0u);
            }
            // binary extended gcd with halving modulo the odd modulus
            typedef backends::cpp_int_modular_backend<B::bits + 2> W;
            W u(a.backend().canonical()), v(p.m), m(p.m);
            W x1(1u), x2(0u);
            const W one(1u);
            while (u.compare(one) != 0 && v.compare(one) != 0) {
                if (u.is_zero() || v.is_zero()) {
                    return M(0u);
                }
                while (!(u.d[0] & 1u)) {
                    u.shr(1);
                    if (x1.d[0] & 1u) {
                        x1.add(m);
                    }
                    x1.shr(1);
                }
                while (!(v.d[0] & 1u)) {
                    v.shr(1);
                    if (x2.d[0] & 1u) {
                        x2.add(m);
                    }
                    x2.shr(1);
                }
                if (u.compare(v) >= 0) {
                    u.sub(v);
                    if (x1.compare(x2) < 0) {
                        x1.add(m);
                    }
                    x1.sub(x2);
                } else {
                    v.sub(u);
                    if (x2.compare(x1) < 0) {
                        x2.add(m);
                    }
                    x2.sub(x1);
                }
            }
            const W r = u.compare(one) == 0 ? x1 : x2;
            return M(number<backends::cpp_int_modular_backend<B::bits + 2>>(r));
        }

        // Square root modulo an odd prime (Tonelli-Shanks); zero when there is none.
        template<class B, class S, expression_template_option E>
        constexpr number<backends::modular_adaptor<B, S>, E>
            ressol(const number<backends::modular_adaptor<B, S>, E> &a) {
            typedef number<backends::modular_adaptor<B, S>, E> M;
            typedef number<B, et_off> I;
            const I p(backends::modular_adaptor<B, S>::params().m);
            const M one(1u);
            if (a.is_zero()) {
                return M(0u);
            }
            I pm1 = p - I(1u);
            I half = pm1 >> 1;
            if (!(powm(a, half) == one)) {
                return M(0u);
            }
            I t = pm1;
            std::size_t s = 0;
            while (!t.backend().bit(0)) {
                t >>= 1;
                ++s;
            }
            M z(2u);
            while (powm(z, half) == one) {
                z += one;
            }
            M c = powm(z, t), x = powm(a, (t >> 1) + I(1u)), b = powm(a, t);
            std::size_t mm = s;
            while (!(b == one)) {
                std::size_t i = 0;
                M b2 = b;
                while (!(b2 == one)) {
                    b2 *= b2;
                    ++i;
                }
                M w = c;
                for (std::size_t j = 0; j + i + 1 < mm; ++j) {
                    w *= w;
                }
                x *= w;
                c = w * w;
                b *= c;
                mm = i;
            }
            return x;
        }

        // Width-w non-adjacent form, least significant digit first (as in libff): digits are odd and
        // smaller than 2^w in absolute value.
        template<class B, expression_template_option E>
        inline std::vector<long> find_wnaf(const std::size_t window_size, const number<B, E> &scalar_) {
            const auto pl = shim::plain(scalar_);
            typedef typename std::decay<decltype(pl)>::type PL;
            constexpr unsigned bits = PL::backend_type::bits;
            number<backends::cpp_int_modular_backend<bits + 64>> c(pl);
            std::vector<long> res(bits + 1, 0);
            std::size_t j = 0;
            while (!c.is_zero()) {
                long u = 0;
                if (c.backend().bit(0)) {
                    u = static_cast<long>(c.backend().d[0] % (1ull << (window_size + 1)));
                    if (u > (1l << window_size)) {
                        u = u - (1l << (window_size + 1));
                    }
                    if (u > 0) {
                        c -= static_cast<unsigned long>(u);
                    } else {
                        c += static_cast<unsigned long>(-u);
                    }
                }
                res.at(j) = u;
                ++j;
                c >>= 1;
            }
            return res;
        }

        template<class Bk, class St, expression_template_option ET>
        constexpr number<backends::modular_adaptor<Bk, St>, ET> &
            number<backends::modular_adaptor<Bk, St>, ET>::operator/=(const number &o) {
            return *this *= inverse_mod(o);
        }

        // The rest of the interface: the library does not call it today.
        template<class B, expression_template_option E>
        constexpr void swap(number<B, E> &a, number<B, E> &b) {
            a.swap(b);
        }
        template<class B, expression_template_option E>
        constexpr std::size_t lsb(const number<B, E> &n) {
            std::size_t i = 0;
            for (const std::size_t top = msb(n); i < top && !bit_test(n, i);) {
                ++i;
            }
            return i;
        }
        template<unsigned Bits, expression_template_option E>
        constexpr number<backends::cpp_int_modular_backend<Bits>, E> &
            bit_set(number<backends::cpp_int_modular_backend<Bits>, E> &n, std::size_t i) {
            return n |= number<backends::cpp_int_modular_backend<Bits>, E>(1u) << i;
        }
        template<unsigned Bits, expression_template_option E>
        constexpr number<backends::cpp_int_modular_backend<Bits>, E> &
            bit_flip(number<backends::cpp_int_modular_backend<Bits>, E> &n, std::size_t i) {
            return n ^= number<backends::cpp_int_modular_backend<Bits>, E>(1u) << i;
        }
        template<unsigned Bits, expression_template_option E>
        constexpr number<backends::cpp_int_modular_backend<Bits>, E> &
            bit_unset(number<backends::cpp_int_modular_backend<Bits>, E> &n, std::size_t i) {
            return bit_test(n, i) ? bit_flip(n, i) : n;
        }
        template<unsigned Bits, expression_template_option E>
        constexpr number<backends::cpp_int_modular_backend<Bits>, E>
            abs(const number<backends::cpp_int_modular_backend<Bits>, E> &n) {
            return n;
        }
        template<class B, expression_template_option E>
        constexpr number<B, E> lcm(const number<B, E> &a, const number<B, E> &b) {
            return a.is_zero() || b.is_zero() ? number<B, E>(0u) : a / gcd(a, b) * b;
        }
        template<class B, expression_template_option E, class I,
                 typename std::enable_if<shim::is_builtin_int<I>::value, bool>::type = true>
        constexpr number<B, E> pow(const number<B, E> &b, I e) {
            number<B, E> r(1u);
            const uint128_t w(e);
            for (long i = w.backend().top(); i >= 0; --i) {
                r *= r;
                if (w.backend().bit(i)) {
                    r *= b;
                }
            }
            return r;
        }
        template<class B, class S, expression_template_option E, unsigned B2, expression_template_option E2>
        constexpr number<backends::modular_adaptor<B, S>, E>
            pow(const number<backends::modular_adaptor<B, S>, E> &b,
                const number<backends::cpp_int_modular_backend<B2>, E2> &e) {
            return powm(b, e);
        }
        template<unsigned Bits, expression_template_option E, class X>
        constexpr number<backends::cpp_int_modular_backend<Bits>, E>
            powm(const number<backends::cpp_int_modular_backend<Bits>, E> &b, const X &e,
                 const number<backends::cpp_int_modular_backend<Bits>, E> &m) {
            typedef number<backends::cpp_int_modular_backend<2 * Bits>> W;
            const number<backends::cpp_int_modular_backend<(Bits > 128 ? Bits : 128)>> x(e);
            W r(1u), w(b), p(m);
            r %= p;
            w %= p;
            for (long i = x.backend().top(); i >= 0; --i) {
                r = r * r % p;
                if (x.backend().bit(i)) {
                    r = r * w % p;
                }
            }
            return number<backends::cpp_int_modular_backend<Bits>, E>(r);
        }
        template<unsigned Bits, expression_template_option E>
        constexpr number<backends::cpp_int_modular_backend<Bits>, E>
            sqrt(const number<backends::cpp_int_modular_backend<Bits>, E> &n) {
            typedef number<backends::cpp_int_modular_backend<Bits>, E> N;
            N r(0u), rest(n);
            for (long i = n.backend().top() / 2; i >= 0 && !n.is_zero(); --i) {
                // (r + 2^i)^2 = r^2 + (2 r + 2^i) 2^i
                const number<backends::cpp_int_modular_backend<Bits + 2>> t =
                    ((number<backends::cpp_int_modular_backend<Bits + 2>>(r) << 1) +
                     (number<backends::cpp_int_modular_backend<Bits + 2>>(1u) << i));
                if (t <= number<backends::cpp_int_modular_backend<Bits + 2>>(rest >> i)) {
                    rest -= N(t) << i;
                    bit_set(r, i);
                }
            }
            return r;
        }
        template<class N, typename std::enable_if<is_number<N>::value, bool>::type = true>
        constexpr N &add(N &r, const N &a, const N &b) {
            return r = a + b;
        }
        template<class N, typename std::enable_if<is_number<N>::value, bool>::type = true>
        constexpr N &subtract(N &r, const N &a, const N &b) {
            return r = a - b;
        }
        template<class N, typename std::enable_if<is_number<N>::value, bool>::type = true>
        constexpr N &multiply(N &r, const N &a, const N &b) {
            return r = a * b;
        }
        template<unsigned Bits, expression_template_option E>
        constexpr void divide_qr(const number<backends::cpp_int_modular_backend<Bits>, E> &a,
                                 const number<backends::cpp_int_modular_backend<Bits>, E> &b,
                                 number<backends::cpp_int_modular_backend<Bits>, E> &q,
                                 number<backends::cpp_int_modular_backend<Bits>, E> &r) {
            const number<backends::cpp_int_modular_backend<Bits>, E> qq = a / b, rr = a % b;
            q = qq;
            r = rr;
        }
        template<unsigned Bits, expression_template_option E, class I,
                 typename std::enable_if<shim::is_builtin_int<I>::value, bool>::type = true>
        constexpr I integer_modulus(const number<backends::cpp_int_modular_backend<Bits>, E> &a, I m) {
            return static_cast<I>(a % m);
        }
        template<unsigned Bits, expression_template_option E>
        constexpr number<backends::cpp_int_modular_backend<Bits>, E>
            inverse_mod(const number<backends::cpp_int_modular_backend<Bits>, E> &a,
                        const number<backends::cpp_int_modular_backend<Bits>, E> &m) {
            typedef number<backends::cpp_int_modular_backend<2 * Bits + 2>> W;
            const W p(m);
            W r0(m), r1(a % m), t0(0u), t1(1u);
            while (!r1.is_zero()) {
                const W q = r0 / r1, r2 = r0 - q * r1, t2 = (t0 + p - q * t1 % p) % p;
                r0 = r1;
                r1 = r2;
                t0 = t1;
                t1 = t2;
            }
            return number<backends::cpp_int_modular_backend<Bits>, E>(r0 == 1u ? t0 : W(0u));
        }

        template<unsigned Bits, expression_template_option E, class OutputIterator>
        OutputIterator export_bits(const number<backends::cpp_int_modular_backend<Bits>, E> &val, OutputIterator out,
                                   unsigned chunk_size, bool msv_first = true) {
            const long top = val.backend().top();
            const long chunks = top < 0 ? 1 : top / static_cast<long>(chunk_size) + 1;
            for (long k = 0; k < chunks; ++k) {
                const long c = msv_first ? chunks - 1 - k : k;
                shim::u64 v = 0;
                for (unsigned i = 0; i < chunk_size; ++i) {
                    v |= shim::u64(val.backend().bit(c * chunk_size + i) ? 1 : 0) << i;
                }
                *out = v;
                ++out;
            }
            return out;
        }
        template<unsigned Bits, expression_template_option E, class Iterator>
        number<backends::cpp_int_modular_backend<Bits>, E> &
            import_bits(number<backends::cpp_int_modular_backend<Bits>, E> &val, Iterator first, Iterator last,
                        unsigned chunk_size = 0, bool msv_first = true) {
            if (!chunk_size) {
                chunk_size = 8 * sizeof(typename std::iterator_traits<Iterator>::value_type);
            }
            const std::size_t n = static_cast<std::size_t>(std::distance(first, last));
            val = 0u;
            std::size_t k = 0;
            for (; first != last; ++first, ++k) {
                const std::size_t c = msv_first ? n - 1 - k : k;
                const shim::u64 v = static_cast<shim::u64>(*first);
                for (unsigned i = 0; i < chunk_size; ++i) {
                    const std::size_t b = c * chunk_size + i;
                    if (((v >> i) & 1u) && b < Bits) {
                        val.backend().d[b / 64] |= shim::u64(1) << (b % 64);
                    }
                }
            }
            return val;
        }

        template<unsigned Bits, expression_template_option E>
        std::size_t hash_value(const number<backends::cpp_int_modular_backend<Bits>, E> &n) {
            std::size_t r = 0;
            for (auto l : n.backend().d) {
                boost::hash_combine(r, l);
            }
            return r;
        }
        template<class B, class S, expression_template_option E>
        std::size_t hash_value(const number<backends::modular_adaptor<B, S>, E> &n) {
            return hash_value(n.plain());
        }

        namespace shim {
            template<unsigned Bits>
            constexpr number<backends::cpp_int_modular_backend<Bits>> parse_hex(const char *s, std::size_t n) {
                backends::cpp_int_modular_backend<Bits> r;
                std::size_t pos = 0;
                for (std::size_t i = n; i-- > 2;) {
                    const char c = s[i];
                    const unsigned v = c >= 'a' ? c - 'a' + 10 : c >= 'A' ? c - 'A' + 10 : c - '0';
                    for (unsigned k = 0; k < 4; ++k, ++pos) {
                        if ((v >> k) & 1u) {
                            if (pos >= Bits) {
                                throw std::range_error("literal too wide");
                            }
                            r.d[pos / 64] |= u64(1) << (pos % 64);
                        }
                    }
                }
                return r;
            }
            template<unsigned Bits, char... C>
            constexpr number<backends::cpp_int_modular_backend<Bits>> literal() {
                constexpr char s[] = {C...};
                static_assert(sizeof...(C) > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X'), "hex literal expected");
                return parse_hex<Bits>(s, sizeof...(C));
            }
        }    // namespace shim
    }        // namespace multiprecision

    namespace random {
        template<unsigned Bits, boost::multiprecision::expression_template_option E>
        class uniform_int_distribution<
            boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Bits>, E>> {
        public:
            typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Bits>, E>
                result_type;
            typedef result_type input_type;

        private:
            result_type lo, hi;

        public:
            explicit uniform_int_distribution(const result_type &a = result_type(0u),
                                              const result_type &b = ~result_type(0u))
                : lo(a), hi(b) { }
            result_type min() const {
                return lo;
            }
            result_type max() const {
                return hi;
            }
            template<class Engine>
            result_type operator()(Engine &eng) {
                // rejection sampling over the bit length of the (inclusive) range
                const result_type span = hi - lo;
                const long top = span.backend().top();
                boost::random::uniform_int_distribution<std::uint32_t> word;
                for (;;) {
                    result_type r(0u);
                    for (std::size_t i = 0; i * 32 <= static_cast<std::size_t>(top < 0 ? 0 : top); ++i) {
                        result_type w(word(eng));
                        r |= (w << (32 * i));
                    }
                    if (top < 0) {
                        return lo;
                    }
                    for (std::size_t b = static_cast<std::size_t>(top) + 1; b < Bits; ++b) {
                        r.backend().d[b / 64] &= ~(1ull << (b % 64));
                    }
                    if (r <= span) {
                        return lo + r;
                    }
                }
            }
        };
    }    // namespace random
}    // namespace boost

namespace std {
    template<class B, boost::multiprecision::expression_template_option E>
    struct hash<boost::multiprecision::number<B, E>> {
        std::size_t operator()(const boost::multiprecision::number<B, E> &n) const {
            return hash_value(n);
        }
    };
    template<unsigned Bits, boost::multiprecision::expression_template_option E>
    class numeric_limits<
        boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Bits>, E>> {
        typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Bits>, E> N;

    public:
        constexpr static bool is_specialized = true;
        constexpr static bool is_signed = false;
        constexpr static bool is_integer = true;
        constexpr static bool is_exact = true;
        constexpr static int digits = Bits;
        constexpr static int radix = 2;
        constexpr static N min() {
            return N(0u);
        }
        constexpr static N max() {
            return ~N(0u);
        }
    };
}    // namespace std

// deduced return types: a width is instantiated only when a literal of that width is used
#define BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(Bits)                                                          \
    template<char... C>                                                                                              \
    constexpr auto operator"" _cppui_modular##Bits() {                                                               \
        return boost::multiprecision::shim::literal<(sizeof...(C) ? Bits : 0), C...>();                              \
    }
#include <nil/crypto3/multiprecision/shim_literals.inc>

#endif
