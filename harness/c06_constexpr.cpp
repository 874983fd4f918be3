// Every case is one expression evaluated twice: by the compiler, in a constant expression, and at run time on the same
// arguments hidden from the optimiser. PART 0 vectors, 1 matrices, 2 scalars, 3 fields, 4 points (GROUP of the registry), 5 helpers.
#include "vf.hpp"
#include <array>
#include <cassert>
#include <complex>
#include <cstring>
#include <sstream>
#include <tuple>
#include <type_traits>
#ifndef SEED
#define SEED 1
#endif
// up to three arguments
template<class A, class B, class C>
struct input {
    A p;
    B q;
    C r;
};
template<class A, class B = int, class C = int>
constexpr input<A, B, C> with(const A &p, const B &q = B(), const C &r = C()) {
    return {p, q, r};
}
template<class T>
__attribute__((noinline)) static const T &hidden(const T &v) {
    const T *p = &v;
    asm volatile("" : "+r"(p) : : "memory");
    return *p;
}
// ---- texts: every bit counts ----
template<class V, class = void>
struct has_data : std::false_type { };
template<class V>
struct has_data<V, std::void_t<decltype(std::declval<const V &>().data)>> : std::true_type { };
template<class V, class = void>
struct is_residue : std::false_type { };
template<class V>
struct is_residue<V, std::void_t<typename V::integral_type, typename V::modular_type, decltype(std::declval<const V &>().data)>> : std::true_type { };
#define HAS(name, expr)                       \
    template<class V, class = void>           \
    struct name : std::false_type { };        \
    template<class V>                         \
    struct name<V, std::void_t<decltype(expr)>> : std::true_type { };
HAS(is_point, std::declval<const V &>().X)
HAS(has_z, std::declval<const V &>().Z)
HAS(has_t, std::declval<const V &>().T)
HAS(is_matrix, V::row_size)
HAS(is_sized, V::size + 0)
HAS(is_range, std::declval<const V &>().begin())
HAS(is_constant_range, std::declval<const V &>().cbegin())
template<class T>
static void put(std::string &s, const T &v) {
    if constexpr (std::is_floating_point<T>::value) {
        char b[64];
        std::snprintf(b, sizeof b, "%a ", (double)v);
        s += b;
    } else if constexpr (std::is_arithmetic<T>::value) {
        s += std::to_string(v) + " ";
    } else if constexpr (is_point<T>::value) {
        put(s, v.X);
        put(s, v.Y);
        if constexpr (has_z<T>::value) {
            put(s, v.Z);
        }
        if constexpr (has_t<T>::value) {
            put(s, v.T);
        }
    } else if constexpr (is_residue<T>::value) {
        std::ostringstream o;
        o << std::hex << typename T::integral_type(v.data);
        s += o.str() + " ";
    } else if constexpr (has_data<T>::value) {
        for (const auto &x : v.data) {
            put(s, x);
        }
    } else if constexpr (is_matrix<T>::value) {
        for (std::size_t i = 0; i < T::column_size; ++i) {
            for (std::size_t j = 0; j < T::row_size; ++j) {
                put(s, v[i][j]);
            }
        }
    } else if constexpr (is_sized<T>::value) {
        for (std::size_t i = 0; i < T::size; ++i) {
            put(s, v[i]);
        }
    } else {
        s += "?";
    }
}
template<class T>
static void put(std::string &s, const std::complex<T> &v) {
    put(s, v.real());
    put(s, v.imag());
}
template<class T, std::size_t N>
static void put(std::string &s, const std::array<T, N> &v) {
    for (const auto &x : v) {
        put(s, x);
    }
}
template<class T>
static std::string text(const T &v) {
    std::string s;
    put(s, v);
    return s;
}
static std::string scope;
__attribute__((noinline)) static void compare(const char *what, const std::string &there, const std::string &here, const std::string &on) {
    vf::check(there == here, "constant and run-time value", vf::hash(vf::cat(scope, what, on)), there.find_first_not_of("0 ") != std::string::npos,
              [&] { return vf::cat(scope, what, "of", on.substr(0, 300), "is", there.substr(0, 300), "in a constant expression and", here.substr(0, 300), "at run time"); });
    vf::count("constant evaluations");
}
template<class I>
static std::string shown(const I &i) {
    std::string s;
    put(s, i.p);
    s += "| ";
    put(s, i.q);
    s += "| ";
    put(s, i.r);
    return s;
}
// an expression over p, q and r
#define CASE(what, in, ...)                                                                    \
    {                                                                                          \
        constexpr auto f = [](const auto &i) {                                                 \
            [[maybe_unused]] const auto &p = i.p;                                              \
            [[maybe_unused]] const auto &q = i.q;                                              \
            [[maybe_unused]] const auto &r = i.r;                                              \
            return __VA_ARGS__;                                                                \
        };                                                                                     \
        static constexpr auto args = in;                                                       \
        static constexpr auto there = f(args);                                                 \
        vf::at(vf::cat(scope, what));                                                          \
        compare(what, text(there), text(f(hidden(args))), shown(args));                        \
    }
// statements that make `out` from p, q and r
#define STEPS(what, in, ...)                                                                   \
    {                                                                                          \
        constexpr auto f = [](const auto &i) {                                                 \
            [[maybe_unused]] const auto &p = i.p;                                              \
            [[maybe_unused]] const auto &q = i.q;                                              \
            [[maybe_unused]] const auto &r = i.r;                                              \
            __VA_ARGS__;                                                                       \
            return out;                                                                        \
        };                                                                                     \
        static constexpr auto args = in;                                                       \
        static constexpr auto there = f(args);                                                 \
        vf::at(vf::cat(scope, what));                                                          \
        compare(what, text(there), text(f(hidden(args))), shown(args));                        \
    }
#define SAME(in, ...) CASE(#__VA_ARGS__, in, __VA_ARGS__)

// ---- seeded arguments, known to the compiler ----
constexpr unsigned long long scramble(unsigned long long x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
constexpr unsigned long long draw(unsigned long long k) {
    return scramble(SEED * 1000003ull + k);
}
template<class T>
struct value_of {
    static constexpr T get(unsigned long long k) {
        if constexpr (std::is_floating_point<T>::value) {
            return k % 7 == 3 ? T(0) : T((long long)(draw(k) % 2000001) - 1000000) / T(977);
        } else if constexpr (std::is_signed<T>::value) {
            return T((long long)(draw(k) % 41) - 20);
        } else {
            return T(draw(k) % 41);
        }
    }
};
template<class T>
struct value_of<std::complex<T>> {
    static constexpr std::complex<T> get(unsigned long long k) {
        return {value_of<T>::get(2 * k), value_of<T>::get(2 * k + 1)};
    }
};

#if PART == 0
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
using namespace nil::crypto3::algebra;
template<class T, std::size_t N>
constexpr vector<T, N> vec(unsigned long long k) {
    vector<T, N> v {};
    for (std::size_t i = 0; i < N; ++i) {
        v[i] = value_of<T>::get(k * 100 + i);
    }
    return v;
}
template<class T, std::size_t N, unsigned long long K>
static void vectors(const char *name) {
    scope = vf::cat("vector of", N, name);
    constexpr bool real_numbers = std::is_arithmetic<T>::value, floats = std::is_floating_point<T>::value;
    constexpr auto a = with(vec<T, N>(K), vec<T, N>(K + 1), value_of<T>::get(K + 2));
    SAME(a, p == q)
    SAME(a, p != q)
    SAME(with(vec<T, N>(K), vec<T, N>(K)), p == q)
    SAME(a, vector(p))
    SAME(a, rotate(p, 1))
    SAME(a, rotate(p, -1))
    SAME(a, rotate(p, 2 * int(N) + 1))
    SAME(a, rotate(p, -3 * int(N) - 1))
    SAME(a, slice<(N + 1) / 2>(p, N / 2))
    SAME(a, slice<1>(p, N - 1))
    SAME(a, slice<N>(p))
    SAME(a, concat(p, q))
    SAME(a, concat(concat(p, q), p))
    SAME(a, fill<N>(r))
    SAME(a, generate<N>([&p](std::size_t i) { return p[N - 1 - i]; }))
    SAME(a, elementwise([](T x, T y) { return x == y ? y : x; }, p, q))
    SAME(a, accumulate(p, std::size_t(3), [](std::size_t n, T x) { return 3 * n + (x == T() ? 1 : 2); }))
    SAME(a, nil::crypto3::algebra::conj(p))
    if constexpr (!real_numbers || floats) {
        SAME(a, real(p))
        SAME(a, imag(p))
    }
    STEPS("assignment to elements", a, auto out = p; for (std::size_t i = 0; i < N; ++i) out[i] = q[N - 1 - i])
    STEPS("loop over iterators", a, auto out = p; auto from = q.cbegin(); for (auto &x : out) x = *from++)
    SAME(a, p.cend() - p.cbegin())
    if constexpr (real_numbers) {
        SAME(a, p + q)
        SAME(a, p * q)
        SAME(a, p + r)
        SAME(a, r + p)
        SAME(a, p * r)
        SAME(a, r * p)
        SAME(a, dot(p, q))
        SAME(a, sum(p))
        SAME(a, min(p))
        SAME(a, max(p))
        SAME(a, min_index(p))
        SAME(a, max_index(p))
        SAME(a, iota<N>(r))
        SAME(a, abs(p))
        SAME(a, cast<double>(p))
        SAME(a, cast<float>(p))
        SAME(a, cast<bool>(p))
        SAME(a, accumulate(p, r, [](T x, T y) { return x * T(2) + y; }))
        SAME(a, make_vector(p[0], r, q[0]))
    }
    if constexpr (floats) {
        SAME(a, p / (q * q + T(1)))
        SAME(a, r / (p * p + T(1)))
        SAME(a, nil::crypto3::algebra::sqrt(p * p))
        SAME(a, linspace<N + 1>(T(-3), r))
        SAME(a, linspace<2>(r, T(8)))
        SAME(a, cast<int>(p))
    }
    if constexpr (!real_numbers) {
        SAME(a, abs(p))
    }
}
template<class T, unsigned long long K>
static void lengths(const char *name) {
    vectors<T, 1, K>(name);
    vectors<T, 2, K + 10>(name);
    vectors<T, 3, K + 20>(name);
    vectors<T, 7, K + 30>(name);
}
VF_MAIN("c06") {
    lengths<int, 1000>("int");
    lengths<unsigned long long, 2000>("unsigned long long");
    lengths<double, 3000>("double");
    lengths<float, 4000>("float");
    lengths<std::complex<double>, 5000>("complex<double>");
}
#elif PART == 1
#include <nil/crypto3/algebra/matrix/math.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
using namespace nil::crypto3::algebra;
template<class T, std::size_t N>
constexpr vector<T, N> vec(unsigned long long k) {
    vector<T, N> v {};
    for (std::size_t i = 0; i < N; ++i) {
        v[i] = value_of<T>::get(k * 100 + i);
    }
    return v;
}
template<class T, std::size_t R, std::size_t C>
constexpr matrix<T, R, C> mat(unsigned long long k) {
    matrix<T, R, C> m {};
    for (std::size_t i = 0; i < R; ++i) {
        for (std::size_t j = 0; j < C; ++j) {
            m[i][j] = value_of<T>::get(k * 1000 + i * C + j);
        }
    }
    return m;
}
// the last row repeats the first
template<class T, std::size_t R, std::size_t C>
constexpr matrix<T, R, C> singular(unsigned long long k) {
    auto m = mat<T, R, C>(k);
    for (std::size_t j = 0; j < C; ++j) {
        m[R - 1][j] = m[0][j];
    }
    return m;
}
template<class T, std::size_t R, std::size_t C, unsigned long long K>
static void matrices(const char *name) {
    scope = vf::cat("matrix of", R, "by", C, name);
    constexpr bool real_numbers = std::is_arithmetic<T>::value, floats = std::is_floating_point<T>::value;
    constexpr auto a = with(mat<T, R, C>(K), mat<T, R, C>(K + 1), value_of<T>::get(K + 2));
    SAME(a, p == q)
    SAME(a, p != q)
    SAME(with(mat<T, R, C>(K), mat<T, R, C>(K)), p == q)
    SAME(a, p.row(R - 1))
    SAME(a, p.column(C - 1))
    SAME(a, p.column(0))
    SAME(a, transpose(p))
    SAME(a, hermitian(p))
    SAME(a, nil::crypto3::algebra::conj(p))
    if constexpr (!real_numbers || floats) {
        SAME(a, real(p))
        SAME(a, imag(p))
    }
    SAME(a, swaprow(p, 0, R - 1))
    SAME(a, swapcol(p, C - 1, 0))
    SAME(a, horzcat(p, q))
    SAME(a, vertcat(p, q))
    SAME(a, (submat<(R + 1) / 2, (C + 1) / 2>(p, R / 2, C / 2)))
    SAME(a, (submat<R, 1>(p, 0, C - 1)))
    SAME(a, (reshape<C, R>(p)))
    SAME(a, (reshape<1, R * C>(p)))
    SAME(a, (repmat<2, 3>(p)))
    SAME(a, (fill<R, C>(r)))
    SAME(a, (generate<R, C>([&p](std::size_t i, std::size_t j) { return p[R - 1 - i][C - 1 - j]; })))
    SAME(a, elementwise([](T x, T y) { return x == y ? y : x; }, p, q))
    SAME(a, as_column(p.column(0)))
    SAME(a, as_row(p.row(0)))
    STEPS("assignment to entries", a, auto out = p; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) out[i][j] = q[R - 1 - i][j])
    if constexpr (real_numbers) {
        SAME(a, p + q)
        SAME(a, p * q)
        SAME(a, p + r)
        SAME(a, r + p)
        SAME(a, p * r)
        SAME(a, r * p)
        SAME(a, matmul(p, transpose(q)))
        SAME(a, matmul(transpose(q), p))
        SAME(a, matvectmul(p, q.row(0)))
        SAME(a, vectmatmul(q.column(0), p))
        SAME(a, kron(p, q))
        SAME(a, kron(p, transpose(q)))
        SAME(a, macs(p))
        SAME(a, mars(p))
        SAME(a, cast<double>(p))
        SAME(a, cast<bool>(p))
        SAME(a, get_identity<T, R>())
        if constexpr (R == C) {
            SAME(a, trace(p))
        }
    }
    if constexpr (floats) {
        SAME(a, p / (q * q + T(1)))
        SAME(a, r / (p * p + T(1)))
        SAME(a, cast<int>(p))
        SAME(a, rref(p))
        SAME(a, rref(p, T(1) / 1024))
        SAME(a, rank(p))
        SAME(with(singular<T, R, C>(K)), rref(p))
        SAME(with(singular<T, R, C>(K)), rank(p))
        SAME(with(matrix<T, R, C>()), rref(p))
        SAME(with(matrix<T, R, C>()), rank(p))
        if constexpr (R == C) {
            SAME(a, det(p))
            SAME(a, inverse(p * p + get_identity<T, R>() * T(3000000)))
            SAME(with(singular<T, R, C>(K)), det(p))
        }
    }
}
template<class T, unsigned long long K>
static void shapes(const char *name) {
    matrices<T, 1, 1, K>(name);
    matrices<T, 2, 3, K + 10>(name);
    matrices<T, 3, 2, K + 20>(name);
    matrices<T, 3, 3, K + 30>(name);
    matrices<T, 4, 4, K + 40>(name);
    matrices<T, 1, 4, K + 50>(name);
}
VF_MAIN("c06") {
    shapes<int, 1000>("int");
    shapes<double, 3000>("double");
    shapes<float, 4000>("float");
    shapes<std::complex<double>, 5000>("complex<double>");
}
#elif PART == 2
#include <nil/crypto3/algebra/scalar/math.hpp>
#include <limits>
namespace algebra = nil::crypto3::algebra;
template<unsigned long long K>
static void scalars() {
    constexpr double x = value_of<double>::get(K), y = x < 0 ? -x : x;
    constexpr int n = int(draw(K + 1) % 60) - 30, d = int(draw(K + 2) % 30) + 1;
    SAME(with(y), algebra::sqrt(p))
    SAME(with(y * 1e-300), algebra::sqrt(p))
    SAME(with(y * 1e300), algebra::sqrt(p))
    SAME(with(float(y)), algebra::sqrt(p))
    SAME(with(x), algebra::abs(p))
    SAME(with(float(x)), algebra::abs(p))
    SAME(with(long(x)), algebra::abs(p))
    SAME(with(std::complex<double>(x, y / 3)), algebra::abs(p))
    SAME(with(std::complex<float>(float(x), 2.5f)), algebra::conj(p))
    SAME(with(x), algebra::conj(p))
    SAME(with((x < 0 ? -1 : 1) * (y / 100 + 0.01), n), algebra::exponentiate(p, q))
    SAME(with(y + 0.25, d), algebra::nthroot(p, q))
    SAME(with(y * 1e-200 + 1e-200, d), algebra::nthroot(p, q))
}
template<unsigned long long... K>
static void scalars(std::integer_sequence<unsigned long long, K...>) {
    (scalars<K * 5>(), ...);
}
VF_MAIN("c06") {
    scalars(std::make_integer_sequence<unsigned long long, 40>());
    typedef std::numeric_limits<double> lim;
    SAME(with(0.0), algebra::sqrt(p))
    SAME(with(1.0), algebra::sqrt(p))
    SAME(with(lim::max()), algebra::sqrt(p))
    SAME(with(lim::min()), algebra::sqrt(p))
    SAME(with(lim::denorm_min()), algebra::sqrt(p))
    SAME(with(lim::infinity()), algebra::sqrt(p))
    SAME(with(std::numeric_limits<float>::max()), algebra::sqrt(p))
    SAME(with(0.0, 5), algebra::nthroot(p, q))
    SAME(with(1.0, 1000), algebra::nthroot(p, q))
    SAME(with(lim::infinity(), 3), algebra::nthroot(p, q))
    SAME(with(2.5, 0), algebra::exponentiate(p, q))
    SAME(with(1.0, std::numeric_limits<int>::min()), algebra::exponentiate(p, q))
    SAME(with(1.0, std::numeric_limits<int>::max()), algebra::exponentiate(p, q))
    SAME(with(-0.0), algebra::abs(p))
}
#elif PART == 3
#include "small_towers.hpp"
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/fields/goldilocks64/base_field.hpp>
#include <nil/crypto3/algebra/fields/secp/secp_r1/base_field.hpp>
namespace fields = nil::crypto3::algebra::fields;
namespace curves = nil::crypto3::algebra::curves;
template<class V, bool Small = false>
constexpr V element(unsigned long long k) {
    if constexpr (is_residue<V>::value) {
        typedef typename V::integral_type I;
        if constexpr (Small) {
            return V(I(draw(k) % 250));
        } else {
            V x = V(I(draw(k) >> 1));
            for (unsigned i = 1; i < 9; ++i) {
                x = x * V(I(0xffffffffu)) + V(I(draw(k + 100 * i) >> 33));
            }
            return x;
        }
    } else {
        V x = V::zero();
        for (std::size_t i = 0; i < x.data.size(); ++i) {
            x.data[i] = element<std::decay_t<decltype(x.data[0])>, Small>(k * 13 + i);
        }
        return x;
    }
}
HAS(multiplies_by_non_residue, std::declval<const V &>().mul_by_non_residue(std::declval<const V &>().data[0]))
template<class V, bool Small, unsigned long long K>
static void two(const char *name) {
    scope = name;
    constexpr auto a = with(element<V, Small>(K), element<V, Small>(K + 1), unsigned(draw(K) % 1000));
    SAME(a, p + q)
    SAME(a, p - q)
    SAME(a, p * q)
    SAME(a, p == q)
    SAME(a, p != q)
    SAME(with(element<V, Small>(K), element<V, Small>(K)), p == q)
    SAME(a, -p)
    SAME(a, p.doubled())
    SAME(a, p.squared())
    SAME(a, p.is_zero())
    SAME(a, (p - p).is_zero())
    SAME(a, p.is_one())
    SAME(a, V(p))
    SAME(a, V::one() + V::one() + V::zero())
    STEPS("compound assignment", a, V out = p; out += q; out *= p; out -= q)
    STEPS("assignment", a, V out; out = p; V other = V::one(); other = out; out = other + q)
    SAME(a, p.pow(r))
    if constexpr (element<V, Small>(K) != V::zero()) {
        SAME(a, p.inversed())
    }
    if constexpr (is_residue<V>::value) {
        SAME(a, p < q)
        SAME(a, p <= q)
        SAME(a, p > q)
        SAME(a, p >= q)
        SAME(a, p.is_square())
        SAME(a, p.squared().sqrt().squared())
        STEPS("increments", a, V out = p; ++out; out = out * out++; --out; out = out * out--)
        SAME(a, p + 5)
        SAME(a, p * 7)
        SAME(a, p - 3)
        SAME(a, 5 + p)
        SAME(a, 7 * p)
        SAME(a, 3 - p)
    } else {
        SAME(a, p.Frobenius_map(0))
        SAME(a, p.Frobenius_map(1))
        SAME(a, p.Frobenius_map(2))
    }
    if constexpr (multiplies_by_non_residue<V>::value) {
        SAME(a, p.mul_by_non_residue(q.data[0]))
    }
}
template<class V, bool Small, unsigned long long... K>
static void some(const char *name, std::integer_sequence<unsigned long long, K...>) {
    (two<V, Small, K * 1000 + 7>(name), ...);
    scope = name;
    constexpr auto z = with(V::zero(), V::one());
    SAME(z, p)
    SAME(z, q)
    SAME(z, p == q)
    SAME(z, p.is_zero())
    SAME(z, q.is_one())
    SAME(z, p * q)
    SAME(z, q.inversed())
    SAME(z, p.pow(0u))
    SAME(z, q - q)
}
template<unsigned N>
using first = std::make_integer_sequence<unsigned long long, N>;
// what only the quadratic and cubic extensions offer
template<class V, bool Small>
static void roots(const char *name) {
    scope = name;
    constexpr auto a = with(element<V, Small>(11), element<typename V::underlying_type, Small>(12));
    SAME(a, p.is_square())
    SAME(a, p.squared().is_square())
    SAME(a, p.squared().sqrt().squared())
    SAME(a, q * p)
}
#if PIECE == 0
using namespace vfield;
VF_MAIN("c06") {
    some<small_field<3>::value_type, true>("fp 3", first<4>());
    some<small_field<17>::value_type, true>("fp 17", first<6>());
    some<small_field<251>::value_type, true>("fp 251", first<6>());
    some<F2<13, 2>, true>("fp2 over 13", first<4>());
    some<F3<7, 3>, true>("fp3 over 7", first<4>());
    some<F4<5, 2>, true>("fp4 over 5", first<4>());
    some<F6a<7, 3>, true>("fp6_2over3 over 7", first<4>());
    some<F6b<7, 3, 1>, true>("fp6_3over2 over 7", first<4>());
    roots<F2<13, 2>, true>("fp2 over 13");
    roots<F3<7, 3>, true>("fp3 over 7");
}
#elif PIECE == 1
VF_MAIN("c06") {
    some<curves::bls12<381>::scalar_field_type::value_type, false>("bls12_381_fr", first<2>());
    some<fields::goldilocks64_base_field::value_type, false>("goldilocks64", first<2>());
    some<fields::secp_r1_base_field<521>::value_type, false>("secp521r1", first<1>());
}
#elif PIECE == 2
VF_MAIN("c06") {
    some<curves::bls12<381>::base_field_type::value_type, false>("bls12_381_fq", first<1>());
    some<curves::bls12<381>::g2_type<>::field_type::value_type, false>("bls12_381 fp2", first<1>());
    roots<curves::bls12<381>::g2_type<>::field_type::value_type, false>("bls12_381 fp2");
}
#elif PIECE == 3
VF_MAIN("c06") {
    some<curves::mnt6<298>::g2_type<>::field_type::value_type, false>("mnt6 fp3", first<1>());
    some<curves::mnt6<298>::gt_type::value_type, false>("mnt6 fp6", first<1>());
    some<curves::mnt4<298>::gt_type::value_type, false>("mnt4 fp4", first<1>());
}
#endif
#elif PART == 4
#include "curve_registry.hpp"
HAS(subtracts, std::declval<V &>() -= std::declval<const V &>())
HAS(to_projective_of, std::declval<const V &>().to_projective())
HAS(to_inverted_of, std::declval<const V &>().to_inverted())
HAS(well_formed, std::declval<const V &>().is_well_formed())
HAS(to_affine_of, std::declval<const V &>().to_affine())
HAS(adds_mixed, std::declval<V &>().mixed_add(std::declval<const V &>()))
template<class G>
static void points(const char *name, const char *coordinates) {
    typedef typename G::value_type V;
    typedef typename V::field_type::value_type F;
    scope = vf::cat(name, coordinates);
    static constexpr V one = V::one(), two = V::one() + V::one(), three = two + one;
    constexpr auto a = with(three, two, one);
    SAME(a, p + q)
    SAME(a, p + p)
    SAME(a, p - q)
    SAME(a, -p)
    SAME(a, p == q)
    SAME(a, p != q)
    SAME(a, p == p)
    SAME(a, p - r == q)
    SAME(a, p.is_zero())
    SAME(a, (p - p).is_zero())
    SAME(a, V(p))
    SAME(a, V())
    SAME(a, V::zero())
    SAME(a, V::one())
    SAME(a, V::zero() + p)
    SAME(a, p + V::zero())
    STEPS("addition in place", a, V out = p; out += q)
    if constexpr (subtracts<V>::value) {
        STEPS("subtraction in place", a, V out = p; out -= q; out -= r)
    }
    STEPS("assignment", a, V out; out = p; out = out)
    STEPS("double_inplace", a, V out = p; out.double_inplace(); out.double_inplace())
    if constexpr (well_formed<V>::value) {
        SAME(a, p.is_well_formed())
    }
    if constexpr (to_affine_of<V>::value) {
        SAME(a, p.to_affine())
    }
    if constexpr (to_projective_of<V>::value) {
        SAME(a, p.to_projective())
        SAME(a, p.to_projective().to_affine())
    }
    if constexpr (to_inverted_of<V>::value) {
        SAME(a, p.to_inverted())
        SAME(a, V::zero().to_inverted())
    }
    if constexpr (adds_mixed<V>::value) {
        STEPS("mixed_add", a, V out = p; out.mixed_add(r))
    }
}
VF_MAIN("c06") {
#define X(name, coordinates, ...) points<__VA_ARGS__>(name, coordinates);
    CURVE_LIST(X)
#if GROUP == 12 || GROUP == 13
#if GROUP == 12
    typedef curves::jubjub curve;
#else
    typedef curves::babyjubjub curve;
#endif
    typedef curve::g1_type<coords::affine, forms::twisted_edwards>::value_type E;
    typedef curve::g1_type<coords::affine, forms::montgomery>::value_type M;
    scope = "forms of one curve";
    SAME(with(E::one() + E::one()), p.to_montgomery())
    SAME(with(M::one() + M::one()), p.to_twisted_edwards())
    SAME(with(M::one() + M::one()), p.to_twisted_edwards().to_montgomery())
    SAME(with(E::zero(), M::zero()), p.to_montgomery().is_zero() + 2 * q.to_twisted_edwards().is_zero())
#endif
#if GROUP == 12
    SAME(with(E::one() + E::one()), p.to_extended_with_a_minus_1())
    SAME(with(E::zero()), p.to_extended_with_a_minus_1())
#endif
}
#elif PART == 5
#include <nil/crypto3/algebra/algorithms/strxor.hpp>
template<std::size_t N>
constexpr std::array<unsigned char, N> bytes(unsigned long long k) {
    std::array<unsigned char, N> a {};
    for (std::size_t i = 0; i < N; ++i) {
        a[i] = (unsigned char)draw(k * 100 + i);
    }
    return a;
}
template<std::size_t N>
static void lengths() {
    scope = vf::cat("strxor of", N);
    constexpr auto a = with(bytes<N>(N), bytes<N>(N + 1));
    STEPS("ranges", a, std::array<unsigned char, N> out {}; nil::crypto3::algebra::strxor(p, q, out))
    STEPS("iterators", a, std::array<unsigned char, N> out {}; nil::crypto3::algebra::strxor(p.begin(), p.end(), q.begin(), q.end(), out.begin()))
}
VF_MAIN("c06") {
    lengths<1>();
    lengths<7>();
    lengths<16>();
    lengths<33>();
}
#endif
