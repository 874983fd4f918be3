// Common pieces of the vector/matrix monitors.
#ifndef VF_LINALG_COMMON_HPP
#define VF_LINALG_COMMON_HPP
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <functional>
#include <limits>
#include <numeric>
#include <tuple>
#include <type_traits>
#include <utility>

#include <nil/crypto3/algebra/vector/vector.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/math.hpp>
#include <nil/crypto3/algebra/scalar/math.hpp>

#include "vf.hpp"

namespace alg = nil::crypto3::algebra;

namespace la {
    template<class T>
    struct is_cplx : std::false_type { };
    template<class T>
    struct is_cplx<std::complex<T>> : std::true_type { };

    // same value, any NaN alike, and the sign of zero not distinguished
    template<class T>
    bool same(const T &a, const T &b) {
        if constexpr (is_cplx<T>::value) {
            return same(a.real(), b.real()) && same(a.imag(), b.imag());
        } else if constexpr (std::is_floating_point<T>::value) {
            return a == b || (a != a && b != b);
        } else {
            return a == b;
        }
    }
    template<class T>
    std::uint64_t bits(const T &a) {
        if constexpr (is_cplx<T>::value) {
            return vf::key(bits(a.real()), bits(a.imag()));
        } else if constexpr (std::is_floating_point<T>::value) {
            std::uint64_t r = 0;
            std::memcpy(&r, &a, sizeof(T));
            return r;
        } else {
            return (std::uint64_t)a;
        }
    }

    // element generators: K selects how hostile the values are
    template<class T>
    T gen(vf::rng &r, int kind) {
        if constexpr (is_cplx<T>::value) {
            typedef typename T::value_type R;
            R re = gen<R>(r, kind), im = gen<R>(r, kind);
            return T(re, im);
        } else if constexpr (std::is_floating_point<T>::value) {
            if (kind == 0) {
                return (T)r.range(-9, 9);
            }
            if (kind == 1) {
                return (T)((r.unit() - 0.5) * 1000);
            }
            switch (r.below(9)) {
                case 0: return T(0);
                case 1: return -T(0);
                case 2: return std::numeric_limits<T>::infinity();
                case 3: return -std::numeric_limits<T>::infinity();
                case 4: return std::numeric_limits<T>::quiet_NaN();
                case 5: return std::numeric_limits<T>::denorm_min();
                case 6: return std::numeric_limits<T>::max();
                case 7: return std::numeric_limits<T>::epsilon();
                default: return T(1);
            }
        } else if constexpr (std::is_same<T, bool>::value) {
            return r.below(2);
        } else if constexpr (std::is_unsigned<T>::value) {
            if (kind == 0) {
                return (T)r.below(20);
            }
            return (T)r();    // wraps
        } else {
            // signed: products and sums of a few stay in range
            if (kind == 0) {
                return (T)r.range(-9, 9);
            }
            return (T)r.range(-5000, 5000);
        }
    }
    // kinds usable without undefined or unspecified results
    template<class T>
    int kinds() {
        return std::is_floating_point<T>::value ? 3 : 2;
    }

    template<class T, std::size_t N>
    alg::vector<T, N> rv(vf::rng &r, int kind) {
        alg::vector<T, N> v = {};
        for (std::size_t i = 0; i < N; ++i) {
            v.array[i] = gen<T>(r, kind);
        }
        return v;
    }
    template<class T, std::size_t N, std::size_t M>
    alg::matrix<T, N, M> rm(vf::rng &r, int kind) {
        alg::matrix<T, N, M> m = {};
        for (std::size_t i = 0; i < N; ++i) {
            for (std::size_t j = 0; j < M; ++j) {
                m.arrays[i][j] = gen<T>(r, kind);
            }
        }
        return m;
    }
    template<class T, std::size_t N>
    std::string s(const alg::vector<T, N> &v) {
        std::string o = "[";
        for (std::size_t i = 0; i < N; ++i) {
            o += (i ? "," : "") + vf::str(v.array[i]);
        }
        return o + "]";
    }
    template<class T, std::size_t N, std::size_t M>
    std::string s(const alg::matrix<T, N, M> &m) {
        std::string o = "[";
        for (std::size_t i = 0; i < N; ++i) {
            o += i ? ";[" : "[";
            for (std::size_t j = 0; j < M; ++j) {
                o += (j ? "," : "") + vf::str(m.arrays[i][j]);
            }
            o += "]";
        }
        return o + "]";
    }
    template<class T>
    std::string s(const T &v) {
        return vf::str(v);
    }
    template<class T, std::size_t N>
    std::uint64_t h(const alg::vector<T, N> &v) {
        std::uint64_t k = N;
        for (std::size_t i = 0; i < N; ++i) {
            k = vf::key(k, bits(v.array[i]));
        }
        return k;
    }
    template<class T, std::size_t N, std::size_t M>
    std::uint64_t h(const alg::matrix<T, N, M> &m) {
        std::uint64_t k = N * 1000 + M;
        for (std::size_t i = 0; i < N; ++i) {
            for (std::size_t j = 0; j < M; ++j) {
                k = vf::key(k, bits(m.arrays[i][j]));
            }
        }
        return k;
    }
    template<class T>
    const char *tname() {
        return is_cplx<T>::value          ? "complex" :
               std::is_same<T, double>::value ? "double" :
               std::is_same<T, float>::value  ? "float" :
               std::is_same<T, int>::value    ? "int" :
               std::is_same<T, long>::value   ? "long" :
               std::is_same<T, unsigned>::value ? "unsigned" :
               std::is_same<T, std::uint64_t>::value ? "uint64" : "T";
    }
}    // namespace la
#endif
