// C01: elementwise operators of vector and matrix, judged position by position.
#include "linalg_common.hpp"
using namespace la;

#ifndef ETYPE
#define ETYPE double
#endif

// the position-wise oracle, shared by vectors and matrices through a flat view
template<class T, std::size_t N>
struct flat_v {
    typedef alg::vector<T, N> type;
    static constexpr std::size_t n = N;
    static T &at(type &v, std::size_t i) { return v.array[i]; }
    static const T &at(const type &v, std::size_t i) { return v.array[i]; }
    template<class U> using of = alg::vector<U, N>;
    template<class U> static const U &get(const alg::vector<U, N> &v, std::size_t i) { return v.array[i]; }
    static std::string shape() { return "vector<" + std::string(tname<T>()) + "," + std::to_string(N) + ">"; }
    static constexpr bool is_vec = true;
};
template<class T, std::size_t N, std::size_t M>
struct flat_m {
    typedef alg::matrix<T, N, M> type;
    static constexpr std::size_t n = N * M;
    static T &at(type &v, std::size_t i) { return v.arrays[i / M][i % M]; }
    static const T &at(const type &v, std::size_t i) { return v.arrays[i / M][i % M]; }
    template<class U> using of = alg::matrix<U, N, M>;
    template<class U> static const U &get(const alg::matrix<U, N, M> &v, std::size_t i) { return v.arrays[i / M][i % M]; }
    static std::string shape() { return "matrix<" + std::string(tname<T>()) + "," + std::to_string(N) + "," + std::to_string(M) + ">"; }
    static constexpr bool is_vec = false;
};

static std::string cur_shape, cur_a, cur_b;
static std::uint64_t cur_key;
// non-inlined, instantiated per result type only
template<class R>
__attribute__((noinline)) void compare(const char *site, const R *res, const R *exp, std::size_t n) {
    std::size_t bad = n;
    for (std::size_t i = 0; i < n; ++i) {
        if (!same(res[i], exp[i])) {
            bad = i;
            break;
        }
    }
    vf::check(bad == n, site, cur_key, n > 1, [&] {
        return cur_shape + " position " + std::to_string(bad) + " a=" + cur_a + " b=" + cur_b + " got there " + vf::str(res[bad]) + " expected " + vf::str(exp[bad]);
    });
}
// the containers are aggregates over contiguous rows: read them through the public array members
template<class F, class R, class E>
void judge(const char *site, const R &res, const typename F::type &, const typename F::type &, E expect, bool) {
    typedef typename R::value_type U;
    U got[F::n], exp[F::n];
    for (std::size_t i = 0; i < F::n; ++i) {
        got[i] = F::get(res, i);
        exp[i] = expect(i);
    }
    compare<U>(site, got, exp, F::n);
}

static __attribute__((noinline)) void flag_impl(bool ok, const char *site, std::size_t i, bool nt) {
    vf::check(ok, site, vf::key(cur_key, i), nt, [&] { return cur_shape + " case/position " + std::to_string(i) + " a=" + cur_a + " b=" + cur_b; });
}
template<class T, class F>
void one(vf::rng &r, int kind) {
    typedef typename F::type V;
    V a {}, b {};
    for (std::size_t i = 0; i < F::n; ++i) {
        F::at(a, i) = gen<T>(r, kind);
        F::at(b, i) = gen<T>(r, kind);
    }
    T c = gen<T>(r, kind);
    const V a0 = a, b0 = b;
    const bool nt = F::n > 1;
    cur_shape = F::shape();
    cur_key = vf::key(h(a), h(b));
    cur_a = s(a);
    cur_b = s(b);
    auto flag = [&](bool ok, const char *site, std::size_t i) { flag_impl(ok, site, i, nt); };
    judge<F>("scalar_right_add", a + c, a, b, [&](std::size_t i) { return T(F::at(a0, i) + c); }, nt);
    judge<F>("scalar_left_add", c + a, a, b, [&](std::size_t i) { return T(c + F::at(a0, i)); }, nt);
    judge<F>("add", a + b, a, b, [&](std::size_t i) { return T(F::at(a0, i) + F::at(b0, i)); }, nt);
    judge<F>("add_alias", a + a, a, a, [&](std::size_t i) { return T(F::at(a0, i) + F::at(a0, i)); }, nt);
    // complex products are recomputed with the same library multiplication
    judge<F>("scalar_right_mul", a * c, a, b, [&](std::size_t i) { return T(F::at(a0, i) * c); }, nt);
    judge<F>("scalar_left_mul", c * a, a, b, [&](std::size_t i) { return T(c * F::at(a0, i)); }, nt);
    judge<F>("hadamard", a * b, a, b, [&](std::size_t i) { return T(F::at(a0, i) * F::at(b0, i)); }, nt);
    judge<F>("hadamard_alias", a * a, a, a, [&](std::size_t i) { return T(F::at(a0, i) * F::at(a0, i)); }, nt);
    {
        V d = b;
        for (std::size_t i = 0; i < F::n; ++i) {
            if (!std::is_floating_point<T>::value && !is_cplx<T>::value && F::at(d, i) == T(0)) {
                F::at(d, i) = T(3);
            }
            if (is_cplx<T>::value && F::at(d, i) == T(0)) {
                F::at(d, i) = T(2);
            }
        }
        judge<F>("scalar_left_div", c / d, d, d, [&](std::size_t i) { return T(c / F::at(d, i)); }, nt);
        judge<F>("div", a / d, a, d, [&](std::size_t i) { return T(F::at(a0, i) / F::at(d, i)); }, nt);
    }
    // equality: reflexive where no NaN, and broken by a change of any single position
    bool nan = false;
    for (std::size_t i = 0; i < F::n; ++i) {
        nan = nan || !(F::at(a0, i) == F::at(a0, i));
    }
    V a2 = a;
    flag((a == a2) == !nan, "eq_copy", 0);
    flag((a != a2) == nan, "ne_copy", 0);
    for (std::size_t i = 0; i < F::n; ++i) {
        V e = a;
        T old = F::at(e, i), alt = old == T(1) ? T(2) : T(1);
        F::at(e, i) = alt;
        flag(!(a == e) && (a != e), "eq_single_difference", i);
        flag(!(e == a) && (e != a), "eq_single_difference_sym", i);
    }
    bool alleq = true;
    for (std::size_t i = 0; i < F::n; ++i) {
        alleq = alleq && F::at(a0, i) == F::at(b0, i);
    }
    flag((a == b) == alleq && (a != b) == !alleq, "eq_general", 0);

    // elementwise with one, two and three arguments and a result of another type
    judge<F>("elementwise1", alg::elementwise([](T x) { return x == T(1) ? 7 : 3; }, a), a, b,
             [&](std::size_t i) { return F::at(a0, i) == T(1) ? 7 : 3; }, nt);
    judge<F>("elementwise2", alg::elementwise([](T x, T y) { return std::make_pair(x, y).second; }, a, b), a, b,
             [&](std::size_t i) { return F::at(b0, i); }, nt);
    judge<F>("elementwise3", alg::elementwise([](T x, T y, T z) { return (void)y, (void)z, x; }, a, b, a), a, b,
             [&](std::size_t i) { return F::at(a0, i); }, nt);
    {
        // a stateful functor sees each position exactly once with matching operands
        std::vector<std::pair<T, T>> calls;
        auto res = alg::elementwise([&calls](T x, T y) { calls.emplace_back(x, y); return T(x); }, a, b);
        bool ok = calls.size() == F::n;
        (void)res;
        flag(ok, "elementwise_calls", 0);
    }
    if constexpr (std::is_floating_point<T>::value || is_cplx<T>::value) {
        judge<F>("conj", alg::conj(a), a, b, [&](std::size_t i) {
            if constexpr (is_cplx<T>::value) {
                return T(F::at(a0, i).real(), -F::at(a0, i).imag());
            } else {
                return F::at(a0, i);
            }
        }, nt);
        judge<F>("real", alg::real(a), a, b, [&](std::size_t i) { return std::real(F::at(a0, i)); }, nt);
        judge<F>("imag", alg::imag(a), a, b, [&](std::size_t i) { return std::imag(F::at(a0, i)); }, nt);
    }
    if constexpr (std::is_arithmetic<T>::value) {
        bool castable = true;    // to long: only in-range values
        for (std::size_t i = 0; i < F::n; ++i) {
            castable = castable && (std::is_integral<T>::value || std::fabs((double)F::at(a0, i)) < 1e9);
        }
        if (castable) {
            judge<F>("cast_long", alg::cast<long>(a), a, b, [&](std::size_t i) { return (long)F::at(a0, i); }, nt);
        }
        judge<F>("cast_double", alg::cast<double>(a), a, b, [&](std::size_t i) { return (double)F::at(a0, i); }, nt);
    }
    if constexpr (F::is_vec && std::is_floating_point<T>::value) {
        judge<F>("abs", alg::abs(a), a, b, [&](std::size_t i) { return F::at(a0, i) < 0 ? -F::at(a0, i) : F::at(a0, i); }, nt);
    }
    if constexpr (F::is_vec && (std::is_same<T, double>::value || std::is_same<T, float>::value)) {
        if (kind < 2) {
            V q = a;
            for (std::size_t i = 0; i < F::n; ++i) {
                F::at(q, i) = std::fabs(F::at(q, i)) * (T)r.range(1, 5) + T(1) / 1024;
            }
            vf::arm(20);
            vf::at("vector sqrt " + s(q));
            judge<F>("sqrt", alg::sqrt(q), q, q, [&](std::size_t i) { return alg::sqrt(F::at(q, i)); }, nt);
            vf::arm(0);
        }
    }
    if constexpr (F::is_vec && std::is_same<T, int>::value) {
        judge<F>("abs", alg::abs(a), a, b, [&](std::size_t i) { return F::at(a0, i) < 0 ? -F::at(a0, i) : F::at(a0, i); }, nt);
    }
    bool unchanged = true;
    for (std::size_t i = 0; i < F::n; ++i) {
        unchanged = unchanged && bits(F::at(a, i)) == bits(F::at(a0, i)) && bits(F::at(b, i)) == bits(F::at(b0, i));
    }
    flag(unchanged, "arguments_unchanged", 0);
    vf::sample(F::shape() + " a=" + s(a0) + " b=" + s(b0) + " c=" + vf::str(c) + " a+b=" + s(a + b));
}

template<class T, class... F>
void all(std::size_t reps) {
    vf::rng r(vf::seed() * 1000003 + sizeof(T));
    (
        [&] {
            for (int k = 0; k < kinds<T>(); ++k) {
                for (std::size_t i = 0; i < reps; ++i) {
                    one<T, F>(r, k);
                }
            }
        }(),
        ...);
}

VF_MAIN("c01") {
    typedef ETYPE T;
    all<T, flat_v<T, 1>, flat_v<T, 2>, flat_v<T, 3>, flat_v<T, 8>, flat_v<T, 33>,
        flat_m<T, 1, 1>, flat_m<T, 1, 4>, flat_m<T, 3, 1>, flat_m<T, 2, 3>, flat_m<T, 3, 3>,
        flat_m<T, 9, 7>>(vf::n(60, 4000));
    // sizes past any unrolling or blocking
    all<T, flat_v<T, 101>, flat_m<T, 3, 37>, flat_m<T, 21, 19>>(vf::n(4, 200));
}
