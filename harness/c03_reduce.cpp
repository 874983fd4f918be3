// C03: reductions and products against their defining sums, recomputed in long double / __int128.
#include "linalg_common.hpp"
using namespace la;

typedef ETYPE T;
template<class Q>
using WW = std::conditional_t<is_cplx<Q>::value, std::complex<long double>, std::conditional_t<std::is_floating_point<Q>::value, long double, Q>>;
typedef WW<T> W;
static W w(const T &x) {
    return W(x);
}
template<class Q = T>
static W wconj(const Q &x) {
    if constexpr (is_cplx<Q>::value) {
        return std::conj(WW<Q>(x));
    } else {
        return W(x);
    }
}
template<class Q = T>
static std::string ws(const W &x) {
    if constexpr (is_cplx<Q>::value) {
        return vf::str(T(x));
    } else {
        return vf::str((T)x);
    }
}
// exact for integers and for integer-valued floats; otherwise within n*8 ulp of the absolute sum
template<class Q = T>
static bool close(const Q &got, const W &exp, long double absum, std::size_t n, bool exact) {
    if constexpr (std::is_integral<Q>::value) {
        return got == exp;
    } else {
        long double d = std::abs(WW<Q>(got) - WW<Q>(exp));
        typedef decltype(std::abs(Q())) R;
        return exact ? d == 0 : d <= absum * (long double)std::numeric_limits<R>::epsilon() * (n + 4) * 4;
    }
}
static __attribute__((noinline)) void judge(const char *site, const std::string &in, T got, W exp, long double absum, std::size_t n, bool exact, std::uint64_t k) {
    vf::check(close(got, exp, absum, n, exact), site, k, n > 1, [&] { return in + " got " + vf::str(got) + " expected " + ws(exp); });
}
template<class Q>
static long double mag(const Q &x) {
    if constexpr (std::is_integral<Q>::value) {
        return 0;
    } else {
        return std::abs(x);
    }
}
static __attribute__((noinline)) void flag(const char *site, const std::string &in, bool ok, std::uint64_t k, bool nt, const std::string &more) {
    vf::check(ok, site, k, nt, [&] { return in + " " + more; });
}

template<std::size_t N, class T = ::T>
void vec(vf::rng &r, int kind, int ties) {
    alg::vector<T, N> a = rv<T, N>(r, kind), b = rv<T, N>(r, kind);
    if (ties) {
        for (std::size_t i = 0; i < N; ++i) {
            a.array[i] = T((int)r.range(std::is_unsigned<T>::value ? 1 : -4, ties == 2 ? -1 + 3 * std::is_unsigned<T>::value : 2));
        }
    }
    const bool exact = kind == 0 || ties;
    const std::string in = s(a) + " . " + s(b);
    const std::uint64_t k = vf::key(h(a), h(b));
    W sum = W(0), dot = W(0);
    long double as = 0, ad = 0;
    for (std::size_t i = 0; i < N; ++i) {
        sum += w(a.array[i]);
        dot += w(a.array[i]) * wconj(b.array[i]);
        as += mag(w(a.array[i]));
        ad += mag(w(a.array[i])) * mag(w(b.array[i]));
    }
    judge("sum", s(a), alg::sum(a), sum, as, N, exact, k);
    judge("dot", in, alg::dot(a, b), dot, ad, N, kind == 0, k);
    // accumulate is a left fold over a non-commutative operation
    {
        std::uint64_t got = alg::accumulate(a, std::uint64_t(17), [](std::uint64_t acc, T x) { return acc * 1000003u + bits(x); }), exp = 17;
        for (std::size_t i = 0; i < N; ++i) {
            exp = exp * 1000003u + bits(a.array[i]);
        }
        flag("accumulate", s(a), got == exp, k, N > 1, "fold order");
    }
    if constexpr (!is_cplx<T>::value) {
        std::size_t mi = 0, ma = 0;
        for (std::size_t i = 1; i < N; ++i) {
            if (a.array[i] < a.array[mi]) {
                mi = i;
            }
            if (a.array[i] > a.array[ma]) {
                ma = i;
            }
        }
        flag("min", s(a), alg::min(a) == a.array[mi], k, N > 1, "got " + vf::str(alg::min(a)));
        flag("max", s(a), alg::max(a) == a.array[ma], k, N > 1, "got " + vf::str(alg::max(a)));
        flag("min_index", s(a), alg::min_index(a) == mi, k, N > 1, "got " + std::to_string(alg::min_index(a)));
        flag("max_index", s(a), alg::max_index(a) == ma, k, N > 1, "got " + std::to_string(alg::max_index(a)));
    }
    vf::sample("vector" + in + " sum " + vf::str(alg::sum(a)));
}

template<std::size_t M, std::size_t N, std::size_t P, class T = ::T, class W = ::W>
void mul(vf::rng &r, int kind) {
    alg::matrix<T, M, N> a = rm<T, M, N>(r, kind);
    alg::matrix<T, N, P> b = rm<T, N, P>(r, kind);
    alg::vector<T, M> u = rv<T, M>(r, kind);
    alg::vector<T, N> v = rv<T, N>(r, kind);
    const bool exact = kind == 0;
    const std::uint64_t k = vf::key(h(a), h(b), h(u), h(v));
    const std::string in = s(a) + "*" + s(b);
    auto c = alg::matmul(a, b);
    for (std::size_t i = 0; i < M; ++i) {
        for (std::size_t j = 0; j < P; ++j) {
            W e = W(0);
            long double m = 0;
            for (std::size_t l = 0; l < N; ++l) {
                e += w(a.arrays[i][l]) * w(b.arrays[l][j]);
                m += mag(w(a.arrays[i][l])) * mag(w(b.arrays[l][j]));
            }
            judge("matmul", in + " at " + std::to_string(i) + "," + std::to_string(j), c.arrays[i][j], e, m, N + 1, exact, vf::key(k, i, j));
        }
    }
    auto um = alg::vectmatmul(u, a);
    for (std::size_t j = 0; j < N; ++j) {
        W e = W(0);
        long double m = 0;
        for (std::size_t i = 0; i < M; ++i) {
            e += w(u.array[i]) * w(a.arrays[i][j]);
            m += mag(w(u.array[i])) * mag(w(a.arrays[i][j]));
        }
        judge("vectmatmul", s(u) + "*" + s(a), um.array[j], e, m, M + 1, exact, vf::key(k, j));
    }
    auto mv = alg::matvectmul(a, v);
    for (std::size_t i = 0; i < M; ++i) {
        W e = W(0);
        long double m = 0;
        for (std::size_t j = 0; j < N; ++j) {
            e += w(a.arrays[i][j]) * w(v.array[j]);
            m += mag(w(v.array[j])) * mag(w(a.arrays[i][j]));
        }
        judge("matvectmul", s(a) + "*" + s(v), mv.array[i], e, m, N + 1, exact, vf::key(k, i));
    }
    if constexpr (M * N * N * P <= 200) {
        auto kr = alg::kron(a, b);
        for (std::size_t i = 0; i < M * N; ++i) {
            for (std::size_t j = 0; j < N * P; ++j) {
                T x = a.arrays[i / N][j / P], y = b.arrays[i % N][j % P];
                W e = w(x) * w(y);
                judge("kron", in + " at " + std::to_string(i) + "," + std::to_string(j), kr.arrays[i][j], e, mag(e), 2, exact, vf::key(k, i, j));
            }
        }
    }
    if constexpr (!is_cplx<T>::value && !std::is_unsigned<T>::value) {
        W cs = W(0), rs = W(0);
        for (std::size_t j = 0; j < N; ++j) {
            W e = W(0);
            for (std::size_t i = 0; i < M; ++i) {
                e += a.arrays[i][j] < 0 ? -w(a.arrays[i][j]) : w(a.arrays[i][j]);
            }
            cs = e > cs ? e : cs;
        }
        for (std::size_t i = 0; i < M; ++i) {
            W e = W(0);
            for (std::size_t j = 0; j < N; ++j) {
                e += a.arrays[i][j] < 0 ? -w(a.arrays[i][j]) : w(a.arrays[i][j]);
            }
            rs = e > rs ? e : rs;
        }
        judge("macs", s(a), alg::macs(a), cs, mag(cs), M + 1, exact, k);
        judge("mars", s(a), alg::mars(a), rs, mag(rs), N + 1, exact, k);
    }
    if constexpr (M == N) {
        W e = W(0);
        long double m = 0;
        for (std::size_t i = 0; i < N; ++i) {
            e += w(a.arrays[i][i]);
            m += mag(w(a.arrays[i][i]));
        }
        judge("trace", s(a), alg::trace(a), e, m, N, exact, k);
    }
    vf::sample("matmul " + in + " = " + s(c));
}

VF_MAIN("c03") {
    vf::rng r(vf::seed() * 7919 + sizeof(T));
    const std::size_t reps = vf::n(150, 8000);
    for (std::size_t i = 0; i < reps; ++i) {
        for (int kind = 0; kind < 2; ++kind) {
            for (int ties = 0; ties < 3; ++ties) {
                vec<1>(r, kind, ties);
                vec<2>(r, kind, ties);
                vec<3>(r, kind, ties);
                vec<4>(r, kind, ties);
                vec<9>(r, kind, ties);
                vec<32>(r, kind, ties);
            }
            mul<1, 1, 1>(r, kind);
            mul<1, 4, 2>(r, kind);
            mul<3, 1, 2>(r, kind);
            mul<2, 3, 4>(r, kind);
            mul<3, 3, 3>(r, kind);
            mul<5, 4, 2>(r, kind);
            mul<7, 7, 9>(r, kind);
            // sizes past any unrolling or blocking, a few times each
            if (i % 50 == 0) {
                vec<67>(r, kind, i / 50 % 3);
                vec<131>(r, kind, i / 50 % 3);
                mul<5, 37, 3>(r, kind);
                mul<18, 2, 35>(r, kind);
            }
        }
    }
}
