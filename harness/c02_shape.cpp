// C02: shape operations move elements exactly where documented.  Every element carries an id, so the
// movement itself is observed; containers live in exactly sized heap blocks so that a stray read is
// an AddressSanitizer report.
#include "linalg_common.hpp"
#include <climits>
#include <memory>
using namespace la;

static __attribute__((noinline)) void cmp(const char *site, const std::string &shape, const std::vector<long> &got, const std::vector<long> &exp, std::uint64_t k) {
    vf::check(got == exp, site, vf::key(vf::hash(shape), k), exp.size() > 1, [&] {
        std::string o = shape + " case " + std::to_string((long)k) + " got";
        for (long x : got) {
            o += " " + std::to_string(x);
        }
        o += " expected";
        for (long x : exp) {
            o += " " + std::to_string(x);
        }
        return o;
    });
    if (exp.size() > 3) {
        vf::sample(std::string(site) + " " + shape + " ids " + std::to_string(exp[0]) + "," + std::to_string(exp[1]) + "," + std::to_string(exp[2]) + "...");
    }
}
template<class T>
long id(const T &x) {
    if constexpr (is_cplx<T>::value) {
        return (long)x.real() * 100000 + (long)x.imag();
    } else {
        return (long)x;
    }
}
template<class T, std::size_t N>
std::vector<long> ids(const alg::vector<T, N> &v) {
    std::vector<long> r;
    for (std::size_t i = 0; i < N; ++i) {
        r.push_back(id(v.array[i]));
    }
    return r;
}
template<class T, std::size_t N, std::size_t M>
std::vector<long> ids(const alg::matrix<T, N, M> &m) {
    std::vector<long> r;
    for (std::size_t i = 0; i < N; ++i) {
        for (std::size_t j = 0; j < M; ++j) {
            r.push_back(id(m.arrays[i][j]));
        }
    }
    return r;
}
template<class F>
std::vector<long> build(std::size_t n, std::size_t m, F f) {
    std::vector<long> r;
    for (std::size_t i = 0; i < n; ++i) {
        for (std::size_t j = 0; j < m; ++j) {
            r.push_back(f(i, j));
        }
    }
    return r;
}
template<class F>
bool throws(F f) {
    try {
        f();
    } catch (...) {
        return true;
    }
    return false;
}
static __attribute__((noinline)) void must_throw(const char *site, const std::string &shape, bool threw, std::size_t i, std::size_t j) {
    vf::check(threw, site, vf::key(vf::hash(shape), i, j), true,
              [&] { return shape + " index " + std::to_string(i) + "," + std::to_string(j) + " was accepted"; });
}

template<class T, std::size_t N>
std::unique_ptr<alg::vector<T, N>> mkv(long base = 0) {
    auto p = std::make_unique<alg::vector<T, N>>();
    for (std::size_t i = 0; i < N; ++i) {
        p->array[i] = T(base + (long)i * 3 + 1);
    }
    return p;
}
template<class T, std::size_t N, std::size_t M>
std::unique_ptr<alg::matrix<T, N, M>> mkm(long base = 0) {
    auto p = std::make_unique<alg::matrix<T, N, M>>();
    for (std::size_t i = 0; i < N; ++i) {
        for (std::size_t j = 0; j < M; ++j) {
            if constexpr (is_cplx<T>::value) {
                p->arrays[i][j] = T(base + i * M + j + 1, -(double)(j + 1));
            } else {
                p->arrays[i][j] = T(base + (long)(i * M + j) * 2 + 1);
            }
        }
    }
    return p;
}
static std::string vs(const char *t, std::size_t n) {
    return std::string("vector<") + t + "," + std::to_string(n) + ">";
}
static std::string ms(const char *t, std::size_t n, std::size_t m) {
    return std::string("matrix<") + t + "," + std::to_string(n) + "," + std::to_string(m) + ">";
}

template<class T, std::size_t N, std::size_t M>
void slices(const alg::vector<T, N> &v) {
    if constexpr (M <= N) {
        const std::string sh = vs(tname<T>(), N) + " slice " + std::to_string(M);
        for (std::size_t st = 0; st + M <= N; ++st) {
            cmp("slice", sh, ids(alg::slice<M>(v, st)), build(1, M, [&](std::size_t, std::size_t j) { return id(v.array[st + j]); }), st);
        }
        cmp("slice_default", sh, ids(alg::slice<M>(v)), build(1, M, [&](std::size_t, std::size_t j) { return id(v.array[j]); }), 0);
    }
}
template<class T, std::size_t N, std::size_t M>
void concats(const alg::vector<T, N> &v) {
    auto w = mkv<T, M>(5000);
    cmp("concat", vs(tname<T>(), N) + " concat " + std::to_string(M), ids(alg::concat(v, *w)),
        build(1, N + M, [&](std::size_t, std::size_t j) { return j < N ? id(v.array[j]) : id(w->array[j - N]); }), 0);
}

template<class T, std::size_t N>
void vec() {
    auto pv = mkv<T, N>();
    alg::vector<T, N> &v = *pv;
    const alg::vector<T, N> &cv = v;
    const std::string sh = vs(tname<T>(), N);
    const auto plain = build(1, N, [&](std::size_t, std::size_t j) { return id(v.array[j]); });
    {
        std::vector<long> a, b, c, d;
        for (std::size_t i = 0; i < N; ++i) {
            a.push_back(id(v[i]));
            b.push_back(id(cv[i]));
        }
        for (auto it = v.begin(); it != v.end(); ++it) {
            c.push_back(id(*it));
        }
        for (auto it = cv.cbegin(); it != cv.cend(); ++it) {
            d.push_back(id(*it));
        }
        cmp("index", sh, a, plain, 0);
        cmp("index_const", sh, b, plain, 0);
        cmp("begin_end", sh, c, plain, 0);
        cmp("cbegin_cend", sh, d, plain, 0);
        vf::check(alg::vector<T, N>::size == N, "size", N, N > 1, [&] { return sh; });
        // writes through operator[] and iterators land where they should
        auto w = mkv<T, N>(700);
        for (std::size_t i = 0; i < N; ++i) {
            (*w)[i] = T(900 + (long)i);
        }
        cmp("index_write", sh, ids(*w), build(1, N, [&](std::size_t, std::size_t j) { return id(T(900 + (long)j)); }), 0);
    }
    std::vector<long> amounts;
    for (long n = -3 * (long)N - 1; n <= 3 * (long)N + 1; ++n) {
        amounts.push_back(n);
    }
    amounts.insert(amounts.end(), {100003, -100003, INT_MAX, INT_MAX - 1});
    if (N >= 17) {
        amounts.insert(amounts.end(), {INT_MIN, INT_MIN + 1});
    }
    for (long n : amounts) {
        vf::at(sh + " rotate " + std::to_string(n));
        vf::arm(60);
        cmp("rotate", sh, ids(alg::rotate(v, (int)n)),
            build(1, N, [&](std::size_t, std::size_t j) {
                long k = ((long)j + n) % (long)N;
                return id(v.array[k < 0 ? k + (long)N : k]);
            }), (std::uint64_t)n);
    }
    vf::arm(0);
    cmp("argument_unchanged", sh, ids(v), plain, 0);
    slices<T, N, 1>(v);
    slices<T, N, 2>(v);
    slices<T, N, 3>(v);
    slices<T, N, 7>(v);
    slices<T, N, N>(v);
    concats<T, N, 1>(v);
    concats<T, N, 2>(v);
    concats<T, N, 5>(v);
    cmp("fill", sh, ids(alg::fill<N>(T(42))), build(1, N, [](std::size_t, std::size_t) { return id(T(42)); }), 0);
    cmp("generate", sh, ids(alg::generate<N>([](std::size_t i) { return T((double)(i * i + 5)); })),
        build(1, N, [](std::size_t, std::size_t j) { return id(T((double)(j * j + 5))); }), 0);
    for (long st : {0L, 1L, -5L, 1000L}) {
        cmp("iota", sh, ids(alg::iota<N>(T((double)st))), build(1, N, [&](std::size_t, std::size_t j) { return id(T((double)(st + (long)j))); }), (std::uint64_t)st);
    }
    cmp("iota_default", sh, ids(alg::iota<N, T>()), build(1, N, [&](std::size_t, std::size_t j) { return id(T((double)j)); }), 0);
    if constexpr (N >= 2 && std::is_floating_point<T>::value) {
        for (long lo : {-17L, 0L, 3L}) {
            for (long step : {-4L, 0L, 1L, 7L}) {
                cmp("linspace", sh, ids(alg::linspace<N>(T(lo), T(lo + step * (long)(N - 1)))),
                    build(1, N, [&](std::size_t, std::size_t j) { return lo + step * (long)j; }), (std::uint64_t)(lo * 100 + step));
            }
        }
    }
    cmp("as_column", sh, ids(alg::as_column(v)), plain, 0);
    cmp("as_row", sh, ids(alg::as_row(v)), plain, 0);
    vf::check(decltype(alg::as_column(v))::column_size == N && decltype(alg::as_column(v))::row_size == 1 && decltype(alg::as_row(v))::row_size == N &&
                  decltype(alg::as_row(v))::column_size == 1, "as_row_column_shape", N, N > 1, [&] { return sh; });
}

template<class T, std::size_t N, std::size_t M, std::size_t P, std::size_t Q>
void submats(const alg::matrix<T, N, M> &m) {
    if constexpr (P <= N && Q <= M) {
        const std::string sh = ms(tname<T>(), N, M) + " submat " + std::to_string(P) + "," + std::to_string(Q);
        for (std::size_t a = 0; a + P <= N; ++a) {
            for (std::size_t b = 0; b + Q <= M; ++b) {
                cmp("submat", sh, ids(alg::submat<P, Q>(m, a, b)),
                    build(P, Q, [&](std::size_t i, std::size_t j) { return id(m.arrays[a + i][b + j]); }), a * 100 + b);
            }
        }
        const std::size_t big = std::numeric_limits<std::size_t>::max();
        for (std::size_t a : {N - P + 1, N, N + 5, big, big - P + 1, big / 2}) {
            for (std::size_t b : {std::size_t(0), M - Q}) {
                vf::at(sh + " at row " + std::to_string(a));
                must_throw("submat_range", sh, throws([&] { volatile auto x = id(alg::submat<P, Q>(m, a, b).arrays[0][0]); (void)x; }), a, b);
            }
        }
        for (std::size_t b : {M - Q + 1, M, M + 5, big, big - Q + 1, big / 2}) {
            for (std::size_t a : {std::size_t(0), N - P}) {
                vf::at(sh + " at column " + std::to_string(b));
                must_throw("submat_range", sh, throws([&] { volatile auto x = id(alg::submat<P, Q>(m, a, b).arrays[0][0]); (void)x; }), a, b);
            }
        }
    }
}
template<class T, std::size_t N, std::size_t M, std::size_t R, std::size_t C>
void repmats(const alg::matrix<T, N, M> &m) {
    cmp("repmat", ms(tname<T>(), N, M) + " x " + std::to_string(R) + "," + std::to_string(C), ids(alg::repmat<R, C>(m)),
        build(N * R, M * C, [&](std::size_t i, std::size_t j) { return id(m.arrays[i % N][j % M]); }), 0);
}
template<class T, std::size_t N, std::size_t M, std::size_t P>
void cats(const alg::matrix<T, N, M> &m) {
    auto a = mkm<T, N, P>(3000);
    cmp("horzcat", ms(tname<T>(), N, M) + " + " + std::to_string(P), ids(alg::horzcat(m, *a)),
        build(N, M + P, [&](std::size_t i, std::size_t j) { return j < M ? id(m.arrays[i][j]) : id(a->arrays[i][j - M]); }), 0);
    auto b = mkm<T, P, M>(4000);
    cmp("vertcat", ms(tname<T>(), N, M) + " + " + std::to_string(P), ids(alg::vertcat(m, *b)),
        build(N + P, M, [&](std::size_t i, std::size_t j) { return i < N ? id(m.arrays[i][j]) : id(b->arrays[i - N][j]); }), 0);
}
template<class T, std::size_t N, std::size_t M, std::size_t P>
void reshapes(const alg::matrix<T, N, M> &m) {
    if constexpr ((N * M) % P == 0) {
        cmp("reshape", ms(tname<T>(), N, M) + " to rows " + std::to_string(P), ids(alg::reshape<P, N * M / P>(m)), ids(m), 0);
    }
}

template<class T, std::size_t N, std::size_t M>
void mat() {
    auto pm = mkm<T, N, M>();
    alg::matrix<T, N, M> &m = *pm;
    const alg::matrix<T, N, M> &cm = m;
    const std::string sh = ms(tname<T>(), N, M);
    const auto before = ids(m);
    const std::size_t big = std::numeric_limits<std::size_t>::max();
    for (std::size_t i = 0; i < N; ++i) {
        cmp("row", sh, ids(m.row(i)), build(1, M, [&](std::size_t, std::size_t j) { return id(m.arrays[i][j]); }), i);
        cmp("row_pointer", sh, build(1, M, [&](std::size_t, std::size_t j) { return id(m[i][j]); }), build(1, M, [&](std::size_t, std::size_t j) { return id(m.arrays[i][j]); }), i);
        cmp("row_pointer_const", sh, build(1, M, [&](std::size_t, std::size_t j) { return id(cm[i][j]); }), build(1, M, [&](std::size_t, std::size_t j) { return id(m.arrays[i][j]); }), i);
    }
    for (std::size_t j = 0; j < M; ++j) {
        cmp("column", sh, ids(m.column(j)), build(1, N, [&](std::size_t, std::size_t i) { return id(m.arrays[i][j]); }), j);
    }
    for (std::size_t i : {N, N + 1, N + M, N * M, big, big / 2 + 1}) {
        vf::at(sh + " row " + std::to_string(i));
        must_throw("row_range", sh, throws([&] { volatile auto x = id(m.row(i).array[0]); (void)x; }), i, 0);
    }
    for (std::size_t j : {M, M + 1, N + M, N * M + 1, big, big / 2 + 1}) {
        vf::at(sh + " column " + std::to_string(j));
        must_throw("column_range", sh, throws([&] { volatile auto x = id(m.column(j).array[0]); (void)x; }), j, 0);
    }
    vf::check(alg::matrix<T, N, M>::column_size == N && alg::matrix<T, N, M>::row_size == M, "matrix_sizes", N * 100 + M, N * M > 1, [&] { return sh; });
    cmp("transpose", sh, ids(alg::transpose(m)), build(M, N, [&](std::size_t i, std::size_t j) { return id(m.arrays[j][i]); }), 0);
    cmp("hermitian", sh, ids(alg::hermitian(m)), build(M, N, [&](std::size_t i, std::size_t j) {
            if constexpr (is_cplx<T>::value) {
                return id(std::conj(m.arrays[j][i]));
            } else {
                return id(m.arrays[j][i]);
            }
        }), 0);
    for (std::size_t a = 0; a < N; ++a) {
        for (std::size_t b = 0; b < N; ++b) {
            vf::at(sh + " swaprow " + std::to_string(a) + "," + std::to_string(b));
            cmp("swaprow", sh, ids(alg::swaprow(m, a, b)), build(N, M, [&](std::size_t i, std::size_t j) { return id(m.arrays[i == a ? b : i == b ? a : i][j]); }), a * 100 + b);
        }
    }
    for (std::size_t a = 0; a < M; ++a) {
        for (std::size_t b = 0; b < M; ++b) {
            vf::at(sh + " swapcol " + std::to_string(a) + "," + std::to_string(b));
            cmp("swapcol", sh, ids(alg::swapcol(m, a, b)), build(N, M, [&](std::size_t i, std::size_t j) { return id(m.arrays[i][j == a ? b : j == b ? a : j]); }), a * 100 + b);
        }
    }
    submats<T, N, M, 1, 1>(m);
    submats<T, N, M, 1, 2>(m);
    submats<T, N, M, 2, 1>(m);
    submats<T, N, M, 2, 3>(m);
    submats<T, N, M, N, M>(m);
    repmats<T, N, M, 1, 1>(m);
    repmats<T, N, M, 2, 3>(m);
    repmats<T, N, M, 3, 1>(m);
    cats<T, N, M, 1>(m);
    cats<T, N, M, 3>(m);
    reshapes<T, N, M, 1>(m);
    reshapes<T, N, M, 2>(m);
    reshapes<T, N, M, 3>(m);
    reshapes<T, N, M, 4>(m);
    reshapes<T, N, M, N * M>(m);
    cmp("fill", sh, ids(alg::fill<N, M>(T(9))), build(N, M, [](std::size_t, std::size_t) { return id(T(9)); }), 0);
    cmp("generate", sh, ids(alg::generate<N, M>([](std::size_t i, std::size_t j) { return T((double)(i * 50 + j * 7 + 2)); })),
        build(N, M, [](std::size_t i, std::size_t j) { return id(T((double)(i * 50 + j * 7 + 2))); }), 0);
    if constexpr (N == M) {
        cmp("identity", sh, ids(alg::identity<T, N>), build(N, N, [](std::size_t i, std::size_t j) { return id(T(i == j ? 1 : 0)); }), 0);
        cmp("get_identity", sh, ids(alg::get_identity<T, N>()), build(N, N, [](std::size_t i, std::size_t j) { return id(T(i == j ? 1 : 0)); }), 0);
    }
    cmp("argument_unchanged", sh, ids(m), before, 0);
}

VF_MAIN("c02") {
    typedef ETYPE T;
#if PART == 0
    vec<T, 1>();
    vec<T, 2>();
    vec<T, 3>();
    vec<T, 4>();
    vec<T, 7>();
    vec<T, 17>();
    vec<T, 40>();
    vec<T, 131>();
#elif PART == 1
    mat<T, 1, 1>();
    mat<T, 1, 5>();
    mat<T, 5, 1>();
    mat<T, 2, 2>();
    mat<T, 4, 3>();
    mat<T, 2, 19>();
#else
    mat<T, 2, 3>();
    mat<T, 3, 3>();
    mat<T, 6, 4>();
    mat<T, 3, 8>();
    mat<T, 18, 3>();
#endif
    if (PART == 0) {
        // aggregate and deduced construction
        auto v = alg::make_vector(T(1), T(2), T(3));
        cmp("make_vector", "make_vector", ids(v), {id(T(1)), id(T(2)), id(T(3))}, 0);
        alg::vector w {T(4), T(5)};
        cmp("deduce", "vector{..}", ids(w), {id(T(4)), id(T(5))}, 0);
        alg::vector x {{T(4), T(5), T(6)}};
        cmp("deduce_array", "vector{{..}}", ids(x), {id(T(4)), id(T(5)), id(T(6))}, 0);
        alg::matrix y {{{T(1), T(2), T(3)}, {T(4), T(5), T(6)}}};
        cmp("deduce_matrix", "matrix{{..}}", ids(y), {id(T(1)), id(T(2)), id(T(3)), id(T(4)), id(T(5)), id(T(6))}, 0);
    }
}
