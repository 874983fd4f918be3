// C04: rank, rref, det and inverse against exact rational elimination.
#include "linalg_common.hpp"
using namespace la;
typedef ETYPE T;
typedef __int128 Z;

struct Q {
    Z n = 0, d = 1;
    Q(long v = 0) : n(v) {}
    Q(Z a, Z b) {
        if (b < 0) {
            a = -a;
            b = -b;
        }
        Z x = a < 0 ? -a : a, y = b;
        while (y) {
            Z t = x % y;
            x = y;
            y = t;
        }
        n = x ? a / x : 0;
        d = x ? b / x : 1;
    }
    // matrices whose exact elimination leaves 128 bits are not judged
    static inline bool overflow = false;
    static Z mul(Z a, Z b) {
        Z r = 0;
        overflow |= __builtin_mul_overflow(a, b, &r);
        return overflow ? 1 : r;
    }
    static Z sub(Z a, Z b) {
        Z r = 0;
        overflow |= __builtin_sub_overflow(a, b, &r);
        return overflow ? 1 : r;
    }
    Q operator*(const Q &o) const { return Q(mul(n, o.n), mul(d, o.d)); }
    Q operator/(const Q &o) const { return Q(mul(n, o.d), mul(d, o.n)); }
    Q operator-(const Q &o) const { return Q(sub(mul(n, o.d), mul(o.n, d)), mul(d, o.d)); }
    bool zero() const { return n == 0; }
    long double val() const { return (long double)n / (long double)d; }
};
typedef std::vector<std::vector<Q>> QM;
struct Exact {
    QM r;
    std::size_t rank = 0;
    Q det = 1;
};
static Exact elim(QM m) {
    Exact e;
    std::size_t R = m.size(), C = m[0].size(), i = 0;
    for (std::size_t j = 0; j < C && i < R; ++j) {
        std::size_t p = i;
        while (p < R && m[p][j].zero()) {
            ++p;
        }
        if (p == R) {
            continue;
        }
        if (p != i) {
            std::swap(m[p], m[i]);
            e.det = Q(0) - e.det;
        }
        Q s = m[i][j];
        e.det = e.det * s;
        for (auto &x : m[i]) {
            x = x / s;
        }
        for (std::size_t k = 0; k < R; ++k) {
            if (k != i && !m[k][j].zero()) {
                Q f = m[k][j];
                for (std::size_t l = 0; l < C; ++l) {
                    m[k][l] = m[k][l] - f * m[i][l];
                }
            }
        }
        ++i;
        ++e.rank;
    }
    e.r = m;
    if (e.rank < R) {
        e.det = 0;
    }
    return e;
}
static const long double eps = std::numeric_limits<T>::epsilon();
// The library swaps in the first larger entry of a column, not the largest, so on shuffled larger
// matrices (loose) small pivots may cost it digits; the small exhaustive ones are judged tightly.
static long double slack = 4096;
static bool near(long double got, long double exp, long double scale) {
    return got == got && std::fabs((double)(got - exp)) <= slack * eps * (scale + std::fabs((double)exp));
}
static __attribute__((noinline)) void rep(const char *site, bool ok, const std::string &in, const std::string &got, std::uint64_t k, bool nt) {
    vf::check(ok, site, k, nt, [&] { return in + " gave " + got; });
}

// sc: entries are e * 2^sc
template<std::size_t M, std::size_t N>
void one(const long (&e)[M][N], int sc, bool structure_only = false) {
    QM q(M, std::vector<Q>(N));
    alg::matrix<T, M, N> m = {};
    for (std::size_t i = 0; i < M; ++i) {
        for (std::size_t j = 0; j < N; ++j) {
            q[i][j] = Q(e[i][j]);
            m.arrays[i][j] = std::ldexp((T)e[i][j], sc);
        }
    }
    Q::overflow = false;
    Exact x = elim(q);
    if (Q::overflow) {
        vf::count("beyond_the_oracle", 1);
        return;
    }
    long double big = 1;
    for (auto &row : x.r) {
        for (auto &v : row) {
            big = std::max(big, std::fabs(v.val()));
        }
    }
    const std::string in = s(m);
    const std::uint64_t k = h(m);
    const bool nt = x.rank > 0 && M * N > 1;
    vf::at("rank " + in);
    if (!structure_only) {
        std::size_t rk = alg::rank(m);
        rep("rank", rk == x.rank, in, std::to_string(rk) + " expected " + std::to_string(x.rank), k, nt);
        auto rr = alg::rref(m);
        bool ok = true;
        for (std::size_t i = 0; i < M; ++i) {
            for (std::size_t j = 0; j < N; ++j) {
                // rows below the rank keep rounding residue of the entries' scale
                long double scale = i < x.rank ? big : big * std::ldexp(16.0L, std::max(sc, -16000));
                ok = ok && near(rr.arrays[i][j], x.r[i][j].val(), scale);
            }
        }
        rep("rref", ok, in, s(rr), k, nt);
    }
    {
        auto rr = alg::rref(m, (T)std::ldexp((T)(sizeof(T) == 4 ? 1e-3 : 1e-9), sc));
        bool ok = true;
        for (std::size_t i = 0; i < M; ++i) {
            for (std::size_t j = 0; j < N; ++j) {
                long double scale = i < x.rank ? big : big * std::ldexp(16.0L, std::max(sc, -16000));
                ok = ok && near(rr.arrays[i][j], x.r[i][j].val(), scale);
            }
        }
        rep("rref_tolerance", ok, in, s(rr), k, nt);
    }
    if constexpr (M == N) {
        if (!structure_only || x.rank == M) {
            vf::at("det " + in);
            T d = alg::det(m);
            long double ed = std::ldexp(x.det.val(), sc * (int)M), mag = std::ldexp(1.0L, sc * (int)M);
            for (std::size_t i = 0; i < M; ++i) {
                long double rs = 1;
                for (std::size_t j = 0; j < M; ++j) {
                    rs += std::labs(e[i][j]);
                }
                mag *= rs;
            }
            rep("det", near(d, ed, x.rank == M ? mag : 0), in, vf::str(d) + " expected " + vf::str((double)ed), k, nt);
            vf::at("inverse " + in);
            bool threw = false;
            alg::matrix<T, M, M> inv = {};
            try {
                inv = alg::inverse(m);
            } catch (...) {
                threw = true;
            }
            rep("inverse_throws_iff_singular", threw == (x.rank < M), in, threw ? "an exception" : s(inv), k, nt);
            if (x.rank == M && !threw) {
                QM a(M, std::vector<Q>(2 * M));
                for (std::size_t i = 0; i < M; ++i) {
                    for (std::size_t j = 0; j < M; ++j) {
                        a[i][j] = q[i][j];
                        a[i][M + j] = Q(i == j);
                    }
                }
                Q::overflow = false;
                Exact y = elim(a);
                if (Q::overflow) {
                    vf::count("beyond_the_oracle", 1);
                    return;
                }
                long double ib = 0;
                for (std::size_t i = 0; i < M; ++i) {
                    for (std::size_t j = 0; j < M; ++j) {
                        ib = std::max(ib, std::fabs(y.r[i][M + j].val()));
                    }
                }
                bool ok = true;
                for (std::size_t i = 0; i < M; ++i) {
                    for (std::size_t j = 0; j < M; ++j) {
                        ok = ok && near(std::ldexp((long double)inv.arrays[i][j], sc), y.r[i][M + j].val(), ib * (M + ib));
                    }
                }
                rep("inverse", ok, in, s(inv), k, nt);
            }
        }
    }
    vf::sample("rank " + std::to_string(x.rank) + " det " + vf::str((double)x.det.val()) + " of " + in);
}

template<std::size_t M, std::size_t N>
void exhaustive(long lo, long hi, const std::vector<int> &scales, std::size_t stride = 1) {
    long e[M][N];
    std::size_t total = 1, base = hi - lo + 1;
    for (std::size_t i = 0; i < M * N; ++i) {
        total *= base;
    }
    for (std::size_t c = vf::seed() % stride; c < total; c += stride) {
        std::size_t t = c;
        for (std::size_t i = 0; i < M * N; ++i) {
            e[i / N][i % N] = lo + (long)(t % base);
            t /= base;
        }
        for (int sc : scales) {
            one<M, N>(e, sc);
        }
    }
    vf::count("matrices_enumerated", (total + stride - 1) / stride);
}
// well-conditioned larger ones: a random permutation of a diagonally dominant matrix, rows and columns shuffled
template<std::size_t M>
void dominant(vf::rng &r, std::size_t reps, const std::vector<int> &scales) {
    for (std::size_t rep = 0; rep < reps; ++rep) {
        long e[M][M], f[M][M];
        std::size_t p[M];
        for (std::size_t i = 0; i < M; ++i) {
            p[i] = i;
        }
        for (std::size_t i = sizeof(T) == 4 ? 0 : M; i-- > 1;) {
            std::swap(p[i], p[r.below(i + 1)]);
        }
        for (std::size_t i = 0; i < M; ++i) {
            for (std::size_t j = 0; j < M; ++j) {
                e[i][j] = i == j ? (r.below(2) ? 1 : -1) * r.range(3 * (long)M, 4 * (long)M) : (r.below(3) ? r.range(-1, 1) : 0);
            }
        }
        for (std::size_t i = 0; i < M; ++i) {
            for (std::size_t j = 0; j < M; ++j) {
                f[i][j] = e[p[i]][j];
            }
        }
        one<M, M>(f, scales[rep % scales.size()]);
    }
}
// large: a permutation matrix scaled by powers of two, with a few small entries above its diagonal
template<std::size_t M>
void permuted(vf::rng &r, std::size_t reps) {
    for (std::size_t rep = 0; rep < reps; ++rep) {
        long e[M][M] = {}, f[M][M];
        std::size_t p[M];
        for (std::size_t i = 0; i < M; ++i) {
            p[i] = i;
        }
        for (std::size_t i = M; i-- > 1;) {
            std::swap(p[i], p[r.below(i + 1)]);
        }
        for (std::size_t i = 0; i < M; ++i) {
            e[i][i] = (r.below(2) ? 1 : -1) * (1L << r.below(3));
            if (i + 1 < M && r.below(2)) {
                e[i][i + 1 + r.below(M - i - 1)] = r.range(-1, 1);
            }
        }
        for (std::size_t i = 0; i < M; ++i) {
            for (std::size_t j = 0; j < M; ++j) {
                f[i][j] = e[p[i]][j];
            }
        }
        one<M, M>(f, 0);
    }
}
// rank-deficient rectangular ones with explicit tolerance
template<std::size_t M, std::size_t N>
void deficient(vf::rng &r, std::size_t reps) {
    for (std::size_t rep = 0; rep < reps; ++rep) {
        long e[M][N] = {};
        std::size_t rk = r.below(std::min(M, N) + 1);
        for (std::size_t l = 0; l < rk; ++l) {
            long u[M], v[N];
            for (auto &x : u) {
                x = r.range(-1, 1);
            }
            for (auto &x : v) {
                x = r.range(-1, 1);
            }
            for (std::size_t i = 0; i < M; ++i) {
                for (std::size_t j = 0; j < N; ++j) {
                    e[i][j] += u[i] * v[j];
                }
            }
        }
        one<M, N>(e, 0, true);
    }
}
// rank-deficient ones whose zeros carry noise: whatever the tolerance calls negligible must not be taken for a pivot,
// nor hide one
template<std::size_t M, std::size_t N>
void noisy(vf::rng &r, std::size_t reps) {
    const bool fl = sizeof(T) == 4;
    const T tol = std::ldexp(T(1), fl ? -7 : -20);
    for (std::size_t rep_ = 0; rep_ < reps; ++rep_) {
        QM q(M, std::vector<Q>(N));
        alg::matrix<T, M, N> m = {};
        long e[M][N] = {};
        const std::size_t rk = r.below(std::min(M, N) + 1);
        for (std::size_t l = 0; l < rk; ++l) {
            // sparse factors: many entries of the columns vanish
            long v[N];
            for (auto &x : v) {
                x = r.range(-1, 1);
            }
            const std::size_t a = r.below(M), b = r.below(M);
            for (std::size_t j = 0; j < N; ++j) {
                e[a][j] += v[j];
                e[b][j] += b == a ? 0 : (r.below(2) ? v[j] : 0);
            }
        }
        for (std::size_t i = 0; i < M; ++i) {
            for (std::size_t j = 0; j < N; ++j) {
                q[i][j] = Q(e[i][j]);
                m.arrays[i][j] = e[i][j] + std::ldexp((T)r.range(-64, 64), (fl ? -26 : -48) + (int)r.below(fl ? 4 : 8));
            }
        }
        Q::overflow = false;
        const Exact x = elim(q);
        if (Q::overflow) {
            continue;
        }
        long double big = 1;
        for (auto &row : x.r) {
            for (auto &v : row) {
                big = std::max(big, std::fabs(v.val()));
            }
        }
        if (big > 4) {
            continue;
        }
        const std::string in = s(m);
        vf::at("rref with tolerance " + in);
        const auto rr = alg::rref(m, tol);
        bool ok = true;
        for (std::size_t i = 0; i < M; ++i) {
            for (std::size_t j = 0; j < N; ++j) {
                ok = ok && std::fabs((long double)rr.arrays[i][j] - x.r[i][j].val()) <= (fl ? 0.05L : 1e-5L);
            }
        }
        rep("rref_noisy", ok, in, s(rr), h(m), x.rank > 0);
    }
}
// tiny entries above the proper one of their column are no pivots
template<std::size_t M>
void tiny_pivots(vf::rng &r, std::size_t reps) {
    const long f = 1L << (sizeof(T) == 4 ? 15 : 28);
    for (std::size_t rep = 0; rep < reps; ++rep) {
        long e[M][M];
        for (std::size_t i = 0; i < M; ++i) {
            for (std::size_t j = 0; j < M; ++j) {
                e[i][j] = f * (i == j ? r.range(5, 9) : r.range(-3, 3));
            }
        }
        // one column: the last entry proper, the others tiny or zero
        const std::size_t c = r.below(M - 1);
        for (std::size_t i = 0; i + 1 < M; ++i) {
            e[i][c] = r.range(-3, 3);
        }
        e[M - 1][c] = f * (r.below(2) ? 4 : -4);
        // only well-conditioned ones
        QM q(M, std::vector<Q>(2 * M));
        for (std::size_t i = 0; i < M; ++i) {
            for (std::size_t j = 0; j < M; ++j) {
                q[i][j] = Q(e[i][j]);
            }
            q[i][M + i] = Q(f);
        }
        const Exact x = elim(q);
        bool good = true;
        for (std::size_t i = 0; i < M; ++i) {
            good = good && x.r[i][i].val() == 1;
            for (std::size_t j = 0; j < M; ++j) {
                good = good && (i == j || x.r[i][j].zero()) && std::fabs(x.r[i][M + j].val()) < 16;
            }
        }
        if (good) {
            one<M, M>(e, 0);
        }
    }
}
// growing, tiny-to-huge first column: the pivot search must reach past small entries
template<std::size_t M>
void graded(vf::rng &r, std::size_t reps) {
    for (std::size_t rep = 0; rep < reps; ++rep) {
        long e[M][M];
        for (std::size_t i = 0; i < M; ++i) {
            for (std::size_t j = 0; j < M; ++j) {
                e[i][j] = i + j < M - 1 ? 0 : (i + j == M - 1 ? (r.below(2) ? 1 : -1) * (1L << r.below(6)) : r.range(-2, 2));
            }
        }
        one<M, M>(e, 0);
    }
}

VF_MAIN("c04") {
    vf::rng r(vf::seed() * 31337 + PART);
    const int B = sizeof(T) == 4 ? 20 : 200;
    const bool deep = vf::thorough();
#if PART == 0
    exhaustive<1, 1>(-9, 9, {0, B, -B});
    exhaustive<1, 3>(-3, 3, {0, B, -B});
    exhaustive<3, 1>(-3, 3, {0, B, -B});
    exhaustive<2, 2>(-6, 6, {0, B, -B});
    exhaustive<2, 3>(-2, 2, {0, -B});
    exhaustive<3, 2>(-2, 2, {0, B});
#elif PART == 1
    exhaustive<3, 3>(-1, 1, {0});
    exhaustive<3, 3>(-1, 1, {B, -B}, 7);
    exhaustive<3, 3>(-2, 2, {0}, deep ? 11 : 331);
    exhaustive<2, 4>(-1, 1, {0, B});
    exhaustive<4, 2>(-1, 1, {0, -B});
    tiny_pivots<2>(r, vf::n(1000, 100000));
    tiny_pivots<3>(r, vf::n(3000, 100000));
#else
    slack = sizeof(T) == 4 ? 4096 : 17179869184.0L;
    dominant<4>(r, vf::n(1500, 60000), {0, B / 2, -B / 2});
    dominant<5>(r, vf::n(800, 30000), {0, B / 2, -B / 2});
    dominant<7>(r, vf::n(300, 10000), {0, B / 4, -B / 4});
    permuted<11>(r, vf::n(100, 3000));
    permuted<18>(r, vf::n(40, 1000));
    deficient<3, 5>(r, vf::n(1500, 50000));
    deficient<5, 3>(r, vf::n(1500, 50000));
    deficient<4, 4>(r, vf::n(1500, 50000));
    noisy<3, 4>(r, vf::n(3000, 100000));
    noisy<4, 4>(r, vf::n(3000, 100000));
    noisy<5, 3>(r, vf::n(3000, 100000));
    graded<4>(r, vf::n(500, 20000));
    graded<6>(r, vf::n(200, 10000));
    graded<8>(r, vf::n(80, 4000));
#endif
}
