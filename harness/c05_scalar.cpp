// C05: scalar functions against libm in extended precision, under a CPU-time watchdog.
#include "linalg_common.hpp"
#include <climits>
using namespace la;

static double ulps(double got, long double exp) {
    double e = (double)exp;
    if (got == e || (got != got && e != e)) {
        return 0;
    }
    double u = std::nextafter(std::fabs(e), std::numeric_limits<double>::infinity()) - std::fabs(e);
    return (double)(std::fabs((long double)got - exp) / u);
}
static void judge_sqrt(double x) {
    vf::at("sqrt(" + vf::str(x) + ")");
    vf::arm(15);
    double g = alg::sqrt(x);
    vf::check(ulps(g, std::sqrt((long double)x)) <= 2, "sqrt", bits(x), x != 0 && x != 1, [&] { return vf::cat("sqrt", x, "gave", g); });
    float f = (float)x;
    if (std::isfinite(x) && std::isfinite(f)) {
        vf::at("sqrtf(" + vf::str(f) + ")");
        float h = alg::sqrt(f);
        float e = std::sqrt(f);
        vf::check(h == e || std::fabs(h - e) <= std::nextafter(e, 1e30f) - e, "sqrtf", bits(f), f != 0, [&] { return vf::cat("sqrt", f, "gave", h); });
    }
    static int k = 0;
    if (k++ % 1000 == 0) {
        vf::sample(vf::cat("sqrt", x, "=", g));
    }
}
static void judge_root(double x, int n) {
    vf::at("nthroot(" + vf::str(x) + "," + std::to_string(n) + ")");
    vf::arm(15);
    double g = alg::nthroot(x, n);
    long double e = std::pow((long double)x, 1.0L / n);
    // powers of the root of a number next to the subnormals are subnormal: a few digits only
    bool ok = x != 0 && x < 1e-290 ? std::fabs(g - e) <= 1e-3 * e : ulps(g, e) <= 8;
    vf::check(ok, "nthroot", vf::key(bits(x), n), n > 1 && x != 0, [&] { return vf::cat("nthroot", x, n, "gave", g, "expected", (double)e); });
    static int k = 0;
    if (k++ % 1000 == 0) {
        vf::sample(vf::cat("nthroot", x, n, "=", g));
    }
}
static void judge_pow(double x, int n) {
    vf::at("exponentiate(" + vf::str(x) + "," + std::to_string(n) + ")");
    vf::arm(15);
    double g = alg::exponentiate(x, n);
    long double e = std::pow((long double)x, (long double)n);
    double ae = std::fabs((double)e);
    bool ok;
    if (e != e || g != g) {
        ok = (e != e) == (g != g);
    } else if (ae > 1e290) {
        ok = std::fabs(g) > 1e285 && (g > 0) == (e > 0);
    } else if (ae < 1e-290) {
        ok = std::fabs(g) < 1e-285;
    } else {
        // rounding of the base's powers: a relative error of about |n| eps
        ok = std::fabs((long double)g - e) <= std::fabs(e) * 2.3e-16L * (4 + 2 * std::fabs((long double)n));
    }
    vf::check(ok, "exponentiate", vf::key(bits(x), (unsigned)n), n != 0 && x != 0 && x != 1, [&] { return vf::cat("exponentiate", x, n, "gave", g, "expected", (double)e); });
    static int k = 0;
    if (k++ % 1000 == 0) {
        vf::sample(vf::cat("exponentiate", x, n, "=", g));
    }
}
template<class T>
static void judge_abs(T x) {
    vf::at("abs " + vf::str(x));
    T g = alg::abs(x), e = x < 0 ? T(-x) : x;
    vf::check(same(g, e), "abs", vf::key(bits(x), sizeof(T)), x < 0, [&] { return vf::cat("abs", x, "gave", g); });
    vf::check(same(alg::conj(x), x), "conj_real", vf::key(bits(x), sizeof(T)), x != 0, [&] { return vf::cat("conj", x); });
}
template<class R>
static void judge_cabs(R a, R b) {
    std::complex<R> z(a, b);
    vf::at("abs " + vf::str(z));
    vf::arm(15);
    R g = alg::abs(z);
    long double e = std::hypot((long double)a, (long double)b);
    // beyond the largest finite value the result is infinite; below the smallest normal one it has the subnormal spacing
    bool ok = e > (long double)std::numeric_limits<R>::max() * (1 - 8 * (long double)std::numeric_limits<R>::epsilon()) && std::isinf(g) ||
              std::fabs((long double)g - e) <= e * 8 * std::numeric_limits<R>::epsilon() + std::numeric_limits<R>::denorm_min();
    vf::check(ok, "abs_complex", vf::key(bits(a), bits(b), sizeof(R)), a != 0 && b != 0,
              [&] { return vf::cat("abs", z, "gave", g, "expected", (double)e); });
    std::complex<R> c = alg::conj(z);
    vf::check(c.real() == a && c.imag() == -b, "conj_complex", vf::key(bits(a), bits(b), sizeof(R)), b != 0, [&] { return vf::cat("conj", z, "gave", c); });
}
static double any_positive(vf::rng &r) {
    std::uint64_t b = r() & 0x7fffffffffffffffull;
    double d;
    std::memcpy(&d, &b, 8);
    return std::isfinite(d) ? d : 1.5;
}
template<class F>
static bool throws(F f) {
    try {
        f();
    } catch (...) {
        return true;
    }
    return false;
}

VF_MAIN("c05") {
    vf::rng r(vf::seed() * 65537 + PART);
    const double inf = std::numeric_limits<double>::infinity();
    const std::vector<double> special = {0.0, -0.0, 1, 2, 3, 4, 0.25, 0.5, 1e-3, 1e3, 1e10, 1e-10, 1e100, 1e-100, 1e300, 1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
                                         1 + 2.220446049250313e-16, 1 - 1.1102230246251565e-16, 4503599627370497.0, 9007199254740991.0};
#if PART == 0
    for (double x : special) {
        judge_sqrt(x);
    }
    judge_sqrt(inf);
    vf::at("sqrt(NaN)");
    vf::arm(15);
    double nn = alg::sqrt(std::numeric_limits<double>::quiet_NaN());
    vf::check(nn != nn, "sqrt_nan", 1, true, [&] { return vf::str(nn); });
    for (double x : {-1.0, -1e-300, -inf, -5e-324}) {
        vf::check(throws([&] { volatile double y = alg::sqrt(x); (void)y; }), "sqrt_negative_throws", bits(x), true, [&] { return vf::str(x); });
        vf::check(throws([&] { volatile double y = alg::nthroot(x, 3); (void)y; }), "nthroot_negative_throws", bits(x), true, [&] { return vf::str(x); });
    }
    for (int i = 0; i < 3000; ++i) {
        judge_sqrt(i);
        judge_sqrt((double)i * i);
        judge_sqrt(std::ldexp(1.0, i % 2000 - 1000));
    }
    for (std::size_t i = 0; i < vf::n(60000, 3000000); ++i) {
        judge_sqrt(any_positive(r));
        judge_sqrt(r.unit() * 100);
        judge_sqrt(1 + (r.unit() - 0.5) * 1e-12);
    }
#elif PART == 1
    for (double x : special) {
        for (int n : {1, 2, 3, 4, 5, 7, 10, 33, 100}) {
            if (!(x == 0 && std::signbit(x))) {
                judge_root(x, n);
            }
        }
    }
    judge_root(inf, 3);
    for (int i = 0; i < 200; ++i) {
        for (int n = 1; n <= 12; ++n) {
            judge_root(i, n);
        }
    }
    for (std::size_t i = 0; i < vf::n(4000, 100000); ++i) {
        judge_root(r.unit() * 1000, (int)r.range(1, 20));
        judge_root(std::ldexp(1 + r.unit(), (int)r.range(-200, 200)), (int)r.range(1, 9));
        judge_root(r.unit() * 4, (int)r.range(20, 1000));
    }
#else
    for (double x : special) {
        for (int n = -70; n <= 70; ++n) {
            if (!(x == 0 && n < 0)) {
                judge_pow(x, n);
                judge_pow(-x, n);
            }
        }
    }
    for (int n : {INT_MAX, INT_MAX - 1, INT_MIN, INT_MIN + 1, 1 << 30, -(1 << 30), 123456789}) {
        for (double x : {1.0, -1.0, 2.0, 0.5, 1 + 1e-9, 1 - 1e-9, -1 - 1e-9}) {
            judge_pow(x, n);
        }
    }
    for (std::size_t i = 0; i < vf::n(60000, 3000000); ++i) {
        judge_pow((r.unit() - 0.5) * 20, (int)r.range(-300, 300));
        judge_pow(1 + (r.unit() - 0.5) * 1e-3, (int)r.range(-20000, 20000));
    }
    for (int i = -2000; i <= 2000; ++i) {
        judge_abs(i);
        judge_abs((long)i * 1000003);
        judge_abs((double)i / 7);
        judge_abs((float)i / 3);
        judge_abs((unsigned)(i * 77777));
    }
    for (double x : {inf, -inf, std::numeric_limits<double>::quiet_NaN(), -0.0, 5e-324, -5e-324}) {
        judge_abs(x);
    }
    judge_abs(INT_MAX);
    judge_abs(-INT_MAX);
    for (int i = -30; i <= 30; ++i) {
        for (int j = -30; j <= 30; ++j) {
            judge_cabs<double>(i, j);
            judge_cabs<float>(i / 4.0f, j / 4.0f);
        }
    }
    for (std::size_t i = 0; i < vf::n(20000, 500000); ++i) {
        judge_cabs<double>((r.unit() - 0.5) * 1e6, (r.unit() - 0.5) * 1e-3);
        judge_cabs<double>(std::ldexp(r.unit(), (int)r.range(-400, 400)), std::ldexp(r.unit(), (int)r.range(-400, 400)));
        // the whole exponent range, parts of similar and of unrelated magnitude
        const int e = (int)r.range(-1074, 1025), f = (int)r.range(-149, 129), d = (int)r.range(-60, 60);
        judge_cabs<double>(std::ldexp(r.unit() - 0.5, e), std::ldexp(r.unit() - 0.5, d + e > 1024 ? 1024 : d + e));
        judge_cabs<double>(std::ldexp(r.unit() - 0.5, (int)r.range(-1074, 1025)), std::ldexp(r.unit() - 0.5, e));
        judge_cabs<float>((float)std::ldexp(r.unit() - 0.5, f), (float)std::ldexp(r.unit() - 0.5, d + f > 128 ? 128 : d + f));
        judge_cabs<float>((float)std::ldexp(r.unit() - 0.5, (int)r.range(-149, 129)), (float)std::ldexp(r.unit() - 0.5, f));
    }
    const double dm = std::numeric_limits<double>::max(), dn = std::numeric_limits<double>::min(), dd = std::numeric_limits<double>::denorm_min();
    const float fm = std::numeric_limits<float>::max(), fn = std::numeric_limits<float>::min(), fd = std::numeric_limits<float>::denorm_min();
    for (int i = 0; i < 25; ++i) {
        const double ds[] = {0, dd, dn, 1, dm};
        const float fs[] = {0, fd, fn, 1, fm};
        judge_cabs<double>(ds[i / 5], -ds[i % 5]);
        judge_cabs<float>(-fs[i / 5], fs[i % 5]);
    }
    // at and around the powers of two, where a threshold of the implementation may lie
    for (int e = -1074; e < 1024; ++e) {
        for (double k : {0.9999, 1.0, 1.0001}) {
            judge_cabs<double>(std::ldexp(k, e), std::ldexp(0.75, e));
            if (e > -149 && e < 127) {
                judge_cabs<float>((float)std::ldexp(0.75, e), (float)std::ldexp(k, e));
            }
        }
    }
#endif
    vf::arm(0);
}
