// C08/C09/C10 over tiny towers: the library's element templates against naive polynomial arithmetic mod p.
//   MODE 0: ring operations    MODE 1: Frobenius and cyclotomic    MODE 2: square roots
#include "small_towers.hpp"
using namespace vfield;

static std::string what;    // field under test
__attribute__((noinline)) static void judge(const char *op, const cv &a, const cv &b, const cv &got, const cv &want) {
    static const cv nothing;
    bool trivial = true;
    for (std::size_t i = 0; i < a.size(); ++i) {
        trivial = trivial && (i == 0 ? a[i] < 2 : a[i] == 0);
    }
    vf::check(got == want, op, vf::key(vf::hash(what), key_of(a), key_of(b)), !trivial,
              [&] { return vf::cat(what, op, show(a), show(b), "gave", show(got), "expected", show(want)); });
}
__attribute__((noinline)) static void judge_flag(const char *op, const cv &a, const cv &b, bool got, bool want) {
    judge(op, a, b, cv {got}, cv {want});
}

template<class V>
static void binary(const tower &T, const cv &ca, const cv &cb) {
    const V a = make<V>(ca), b = make<V>(cb);
    cv sum = T.add(ca, cb), dif = T.sub(ca, cb), pro = T.mul(ca, cb);
    judge("add", ca, cb, flat(a + b), sum);
    judge("sub", ca, cb, flat(a - b), dif);
    judge("mul", ca, cb, flat(a * b), pro);
    judge_flag("eq", ca, cb, a == b, ca == cb);
    judge_flag("ne", ca, cb, a != b, ca != cb);
    V t = a;
    V *r = &(t += b);
    judge("add_assign", ca, cb, flat(t), sum);
    judge_flag("add_assign_ref", ca, cb, r == &t, true);
    t = a;
    r = &(t -= b);
    judge("sub_assign", ca, cb, flat(t), dif);
    judge_flag("sub_assign_ref", ca, cb, r == &t, true);
    t = a;
    r = &(t *= b);
    judge("mul_assign", ca, cb, flat(t), pro);
    judge_flag("mul_assign_ref", ca, cb, r == &t, true);
    judge("operand_kept", ca, cb, flat(a), ca);
    judge("operand_kept", cb, ca, flat(b), cb);
}
template<class V>
static void unary(const tower &T, const cv &ca) {
    const V a = make<V>(ca);
    judge("make", ca, {}, flat(a), ca);
    judge("neg", ca, {}, flat(-a), T.neg(ca));
    judge("doubled", ca, {}, flat(a.doubled()), T.add(ca, ca));
    cv sq = T.mul(ca, ca);
    judge("squared", ca, {}, flat(a.squared()), sq);
    judge_flag("is_zero", ca, {}, a.is_zero(), ca == T.zero());
    judge_flag("is_one", ca, {}, a.is_one(), ca == T.one());
    judge("zero", ca, {}, flat(V::zero()), T.zero());
    judge("one", ca, {}, flat(V::one()), T.one());
    if (ca != T.zero()) {
        judge("inversed", ca, {}, T.mul(ca, flat(a.inversed())), T.one());
    }
    V t = a;
    t += t;
    judge("add_assign_self", ca, {}, flat(t), T.add(ca, ca));
    t = a;
    t -= t;
    judge("sub_assign_self", ca, {}, flat(t), T.zero());
    t = a;
    t *= t;
    judge("mul_assign_self", ca, {}, flat(t), sq);
    t = a;
    t = *&t;
    judge("assign_self", ca, {}, flat(t), ca);
    V u(t);
    judge("copy", ca, {}, flat(u), ca);
    V w(std::move(u));
    judge("move", ca, {}, flat(w), ca);
    std::ostringstream o;
    judge("operand_kept", ca, {}, flat(a), ca);
}
template<class V>
static void powers(const tower &T, const cv &ca, vf::rng &g) {
    const V a = make<V>(ca);
    for (u64 e : {0ull, 1ull, 2ull, 3ull, 5ull, 8ull, (u64)g.below(1000), (u64)(g() >> g.below(64))}) {
        boost::multiprecision::uint256_t be(e);
        judge("pow", ca, {e}, flat(a.pow(be)), T.pow(ca, e));
        judge("power", ca, {e}, flat(fields::detail::power(a, be)), T.pow(ca, e));
    }
}
// products with elements of a lower level, on either side
template<class V, class S>
static void scalar(const tower &T, const cv &ca, const cv &cs, const char *op) {
    const V a = make<V>(ca);
    const S s = make<S>(cs);
    cv wide = cs;
    wide.resize(T.size(), 0);
    cv want = T.mul(ca, wide);
    judge(op, ca, cs, flat(s * a), want);
    judge(op, ca, cs, flat(a * s), want);
}

static bool all_pairs_of(const tower &T) {
    u64 n = 1;
    for (std::size_t i = 0; i < T.size(); ++i) {
        n *= T.p;
    }
    return n <= 343;
}
template<class V>
static void ring(const char *name, const tower &T, std::size_t pairs) {
    what = name;
    vf::at(name);
    vf::rng g(vf::seed() + vf::hash(name));
    if (all_pairs_of(T)) {
        u64 n = 1;
        for (std::size_t i = 0; i < T.size(); ++i) {
            n *= T.p;
        }
        for (u64 i = 0; i < n; ++i) {
            unary<V>(T, T.number(i));
            if (i % 7 == 0) {
                powers<V>(T, T.number(i), g);
            }
            if (n <= 64 || vf::thorough()) {
                for (u64 j = 0; j < n; ++j) {
                    binary<V>(T, T.number(i), T.number(j));
                }
            }
        }
        vf::count("exhausted:" + what);
    }
    for (std::size_t i = 0; i < pairs; ++i) {
        cv a = T.random(g), b = i % 16 == 0 ? a : i % 16 == 1 ? T.neg(a) : T.random(g);
        vf::at(what + " " + show(a) + " " + show(b));
        unary<V>(T, a);
        binary<V>(T, a, b);
        if (i % 8 == 0) {
            powers<V>(T, a, g);
        }
    }
    vf::sample(vf::cat(name, "e.g.", show(T.random(g)), "*", show(T.random(g))));
}

// ---- special products ----
template<u64 P, u64 NR>
static void fp2_special(const char *name, std::size_t n) {
    typedef F2<P, NR> V;
    typedef typename V::underlying_type U;
    tower T = t2(P, NR);
    what = name;
    vf::rng g(vf::seed() * 31 + vf::hash(name));
    for (std::size_t i = 0; i < n; ++i) {
        cv a = T.random(g), s {g.below(P)};
        scalar<V, U>(T, a, s, "scalar");
        V v = make<V>(a);
        judge("mul_Fp_0", a, s, flat(v.mul_Fp_0(U(s[0]))), T.mul(a, {s[0], 0}));
        judge("from_integers", a, {}, flat(V((int)a[0], (unsigned long)a[1])), a);
        judge("from_elements", a, {}, flat(V(U(a[0]), U(a[1]))), a);
        if (NR == P - 1) {
            judge("mul_x", a, {}, flat(v.mul_x()), T.mul(a, {0, 1}));
            judge("mul_xi", a, {}, flat(v.mul_xi()), T.mul(a, {9 % P, 1}));
            judge("mul_Fp_1", a, s, flat(v.mul_Fp_1(U(s[0]))), T.mul(a, {0, s[0]}));
        }
    }
}
template<u64 P, u64 NR>
static void fp3_special(const char *name, std::size_t n) {
    typedef F3<P, NR> V;
    typedef typename V::underlying_type U;
    tower T = t3(P, NR);
    what = name;
    vf::rng g(vf::seed() * 31 + vf::hash(name));
    for (std::size_t i = 0; i < n; ++i) {
        cv a = T.random(g), s {g.below(P)};
        scalar<V, U>(T, a, s, "scalar");
        judge("from_integers", a, {}, flat(V((int)a[0], (unsigned)a[1], (long)a[2])), a);
        judge("from_elements", a, {}, flat(V(U(a[0]), U(a[1]), U(a[2]))), a);
    }
}
template<u64 P, u64 NR>
static void fp4_special(const char *name, std::size_t n) {
    typedef F4<P, NR> V;
    typedef typename V::underlying_type U;
    tower T = t4(P, NR), L = t2(P, NR);
    what = name;
    vf::rng g(vf::seed() * 31 + vf::hash(name));
    for (std::size_t i = 0; i < n; ++i) {
        cv a = T.random(g), b = T.random(g), c = L.random(g);
        b[1] = 0;
        judge("mul_by_023", a, b, flat(make<V>(a).mul_by_023(make<V>(b))), T.mul(a, b));
        judge("mul_by_non_residue", c, {}, flat(make<V>(a).mul_by_non_residue(make<U>(c))), L.mul(c, {0, 1}));
        judge("from_elements", a, {}, flat(V(make<U>({a[0], a[1]}), make<U>({a[2], a[3]}))), a);
    }
}
template<u64 P, u64 NR>
static void fp6a_special(const char *name, std::size_t n) {
    typedef F6a<P, NR> V;
    typedef typename V::underlying_type U;
    typedef typename U::underlying_type W;
    tower T = t6a(P, NR), L = t3(P, NR);
    what = name;
    vf::rng g(vf::seed() * 31 + vf::hash(name));
    for (std::size_t i = 0; i < n; ++i) {
        cv a = T.random(g), b = T.random(g), c = L.random(g), s {g.below(P)};
        b[0] = b[1] = 0;
        judge("mul_by_2345", a, b, flat(make<V>(a).mul_by_2345(make<V>(b))), T.mul(a, b));
        judge("mul_by_non_residue", c, {}, flat(make<V>(a).mul_by_non_residue(make<U>(c))), L.mul(c, {0, 1, 0}));
        scalar<V, W>(T, a, s, "scalar");
        judge("from_elements", a, {}, flat(V(make<U>({a[0], a[1], a[2]}), make<U>({a[3], a[4], a[5]}))), a);
    }
}
template<u64 P, u64 NR, u64 A>
static void fp6b_special(const char *name, std::size_t n) {
    typedef F6b<P, NR, A> V;
    typedef typename V::underlying_type U;
    typedef typename U::underlying_type W;
    tower T = t6b(P, NR, A), L = t2(P, NR);
    what = name;
    vf::rng g(vf::seed() * 31 + vf::hash(name));
    for (std::size_t i = 0; i < n; ++i) {
        cv a = T.random(g), c = L.random(g), s {g.below(P)};
        judge("mul_by_non_residue", c, {}, flat(make<V>(a).mul_by_non_residue(make<U>(c))), L.mul(c, {A, 1}));
        scalar<V, W>(T, a, s, "scalar");
        scalar<V, U>(T, a, c, "scalar");
        judge("from_elements", a, {}, flat(V(make<U>({a[0], a[1]}), make<U>({a[2], a[3]}), make<U>({a[4], a[5]}))), a);
    }
}
template<u64 P, u64 NR, u64 A>
static void fp12_special(const char *name, std::size_t n) {
    typedef F12<P, NR, A> V;
    typedef typename V::underlying_type U;
    typedef typename U::underlying_type W;
    typedef typename W::underlying_type B;
    tower T = t12(P, NR, A), L6 = t6b(P, NR, A), L = t2(P, NR);
    what = name;
    vf::rng g(vf::seed() * 31 + vf::hash(name));
    for (std::size_t i = 0; i < n; ++i) {
        cv a = T.random(g), e0 = L.random(g), ew = L.random(g), ev = L.random(g), s {g.below(P)}, c = L6.random(g);
        V v = make<V>(a);
        W w0 = make<W>(e0), ww = make<W>(ew), wv = make<W>(ev);
        cv b045 {ew[0], ew[1], 0, 0, 0, 0, 0, 0, e0[0], e0[1], ev[0], ev[1]};
        cv b024 {e0[0], e0[1], 0, 0, ev[0], ev[1], 0, 0, ew[0], ew[1], 0, 0};
        judge("mul_by_045", a, b045, flat(v.mul_by_045(w0, ww, wv)), T.mul(a, b045));
        judge("mul_by_024", a, b024, flat(v.mul_by_024(w0, ww, wv)), T.mul(a, b024));
        judge("mul_by_non_residue", c, {}, flat(v.mul_by_non_residue(make<U>(c))), L6.mul(c, {0, 0, 1, 0, 0, 0}));
        scalar<V, B>(T, a, s, "scalar");
        scalar<V, W>(T, a, e0, "scalar");
        scalar<V, U>(T, a, c, "scalar");
        judge("operand_kept", a, {}, flat(v), a);
    }
}

// ---- Frobenius and cyclotomic subgroup ----
template<class V>
static void frobenius(const char *name, const tower &T, std::size_t n, unsigned degree) {
    what = name;
    vf::rng g(vf::seed() * 77 + vf::hash(name));
    for (std::size_t i = 0; i < n; ++i) {
        cv a = T.random(g);
        const V v = make<V>(a);
        vf::at(what + " Frobenius " + show(a));
        cv want = a;
        for (unsigned k = 0; k <= 2 * degree + 1; ++k) {
            judge("frobenius", a, {k}, flat(v.Frobenius_map(k)), want);
            judge("frobenius", a, {k}, flat(v.Frobenius_map((std::size_t)k)), want);
            want = T.pow(want, T.p);
        }
        judge("operand_kept", a, {}, flat(v), a);
    }
    vf::sample(vf::cat(name, "Frobenius powers 0 to", 2 * degree + 1));
}
// an element of order dividing phi is any element to the cofactor-th power
template<class V>
static void cyclotomic(const char *name, const tower &T, std::size_t n, u64 cofactor, std::initializer_list<u64> more = {}) {
    what = name;
    vf::rng g(vf::seed() * 79 + vf::hash(name));
    for (std::size_t i = 0; i < n; ++i) {
        cv f = T.random(g);
        if (f == T.zero()) {
            continue;
        }
        cv a = i == 0 ? T.one() : T.pow(f, cofactor);
        for (u64 m : more) {
            a = T.pow(a, m);
        }
        const V v = make<V>(a);
        vf::at(what + " cyclotomic " + show(a));
        judge("unitary_inversed", a, {}, T.mul(a, flat(v.unitary_inversed())), T.one());
        judge("cyclotomic_squared", a, {}, flat(v.cyclotomic_squared()), T.mul(a, a));
        for (u64 e : {0ull, 1ull, 2ull, 3ull, 7ull, (u64)g.below(100000), (u64)(g() >> g.below(64)), ~0ull, 1ull << 63}) {
            judge("cyclotomic_exp", a, {e}, flat(v.cyclotomic_exp(boost::multiprecision::uint256_t(e))), T.pow(a, e));
        }
        judge("operand_kept", a, {}, flat(v), a);
    }
    vf::sample(name);
}

// ---- square roots, exhaustively ----
template<class V>
static void roots(const char *name, const tower &T) {
    what = name;
    u64 n = 1;
    for (std::size_t i = 0; i < T.size(); ++i) {
        n *= T.p;
    }
    std::set<cv> squares;
    for (u64 i = 0; i < n; ++i) {
        cv a = T.number(i);
        squares.insert(T.mul(a, a));
    }
    for (u64 i = 0; i < n; ++i) {
        cv a = T.number(i);
        const V v = make<V>(a);
        vf::at(what + " sqrt " + show(a));
        vf::arm(10);
        bool sq = squares.count(a);
        judge_flag("is_square", a, {}, v.is_square(), sq);
        if (sq) {
            cv r = flat(v.sqrt());
            judge("sqrt", a, r, T.mul(r, r), a);
        }
        judge("operand_kept", a, {}, flat(v), a);
    }
    vf::arm(0);
    vf::sample(vf::cat(name, "all", n, "elements,", squares.size(), "squares"));
}
template<u64 P>
static void roots_fp() {
    typedef typename small_field<P>::value_type V;
    what = "F" + std::to_string(P);
    std::set<u64> squares;
    for (u64 i = 0; i < P; ++i) {
        squares.insert(i * i % P);
    }
    for (u64 i = 0; i < P; ++i) {
        vf::at(what + " sqrt " + std::to_string(i));
        vf::arm(10);
        bool sq = squares.count(i);
        judge_flag("is_square", {i}, {}, V(i).is_square(), sq);
        if (sq) {
            u64 r = canon(V(i).sqrt());
            judge("sqrt", {i}, {r}, {r * r % P}, {i});
        }
    }
    vf::arm(0);
}

VF_MAIN("c08_small") {
    std::size_t n = vf::n(1, 12);
#if MODE == 0 && PART == 0
    ring<F2<5, 2>>("F2<5,2>", t2(5, 2), 500 * n);
    ring<F2<7, 6>>("F2<7,6>", t2(7, 6), 500 * n);
    ring<F2<31, 3>>("F2<31,3>", t2(31, 3), 2000 * n);
    fp2_special<7, 6>("F2<7,6>", 1000 * n);
    fp2_special<31, 30>("F2<31,30>", 1000 * n);
    fp2_special<13, 2>("F2<13,2>", 1000 * n);
    ring<F3<7, 3>>("F3<7,3>", t3(7, 3), 1500 * n);
    ring<F3<31, 3>>("F3<31,3>", t3(31, 3), 1500 * n);
    fp3_special<31, 3>("F3<31,3>", 1000 * n);
#elif MODE == 0 && PART == 1
    ring<F4<5, 2>>("F4<5,2>", t4(5, 2), 2000 * n);
    ring<F4<13, 2>>("F4<13,2>", t4(13, 2), 2000 * n);
    fp4_special<13, 2>("F4<13,2>", 2000 * n);
    ring<F6a<7, 3>>("F6a<7,3>", t6a(7, 3), 1000 * n);
    ring<F6a<31, 3>>("F6a<31,3>", t6a(31, 3), 800 * n);
    fp6a_special<31, 3>("F6a<31,3>", 2000 * n);
#elif MODE == 0 && PART == 2
    ring<F6b<7, 3, 1>>("F6b<7,3,1>", t6b(7, 3, 1), 1000 * n);
    ring<F6b<31, 3, 4>>("F6b<31,3,4>", t6b(31, 3, 4), 800 * n);
    fp6b_special<31, 3, 4>("F6b<31,3,4>", 2000 * n);
#elif MODE == 0 && PART == 3
    ring<F12<7, 3, 1>>("F12<7,3,1>", t12(7, 3, 1), 350 * n);
    ring<F12<31, 3, 4>>("F12<31,3,4>", t12(31, 3, 4), 350 * n);
    fp12_special<31, 3, 4>("F12<31,3,4>", 800 * n);
#elif MODE == 1 && PART == 0
    frobenius<F2<31, 3>>("F2<31,3>", t2(31, 3), 300 * n, 2);
    frobenius<F3<31, 3>>("F3<31,3>", t3(31, 3), 300 * n, 3);
    frobenius<F4<13, 2>>("F4<13,2>", t4(13, 2), 200 * n, 4);
    cyclotomic<F4<13, 2>>("F4<13,2>", t4(13, 2), 300 * n, 13 * 13 - 1);
    cyclotomic<F4<5, 2>>("F4<5,2>", t4(5, 2), 300 * n, 24);
#elif MODE == 1 && PART == 1
    frobenius<F6a<31, 3>>("F6a<31,3>", t6a(31, 3), 80 * n, 6);
    cyclotomic<F6a<31, 3>>("F6a<31,3>", t6a(31, 3), 150 * n, 29790, {32});    // (p^3-1)(p+1)
    cyclotomic<F6a<7, 3>>("F6a<7,3>", t6a(7, 3), 150 * n, 342, {8});
    frobenius<F6b<31, 3, 4>>("F6b<31,3,4>", t6b(31, 3, 4), 80 * n, 6);
#elif MODE == 1 && PART == 2
    frobenius<F12<31, 3, 4>>("F12<31,3,4>", t12(31, 3, 4), 12 * n, 12);
    frobenius<F12<13, 2, 0>>("F12<13,2,0>", t12(13, 2, 0), 12 * n, 12);
    cyclotomic<F12<31, 3, 4>>("F12<31,3,4>", t12(31, 3, 4), 25 * n, 887503680, {962});    // (p^6-1)(p^2+1)
    cyclotomic<F12<13, 2, 0>>("F12<13,2,0>", t12(13, 2, 0), 25 * n, 4826808, {170});
#elif MODE == 2
    roots_fp<3>();
    roots_fp<5>();
    roots_fp<7>();
    roots_fp<13>();
    roots_fp<17>();
    roots_fp<41>();
    roots_fp<97>();
    roots_fp<193>();
    roots_fp<257>();
    roots<F2<3, 2>>("F2<3,2>", t2(3, 2));
    roots<F2<5, 2>>("F2<5,2>", t2(5, 2));
    roots<F2<7, 3>>("F2<7,3>", t2(7, 3));
    roots<F2<17, 3>>("F2<17,3>", t2(17, 3));
    roots<F2<31, 30>>("F2<31,30>", t2(31, 30));
    roots<F2<41, 3>>("F2<41,3>", t2(41, 3));
    roots<F3<7, 3>>("F3<7,3>", t3(7, 3));
    roots<F3<13, 2>>("F3<13,2>", t3(13, 2));
#endif
}
