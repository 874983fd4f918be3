// Concurrent use on shared constant inputs, under ThreadSanitizer. Every operation is first used by all threads at once or
// in each thread's own order, then mixed; a single thread repeats it afterwards and must get the same text.
// PART 0 vectors, matrices, scalars; 1 fields and curves (of one GROUP of the registry); 2 multi-exponentiation and windows; 3 serialisation, random elements; 4 primes; 5 map to curve; 10..13 pairings
#include "vf.hpp"
#include <array>
#include <atomic>
#include <cassert>
#include <complex>
#include <functional>
#include <set>
#include <sstream>
#include <thread>
#include <tuple>
#include <vector>
struct op {
    std::string name;
    std::function<std::string()> run;
};
static std::vector<op> ops;
static void def(const std::string &name, std::function<std::string()> f) {
    ops.push_back({name, std::move(f)});
}

// ---- texts ----
template<class V, class = void>
struct is_tower : std::false_type { };
template<class V>
struct is_tower<V, std::void_t<decltype(std::tuple_size<std::decay_t<decltype(V::data)>>::value), decltype(V::one())>> : std::true_type { };
template<class V, class = void>
struct is_residue : std::false_type { };
template<class V>
struct is_residue<V, std::void_t<typename V::integral_type, typename V::modular_type, decltype(std::declval<const V &>().data)>> : std::true_type { };
#define HAS(name, expr)                       \
    template<class V, class = void>           \
    struct name : std::false_type { };        \
    template<class V>                         \
    struct name<V, std::void_t<decltype(expr)>> : std::true_type { };
HAS(is_point, std::declval<const V &>().X)
HAS(has_z, std::declval<const V &>().Z)
HAS(has_t, std::declval<const V &>().T)
HAS(is_list, std::declval<const V &>().begin())
HAS(is_matrix, V::row_size)
template<class V>
static std::string text(const V &v);
template<class V>
static std::string texts(const V &v) {
    std::string s = "(";
    for (const auto &x : v) {
        s += text(x) + " ";
    }
    return s + ")";
}
template<class V>
static std::string text(const V &v) {
    if constexpr (std::is_same<V, std::string>::value) {
        return v;
    } else if constexpr (std::is_arithmetic<V>::value) {
        std::ostringstream o;
        o.precision(20);
        o << +v;
        return o.str();
    } else if constexpr (is_point<V>::value) {
        std::string s = text(v.X) + ";" + text(v.Y);
        if constexpr (has_z<V>::value) {
            s += ";" + text(v.Z);
        }
        if constexpr (has_t<V>::value) {
            s += ";" + text(v.T);
        }
        return s;
    } else if constexpr (is_tower<V>::value) {
        return texts(v.data);
    } else if constexpr (is_residue<V>::value) {
        std::ostringstream o;
        o << std::hex << typename V::integral_type(v.data);
        return o.str();
    } else if constexpr (is_list<V>::value) {
        return texts(v);
    } else {
        std::ostringstream o;
        o.precision(20);
        o << v;
        return o.str();
    }
}
#define OP(...) def(#__VA_ARGS__, [&] { return text(__VA_ARGS__); });

// ---- the runs ----
static const unsigned N = 6;
static std::atomic<unsigned> arrived {0};
static std::atomic<int> running[N];
static void meet(unsigned phase) {    // all threads leave together
    arrived.fetch_add(1);
    while (arrived.load() < phase * N) {
    }
}
struct record_of {
    std::vector<std::vector<std::string>> got;       // per operation
    std::vector<std::uint64_t> together;             // pairs seen in flight at once
    unsigned long long runs = 0;
};
static void one(unsigned t, std::size_t i, record_of &r) {
    running[t].store((int)i, std::memory_order_relaxed);
    for (unsigned u = 0; u < N; ++u) {
        const int j = running[u].load(std::memory_order_relaxed);
        if (u != t && j >= 0) {
            r.together.push_back((std::uint64_t)i << 32 | (unsigned)j);
        }
    }
    std::string s = ops[i].run();
    running[t].store(-1, std::memory_order_relaxed);
    ++r.runs;
    auto &g = r.got[i];
    if (g.empty() || g.back() != s) {
        g.push_back(std::move(s));
    }
}
static void threads(const char *where, std::size_t rounds) {
    std::vector<record_of> rec(N);
    for (auto &r : running) {
        r.store(-1);
    }
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < N; ++t) {
        rec[t].got.resize(ops.size());
        ts.emplace_back([t, rounds, &rec] {
            vf::rng g(vf::seed() * 64 + t);
            record_of &r = rec[t];
            unsigned phase = 0;
            // first use by all threads at the same moment
            for (std::size_t i = 0; i < ops.size(); i += 2) {
                meet(++phase);
                one(t, i, r);
            }
            meet(++phase);
            // first use of the others amid other operations, then everything mixed
            for (std::size_t k = 0; k < rounds; ++k) {
                std::vector<std::size_t> order(ops.size());
                for (std::size_t i = 0; i < order.size(); ++i) {
                    order[i] = (i + t * ops.size() / N) % ops.size();
                }
                for (std::size_t i = order.size(); k && i > 1; --i) {
                    std::swap(order[i - 1], order[g.below(i)]);
                }
                for (std::size_t i : order) {
                    if (g.below(4) == 0) {
                        std::this_thread::yield();
                    }
                    one(t, i, r);
                }
            }
        });
    }
    for (auto &t : ts) {
        t.join();
    }
    std::set<std::uint64_t> pairs;
    for (std::size_t i = 0; i < ops.size(); ++i) {
        vf::at(vf::cat(where, ops[i].name, "in a single thread"));
        const std::string want = ops[i].run();
        for (unsigned t = 0; t < N; ++t) {
            const auto &g = rec[t].got[i];
            const bool ok = g.size() == 1 && g[0] == want;
            vf::check(ok, "result of concurrent use", vf::hash(vf::cat(where, ops[i].name, t)), true,
                      [&] { return vf::cat(where, ops[i].name, "in thread", t, "gave", g.empty() ? "nothing" : g.back().substr(0, 300), "alone it gives", want.substr(0, 300)); });
        }
        vf::sample(vf::cat(where, ops[i].name, "=", want.substr(0, 100)));
    }
    unsigned long long runs = 0;
    for (const auto &r : rec) {
        pairs.insert(r.together.begin(), r.together.end());
        runs += r.runs;
    }
    vf::count("concurrent runs", runs);
    vf::count("operations", ops.size());
    vf::count("distinct pairs of operations seen in flight together", pairs.size());
}

#if PART == 0
#include <nil/crypto3/algebra/matrix/math.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/scalar/math.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
using namespace nil::crypto3::algebra;
template<class T, std::size_t R, std::size_t C>
static std::string entries(const matrix<T, R, C> &m) {
    std::string s;
    for (std::size_t i = 0; i < R; ++i) {
        for (std::size_t j = 0; j < C; ++j) {
            s += text(m[i][j]) + " ";
        }
    }
    return s;
}
template<class T, std::size_t M>
static std::string entries(const vector<T, M> &v) {
    std::string s;
    for (std::size_t i = 0; i < M; ++i) {
        s += text(v[i]) + " ";
    }
    return s;
}
#define MOP(...) def(#__VA_ARGS__, [&] { return entries(__VA_ARGS__); });
VF_MAIN("c29") {
    vf::rng g(vf::seed());
    vector<double, 5> u, v;
    vector<std::complex<double>, 3> z;
    matrix<double, 4, 4> a, b;
    matrix<double, 2, 3> c;
    matrix<std::complex<double>, 2, 3> h;
    matrix<int, 3, 2> k;
    auto d = [&] { return (double)(long)(g.below(19)) - 9; };
    for (std::size_t i = 0; i < 5; ++i) {
        u[i] = d();
        v[i] = d();
    }
    for (std::size_t i = 0; i < 4; ++i) {
        for (std::size_t j = 0; j < 4; ++j) {
            a[i][j] = d() + (i == j ? 30 : 0);
            b[i][j] = d();
        }
    }
    for (std::size_t i = 0; i < 2; ++i) {
        for (std::size_t j = 0; j < 3; ++j) {
            c[i][j] = d();
            h[i][j] = {d(), d()};
            k[j][i] = (int)d();
            z[j] = {d(), d()};
        }
    }
    const auto &cu = u, &cv = v;
    const auto &ca = a, &cb = b;
    const auto &cc = c;
    const auto &ch = h;
    const auto &ck = k;
    const auto &cz = z;
    auto slice3 = [](const vector<double, 5> &x) { return slice<3>(x, 1); };
    const vector<double, 4> w = slice<4>(cu);
    MOP(cu + cv)
    MOP(cu + 2.5)
    MOP(cu * cv)
    MOP(3.0 / (cv + 20.0))
    MOP(cu / (cv + 20.0))
    MOP(slice3(cu))
    MOP(rotate(cu, 3))
    MOP(rotate(cu, -7))
    MOP(concat(cu, cv))
    MOP(conj(cz))
    MOP(real(cz))
    MOP(imag(cz))
    MOP(abs(cz))
    MOP(nil::crypto3::algebra::sqrt(cu * cu))
    MOP(iota<4>(2.0))
    MOP(linspace<5>(0.0, 1.0))
    MOP(fill<3>(1.5))
    MOP(cast<int>(cu))
    OP(dot(cu, cv))
    OP(sum(cu))
    OP(min(cu))
    OP(max(cu))
    OP(min_index(cu))
    OP(max_index(cu))
    MOP(matmul(ca, cb))
    MOP(matvectmul(ca, w))
    MOP(vectmatmul(w, ca))
    MOP(transpose(cc))
    MOP(hermitian(ch))
    MOP(conj(ch))
    MOP(real(ch))
    MOP(imag(ch))
    MOP(kron(cc, ca))
    MOP(rref(ca))
    MOP(rref(cc, 1e-9))
    MOP(inverse(ca))
    OP(det(ca))
    OP(rank(cb))
    OP(trace(cb))
    OP(macs(cb))
    OP(mars(cb))
    MOP(ca + cb)
    MOP(ca * 2.0)
    MOP(swaprow(ck, 0, 2))
    MOP(swapcol(cb, 1, 3))
    MOP(horzcat(cc, cc))
    MOP(vertcat(cc, cc))
    def("submat<2, 2>(ca, 1, 2)", [&] { return entries(submat<2, 2>(ca, 1, 2)); });
    def("reshape<3, 2>(cc)", [&] { return entries(reshape<3, 2>(cc)); });
    def("repmat<2, 3>(cc)", [&] { return entries(repmat<2, 3>(cc)); });
    MOP(as_column(cu))
    MOP(as_row(cu))
    MOP(get_identity<double, 4>())
    MOP(elementwise([](double x, double y) { return x * y + 1; }, ca, cb))
    OP(accumulate(cu, 0.0, [](double x, double y) { return x - y; }))
    OP(nil::crypto3::algebra::sqrt(2.0))
    OP(nil::crypto3::algebra::sqrt(3.0f))
    OP(nthroot(5.0, 3))
    OP(exponentiate(1.5, -9))
    OP(nil::crypto3::algebra::abs(std::complex<double>(3, -4)))
    OP(ca == cb)
    OP(cu == cv)
    threads("linear algebra:", vf::n(20, 400));
}
#elif PART == 1
#ifndef GROUP
#define GROUP 99
#endif
#include "curve_registry.hpp"
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/jubjub.hpp>
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/curves/secp_r1.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>
HAS(adds_mixed, std::declval<V &>().mixed_add(std::declval<const V &>()))
HAS(to_affine_of, std::declval<const V &>().to_affine())
HAS(well_formed, std::declval<const V &>().is_well_formed())
template<class V>
static void fill(vf::rng &g, V &r) {
    if constexpr (is_tower<V>::value) {
        for (auto &c : r.data) {
            fill(g, c);
        }
    } else {
        r = V(typename V::integral_type(g() >> 1));
        for (int i = 0; i < 5; ++i) {
            r = r * V(typename V::integral_type(g() >> 1)) + V(typename V::integral_type(3u));
        }
    }
}
template<class V>
static void field(const std::string &name) {
    static V a, b;
    vf::rng g(vf::seed());
    fill(g, a);
    fill(g, b);
    const V &x = a, &y = b;
    auto o = [&](const char *what, std::function<std::string()> f) { def(name + " " + what, f); };
    o("add", [&] { return text(x + y); });
    o("sub", [&] { return text(x - y); });
    o("mul", [&] { return text(x * y); });
    o("negate", [&] { return text(-x); });
    o("double", [&] { return text(x.doubled()); });
    o("square", [&] { return text(x.squared()); });
    o("inverse", [&] { return text(x.inversed()); });
    o("pow", [&] { return text(x.pow(1234567u)); });
    o("in place", [&] {
        V r = x;
        r += y;
        r *= x;
        r -= y;
        return text(r);
    });
    o("other operands", [&] { return text(y * y + y.squared() - y.inversed() + y.pow(7654321u)); });
    o("zero", [&] { return text(V::zero()); });
    o("one", [&] { return text(V::one()); });
    o("equal", [&] { return text(x == y) + text(x == x) + text(x.is_zero()); });
    o("print", [&] {
        std::ostringstream s;
        s << x;
        return s.str();
    });
    if constexpr (!is_tower<V>::value) {
        o("sqrt", [&] { return text(x.squared().sqrt().squared()); });
        o("is_square", [&] { return text(x.is_square()); });
        o("hash", [&] { return text(std::hash<V>()(x)); });
    } else {
        o("frobenius", [&] { return text(x.Frobenius_map(1)); });
        o("frobenius twice", [&] { return text(y.Frobenius_map(2)); });
    }
}
template<class G>
static void points(const char *name, const char *coordinates) {
    typedef typename G::value_type V;
    const std::string n = vf::cat(name, coordinates);
    static V a, b;
    a = V::one() + V::one();
    b = a + V::one();
    static const typename G::curve_type::scalar_field_type::value_type s(123456789u);
    const V &p = a, &q = b;
    def(n + " add", [&] { return text(p + q); });
    def(n + " sub", [&] { return text(p - q); });
    def(n + " negate", [&] { return text(-p); });
    def(n + " add_inplace", [&] {
        V r = p;
        r += q;
        return text(r);
    });
    def(n + " double", [&] {
        V r = p;
        r.double_inplace();
        return text(r);
    });
    def(n + " equal", [&] { return text(p == q) + text(p == p) + text(p.is_zero()); });
    def(n + " scalar", [&] { return text(p * s); });
    def(n + " scalar on the left", [&] { return text(s * q); });
    def(n + " scalar in place", [&] {
        V r = p;
        r *= s;
        return text(r);
    });
    def(n + " other scalar in place", [&] {
        V r = q;
        r *= s + s;
        return text(r);
    });
    def(n + " number", [&] { return text(q * typename G::curve_type::scalar_field_type::integral_type(987654321u)); });
    def(n + " one", [&] { return text(V::one()); });
    def(n + " zero", [&] { return text(V::zero().is_zero()); });
    def(n + " print", [&] {
        std::ostringstream o;
        o << p;
        return o.str();
    });
    if constexpr (adds_mixed<V>::value) {
        def(n + " mixed_add", [&] {
            V r = p;
            r.mixed_add(V::one());
            return text(r);
        });
    }
    if constexpr (to_affine_of<V>::value) {
        def(n + " to_affine", [&] { return text(p.to_affine()); });
    }
    if constexpr (well_formed<V>::value) {
        def(n + " is_well_formed", [&] { return text(p.is_well_formed()); });
    }
}
VF_MAIN("c29") {
#define X(name, coordinates, ...) points<__VA_ARGS__>(name, coordinates);
#if GROUP == 99
    field<curves::bls12<381>::base_field_type::value_type>("bls12_381_fq");
    field<curves::bls12<381>::scalar_field_type::value_type>("bls12_381_fr");
    field<curves::bls12<381>::g2_type<>::field_type::value_type>("bls12_381 fp2");
    field<curves::bls12<381>::gt_type::value_type>("bls12_381 fp12");
    field<curves::mnt4<298>::gt_type::value_type>("mnt4 fp4");
    field<curves::mnt6<298>::g2_type<>::field_type::value_type>("mnt6 fp3");
    field<curves::mnt6<298>::gt_type::value_type>("mnt6 fp6");
    {
        typedef curves::bls12<381>::g2_type<>::field_type::value_type F2;
        typedef curves::mnt6<298>::g2_type<>::field_type::value_type F3;
        typedef curves::bls12<381>::gt_type::value_type F12;
        static F2 a2;
        static F3 a3;
        static F12 a12;
        vf::rng g(vf::seed() + 1);
        fill(g, a2);
        fill(g, a3);
        fill(g, a12);
        def("fp2 sqrt", [] { return text(a2.squared().sqrt().squared()) + text(a2.is_square()); });
        def("fp3 sqrt", [] { return text(a3.squared().sqrt().squared()); });
        def("fp2 hash", [] { return text(std::hash<F2>()(a2)); });
        static const F12 c12 = (a12.unitary_inversed() * a12.inversed()).Frobenius_map(2) * (a12.unitary_inversed() * a12.inversed());
        def("fp12 unitary inverse", [] { return text(c12.unitary_inversed() * c12); });
        def("fp12 cyclotomic square", [] { return text(c12.cyclotomic_squared()); });
        def("fp12 cyclotomic power", [] { return text(c12.cyclotomic_exp(curves::bls12<381>::base_field_type::integral_type(0x12345u))); });
    }
    JAC0_LIST(X, "bls12_381_g1", curves::bls12<381>::g1_type)
    X("bls12_381_g2", "jacobian_a0", curves::bls12<381>::g2_type<>)
    A3_LIST(X, "secp256r1", curves::secp_r1<256>::g1_type)
    X("mnt4_g2", "projective", curves::mnt4<298>::g2_type<>)
    EXT_LIST(X, "jubjub", curves::jubjub::g1_type)
    X("jubjub_m", "montgomery", curves::jubjub::g1_type<coords::affine, forms::montgomery>)
#else
    CURVE_LIST(X)
#endif
    threads("fields and curves:", vf::n(4, 100));
}
#elif PART == 2
#include <nil/crypto3/algebra/curves/params/multiexp/bls12.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/bls12.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/coordinates.hpp>
#include <nil/crypto3/algebra/multiexp/multiexp.hpp>
#include <nil/crypto3/algebra/multiexp/inner_product.hpp>
#include <nil/crypto3/algebra/wnaf.hpp>
namespace algebra = nil::crypto3::algebra;
namespace curves = algebra::curves;
template<class G>
static void sums(const char *name) {
    typedef typename G::value_type V;
    typedef typename G::curve_type::scalar_field_type F;
    typedef typename F::value_type S;
    typedef typename S::integral_type I;
    static std::vector<V> points;
    static std::vector<S> scalars;
    vf::rng g(vf::seed());
    V p = V::one();
    for (int i = 0; i < 9; ++i) {
        points.push_back(p);
        p = p + points[i / 2];
        S s(g() >> 1);
        for (int k = 0; k < 3; ++k) {
            s = s * s + S(g() >> 1);
        }
        scalars.push_back(i == 4 ? S::zero() : i == 5 ? S::one() : s);
    }
    const auto &P = points;
    const auto &E = scalars;
    const std::string n = name;
    auto shown = [](const V &v) { return text(v); };
    for (std::size_t chunks : {1u, 3u}) {
        const std::string c = vf::cat(n, "chunks", chunks);
        def(c + " plain", [&P, &E, chunks, shown] { return shown(algebra::multiexp<algebra::policies::multiexp_method_naive_plain>(P.begin(), P.end(), E.begin(), E.end(), chunks)); });
        def(c + " bos_coster", [&P, &E, chunks, shown] { return shown(algebra::multiexp<algebra::policies::multiexp_method_bos_coster>(P.begin(), P.end(), E.begin(), E.end(), chunks)); });
        def(c + " bdlo12", [&P, &E, chunks, shown] { return shown(algebra::multiexp<algebra::policies::multiexp_method_BDLO12>(P.begin(), P.end(), E.begin(), E.end(), chunks)); });
        def(c + " bdlo12 01", [&P, &E, chunks, shown] { return shown(algebra::multiexp_with_mixed_addition<algebra::policies::multiexp_method_BDLO12>(P.begin(), P.end(), E.begin(), E.end(), chunks)); });
        def(c + " bos_coster 01", [&P, &E, chunks, shown] { return shown(algebra::multiexp_with_mixed_addition<algebra::policies::multiexp_method_bos_coster>(P.begin(), P.end(), E.begin(), E.end(), chunks)); });
    }
    def(n + " inner_product", [&E] { return text(algebra::inner_product(E.begin(), E.end(), E.begin(), E.end())); });
    for (std::size_t w : {1u, 4u}) {
        def(vf::cat(n, "wnaf", w), [&P, &E, w] { return text(algebra::fixed_window_wnaf_exp(w, P[3], I(E[2].data))); });
    }
    static const auto table = algebra::get_window_table<G>(F::value_bits, 3, P[2]);
    def(n + " get_window_table", [&P] { return text(algebra::get_window_table<G>(F::value_bits, 3, P[2])[1]); });
    def(n + " get_exp_window_size", [] { return text(algebra::get_exp_window_size<G>(1000)); });
    def(n + " windowed_exp", [&E] { return text(algebra::windowed_exp<G, F>(F::value_bits, 3, table, E[1])); });
    def(n + " batch_exp", [&E] { return text(algebra::batch_exp<G, F>(F::value_bits, 3, table, E)); });
    def(n + " batch_exp_with_coeff", [&E] { return text(algebra::batch_exp_with_coeff<G, F>(F::value_bits, 3, table, E[0], E)); });
}
VF_MAIN("c29") {
    sums<curves::bls12<381>::g1_type<>>("bls12_381_g1");
    sums<curves::bls12<381>::g2_type<>>("bls12_381_g2");
    threads("sums:", vf::n(3, 60));
}
#elif PART == 3
#include <boost/random/mersenne_twister.hpp>
#include <boost/range/concepts.hpp>
#include <nil/crypto3/algebra/type_traits.hpp>
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#include <nil/crypto3/algebra/pairing/bls12.hpp>
#include <nil/crypto3/algebra/marshalling.hpp>
#include <nil/crypto3/algebra/random_element.hpp>
using namespace nil::crypto3::algebra;
typedef curves::bls12_381 curve_t;
typedef nil::marshalling::curve_element_serializer<curve_t> ser;
typedef curve_t::g1_type<> G1;
typedef curve_t::g2_type<> G2;
VF_MAIN("c29") {
    static G1::value_type a = G1::value_type::one() + G1::value_type::one();
    static G2::value_type b = G2::value_type::one() + G2::value_type::one();
    const auto &p = a;
    const auto &q = b;
    static const auto pc = ser::point_to_octets_compress(p);
    static const auto pu = ser::point_to_octets(p);
    static const auto qc = ser::point_to_octets_compress(q);
    static const auto qu = ser::point_to_octets(q);
    OP(ser::point_to_octets_compress(p))
    OP(ser::point_to_octets(p))
    OP(ser::point_to_octets_compress(q))
    OP(ser::point_to_octets(q))
    OP(ser::octets_to_g1_point(pc))
    OP(ser::octets_to_g1_point(pu))
    OP(ser::octets_to_g2_point(qc))
    OP(ser::octets_to_g2_point(qu))
    def("random fields", [] {
        boost::random::mt19937 r(7);
        return text(random_element<curve_t::base_field_type>(r)) + text(random_element<curve_t::scalar_field_type>(r)) + text(random_element<G2::field_type>(r)) + text(random_element<curve_t::gt_type>(r));
    });
    def("random points", [] {
        boost::random::mt19937 r(8);
        return text(random_element<G1>(r)) + text(random_element<G2>(r));
    });
    threads("serialisation and draws:", vf::n(4, 60));
}
#elif PART == 4
#include <boost/multiprecision/cpp_int.hpp>
#include <nil/crypto3/algebra/totient.hpp>
namespace algebra = nil::crypto3::algebra;
typedef boost::multiprecision::number<boost::multiprecision::cpp_int_backend<512, 512, boost::multiprecision::unsigned_magnitude, boost::multiprecision::unchecked, void>> u512;
VF_MAIN("c29") {
    for (unsigned long long n : {1ull, 2ull, 12ull, 97ull, 360360ull, 1000003ull * 999983ull, 65537ull * 65537ull}) {
        def(vf::cat("prime_factorize", n), [n] {
            std::set<u512> s;
            algebra::prime_factorize(u512(n), s);
            return text(s);
        });
        def(vf::cat("totient", n), [n] { return text(algebra::totient(u512(n))); });
    }
    def("totient_list", [] { return text(algebra::totient_list(u512(60))); });
    def("first_prime", [] { return text(algebra::first_prime<u512>(20, 8)); });
    threads("primes:", vf::n(6, 60));
}
#elif PART == 5
#include <nil/crypto3/algebra/curves/detail/h2c/h2c_m2c.hpp>
#include <nil/crypto3/algebra/curves/bls12.hpp>
namespace m2c = nil::crypto3::algebra::curves::detail;
typedef nil::crypto3::algebra::curves::bls12<381> curve_t;
template<class G, class V>
static void maps(const std::string &n, const V &u) {
    def(n + " m2c_simple_swu", [u] { return text(m2c::m2c_simple_swu<G>::process(u)); });
    def(n + " map_to_curve", [u] { return text(m2c::map_to_curve<G>::process(u)); });
}
VF_MAIN("c29") {
    typedef curve_t::g1_type<> G1;
    typedef curve_t::g2_type<> G2;
    typedef G1::field_type::value_type V1;
    typedef G2::field_type::value_type V2;
    for (unsigned k : {0u, 1u, 5u, 77u, 123456u}) {
        maps<G1>(vf::cat("g1", k), V1(k) * V1(k + 9u).inversed());
        maps<G2>(vf::cat("g2", k), V2(V1(k), V1(3 * k + 1)).squared() * V2(V1(2u), V1(5u)).inversed());
    }
    threads("map to curve:", vf::n(4, 60));
}
#else
#if PART == 10
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/pairing/bls12.hpp>
#define TYPE bls12<381>
#elif PART == 11
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#include <nil/crypto3/algebra/pairing/mnt4.hpp>
#define TYPE mnt4<298>
#elif PART == 12
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/pairing/mnt6.hpp>
#define TYPE mnt6<298>
#else
#include <nil/crypto3/algebra/curves/edwards.hpp>
#include <nil/crypto3/algebra/pairing/edwards.hpp>
#define TYPE edwards<183>
#endif
#include <nil/crypto3/algebra/algorithms/pair.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
namespace algebra = nil::crypto3::algebra;
typedef algebra::curves::TYPE curve;
typedef algebra::pairing::pairing_policy<curve> policy;
typedef curve::g1_type<>::value_type G1;
typedef curve::g2_type<>::value_type G2;
typedef curve::gt_type::value_type GT;
VF_MAIN("c29") {
    static const G1 p = G1::one() + G1::one(), p2 = p + G1::one();
    static const G2 q = G2::one() + G2::one(), q2 = q + G2::one();
    // shared by every thread; the first loops over them run concurrently
    static const policy::g1_precomputed_type pp = algebra::precompute_g1<curve>(p), pp2 = algebra::precompute_g1<curve>(p2);
    static const policy::g2_precomputed_type qq = algebra::precompute_g2<curve>(q), qq2 = algebra::precompute_g2<curve>(q2);
    static const GT f = algebra::miller_loop<curve>(pp, qq);
    def("pair_reduced", [] { return text(algebra::pair_reduced<curve>(p, q)); });
    def("pair", [] { return text(algebra::pair<curve>(p, q)); });
    def("precompute_g1", [] { return text(algebra::precompute_g1<curve>(p) == pp); });
    def("precompute_g2", [] { return text(algebra::precompute_g2<curve>(q) == qq); });
    def("miller_loop", [] { return text(algebra::miller_loop<curve>(pp, qq)); });
    def("miller_loop of a copy", [] {
        const auto c = qq2;
        return text(algebra::miller_loop<curve>(pp2, c));
    });
    def("double_miller_loop", [] { return text(algebra::double_miller_loop<curve>(pp, qq, pp2, qq2)); });
    def("final_exponentiation", [] { return text(algebra::final_exponentiation<curve>(f)); });
    def("pairing of the identity", [] { return text(algebra::pair_reduced<curve>(G1::zero(), q)); });
#if PART != 13
    def("printing a precomputation", [] {
        std::ostringstream o;
        o << qq;
        return o.str();
    });
#endif
    threads(vf::cat("pairing", PART).c_str(), vf::n(2, 30));
}
#endif
