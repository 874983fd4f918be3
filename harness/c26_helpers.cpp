// Byte, bit and metaprogramming helpers. PART 0: strxor; 1: shifts and bit masks; 2: arrays, words, octets, same_value;
// 3: state_adder; 10..: programs that must not compile (see checks/C26.py)
#if PART < 10
#include "vf.hpp"
#endif
#include <algorithm>
#include <array>
#include <cassert>
#include <climits>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <list>
#include <type_traits>
#include <vector>
#if PART == 0
#include <boost/range/concepts.hpp>
#include <nil/crypto3/algebra/algorithms/strxor.hpp>
namespace algebra = nil::crypto3::algebra;
template<class C>
static std::string text(const C &c) {
    std::string s;
    for (auto x : c) {
        s += (s.empty() ? "" : " ") + std::to_string((unsigned long long)x);
    }
    return s;
}
// In: container of both inputs; Other: container of the second input of the iterator overload
template<class In, class Other, class Out>
static void xor_case(const char *what, vf::rng &g, std::size_t n) {
    typedef typename In::value_type T;
    In a(n), b(n);
    for (auto &x : a) {
        x = (T)g();
    }
    for (auto &x : b) {
        x = (T)g();
    }
    const Other other(b.begin(), b.end());
    std::vector<T> want;
    auto j = b.begin();
    for (auto x : a) {
        want.push_back((T)(x ^ *j++));
    }
    const std::uint64_t key = vf::hash(what + text(a));
    auto same = [&](auto first) { return std::equal(want.begin(), want.end(), first); };
    vf::at(vf::cat("strxor ranges of", what, "length", n));
    const In a0 = a, b0 = b;
    Out o(n);
    algebra::strxor(a, b, o);
    vf::check(same(o.begin()) && o.size() == n && a == a0 && b == b0, "strxor ranges", key, n > 0, [&] { return vf::cat(what, "of", text(a), "and", text(b), "gives", text(o)); });
    vf::at(vf::cat("strxor iterators of", what, "length", n));
    std::vector<T> p(n + 2, T(7));
    auto end = algebra::strxor(a.begin(), a.end(), other.begin(), other.end(), p.begin() + 1);
    vf::check(same(p.begin() + 1) && p.front() == T(7) && p.back() == T(7) && a == a0, "strxor iterators", key, n > 0, [&] { return vf::cat(what, "of", text(a), "and", text(b), "writes", text(p)); });
    vf::check(end == p.begin() + 1 + n, "strxor result", key, true, [&] { return vf::cat(what, "length", n, "does not return the end of the output"); });
    std::deque<T> q;
    algebra::strxor(a.begin(), a.end(), other.begin(), other.end(), std::back_inserter(q));
    vf::check(q.size() == n && same(q.begin()), "strxor back_inserter", key, n > 0, [&] { return vf::cat(what, "of", text(a), "and", text(b), "appends", text(q)); });
    vf::at(vf::cat("strxor in place of", what, "length", n));
    In c = a;
    algebra::strxor(c, b, c);
    vf::check(same(c.begin()), "strxor in place", key, n > 0, [&] { return vf::cat(what, "in place of", text(a), "and", text(b), "gives", text(c)); });
    In d = b;
    algebra::strxor(a, d, d);
    vf::check(same(d.begin()), "strxor in place", key + 1, n > 0, [&] { return vf::cat(what, "in place of the second of", text(a), "and", text(b), "gives", text(d)); });
    In e = a;
    algebra::strxor(e, e, e);
    vf::check(std::all_of(e.begin(), e.end(), [](T x) { return x == 0; }), "strxor with itself", key, n > 0, [&] { return vf::cat(what, text(a), "with itself gives", text(e)); });
    In h = a;
    algebra::strxor(h.begin(), h.end(), other.begin(), other.end(), h.begin());
    vf::check(same(h.begin()), "strxor iterators in place", key, n > 0, [&] { return vf::cat(what, "in place of", text(a), "and", text(b), "gives", text(h)); });
    vf::sample(vf::cat(what, ":", text(a), "^", text(b), "=", text(o)));
}
struct constexpr_case {
    std::array<unsigned char, 5> o {};
    constexpr constexpr_case() {
        const std::array<unsigned char, 5> a {1, 2, 4, 255, 0}, b {255, 2, 1, 15, 9};
        algebra::strxor(a, b, o);
    }
};
VF_MAIN("c26") {
    vf::rng g(vf::seed());
    for (std::size_t n = 0; n <= vf::n(70, 400); ++n) {
        xor_case<std::vector<std::uint8_t>, std::vector<std::uint8_t>, std::vector<std::uint8_t>>("uint8 vectors", g, n);
        xor_case<std::vector<std::uint64_t>, std::vector<std::uint64_t>, std::vector<std::uint64_t>>("uint64 vectors", g, n);
        xor_case<std::list<std::uint16_t>, std::deque<std::uint16_t>, std::vector<std::uint16_t>>("uint16 list and deque", g, n);
        xor_case<std::vector<std::int32_t>, std::list<std::int32_t>, std::deque<std::int32_t>>("int32 vector and list", g, n);
    }
    static constexpr constexpr_case k;
    const std::array<unsigned char, 5> want {254, 0, 5, 240, 9};
    vf::check(k.o == want, "strxor at compile time", 1, true, [&] { return "gives " + text(k.o); });
}
#elif PART == 1
#include <nil/crypto3/detail/unbounded_shift.hpp>
namespace d = nil::crypto3::detail;
typedef unsigned __int128 u128;
// x 2^n mod 2^w and floor(x / 2^n)
static u128 shl(u128 x, unsigned n, unsigned w) {
    while (n-- && x) {
        x = (x * 2) & (w < 128 ? (u128(1) << w) - 1 : ~u128(0));
    }
    return x;
}
static u128 shr(u128 x, unsigned n) {
    while (n-- && x) {
        x /= 2;
    }
    return x;
}
static u128 low(u128 x, unsigned n) {
    return n >= 128 ? x : x % (u128(1) << n);
}
typedef unsigned long long ull;
static __attribute__((noinline)) void judge(const char *site, const char *type, ull x, ull n, unsigned w, ull got, u128 want) {
    vf::check(got == (ull)want, site, vf::key(x, n, w), n > 0, [&] { return vf::cat(type, x, "by", n, "gives", got, "expected", (ull)want); });
}
template<class T, int N>
static void fixed(const char *type, T x) {
    constexpr unsigned w = sizeof(T) * CHAR_BIT;
    judge("unbounded_shl<N>", type, x, N, w, d::unbounded_shl<N>(x), shl(x, N, w));
    judge("unbounded_shr<N>", type, x, N, w, d::unbounded_shr<N>(x), shr(x, N));
    if constexpr (N > 0) {
        judge("low_bits<N>", type, x, N, w, d::low_bits<N>(x), low(x, N));
    }
    if constexpr (N <= (int)w) {
        judge("low_bits<N, width>", type, x, N, w, d::low_bits<(std::size_t)N, (std::size_t)w>(x), low(x, N));
    }
}
template<class T, int... N>
static void all_fixed(const char *name, T x) {
    (fixed<T, N>(name, x), ...);
}
template<class T>
static void type(const char *name) {
    constexpr unsigned w = sizeof(T) * CHAR_BIT;
    vf::rng g(vf::seed() + w);
    std::vector<T> xs {T(0), T(1), T(~T(0)), T(T(1) << (w - 1)), T(0x5a), T(T(~T(0)) >> 1)};
    if (w == 8) {
        for (unsigned i = 0; i < 256; ++i) {
            xs.push_back(T(i));
        }
    }
    for (std::size_t i = 0; i < vf::n(60, 2000); ++i) {
        xs.push_back((T)g());
    }
    for (T x : xs) {
        for (std::size_t n : {0ul, 1ul, 2ul, 3ul, 5ul, 7ul, 8ul, 9ul, 15ul, 16ul, 17ul, 24ul, 31ul, 32ul, 33ul, 40ul, 47ul, 48ul, 63ul, 64ul, 65ul, 100ul, 127ul, 128ul, 129ul, 255ul, 256ul, 1000ul, 1ul << 31, 1ul << 32, (1ul << 32) + 1, ~0ul}) {
            const unsigned k = (unsigned)std::min<std::size_t>(n, 300);
            vf::at(vf::cat("unbounded shifts of", name, (ull)x, "by", n));
            judge("unbounded_shl", name, x, n, w, d::unbounded_shl(x, n), shl(x, k, w));
            judge("unbounded_shr", name, x, n, w, d::unbounded_shr(x, n), shr(x, k));
            judge("low_bits", name, x, n, w, d::low_bits<w>(x, n), low(x, k));
            judge("high_bits", name, x, n, w, d::high_bits<w>(x, n), k >= w ? x : T(x - (T)low(x, w - k)));
        }
        vf::at(vf::cat("static shifts of", name, (ull)x));
        all_fixed<T, 0, 1, 4, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 200>(name, x);
    }
    vf::sample(vf::cat(name, "0x5a by 4:", (ull)d::unbounded_shl<T>(T(0x5a), 4), (ull)d::unbounded_shr<T>(T(0x5a), 4)));
}
VF_MAIN("c26") {
    type<std::uint8_t>("uint8");
    type<std::uint16_t>("uint16");
    type<std::uint32_t>("uint32");
    type<std::uint64_t>("uint64");
}
#elif PART == 2
#include <nil/crypto3/detail/make_array.hpp>
#include <nil/crypto3/detail/make_uint_t.hpp>
#include <nil/crypto3/detail/octet.hpp>
#include <nil/crypto3/detail/same_value.hpp>
namespace c3 = nil::crypto3;
using c3::algebra::detail::all_same_value;
template<std::size_t N, class T>
static void array_case(vf::rng &g) {
    std::vector<T> v(N + 1);
    for (auto &x : v) {
        x = (T)g();
    }
    vf::at(vf::cat("make_array of", N));
    const auto a = c3::make_array<N>(v.begin(), v.begin() + N);
    static_assert(std::is_same<decltype(a), const std::array<T, N>>::value, "array type");
    vf::check(std::equal(a.begin(), a.end(), v.begin()), "make_array", vf::key(N, sizeof(T), v[0]), N > 1, [&] { return vf::cat("of", N, "elements loses their order"); });
    std::deque<T> q(v.begin(), v.begin() + N);
    const auto b = c3::make_array<N>(q.begin(), q.end());
    vf::check(b == a, "make_array of a deque", vf::key(N, sizeof(T), v[0]), N > 1, [&] { return vf::cat("of", N, "elements loses their order"); });
}
template<class W, class T, class... A>
static void word_of(const std::vector<T> &parts, A... a) {
    constexpr std::size_t size = sizeof(W) * 8;
    unsigned __int128 want = 0;
    for (T p : parts) {
        want = want << (8 * sizeof(T)) | p;
    }
    vf::at(vf::cat("make_uint_t", size, "from", parts.size(), "parts of", sizeof(T), "bytes"));
    const auto got = c3::detail::make_uint_t<size>(a...);
    static_assert(std::is_same<decltype(got), const W>::value, "word type");
    vf::check(got == (W)want, "make_uint_t", vf::key(got, sizeof(T), parts.size()), parts.size() > 1, [&] { return vf::cat("of", parts.size(), "parts gives", (unsigned long long)got, "expected", (unsigned long long)want); });
    const auto list = c3::detail::make_uint_t<size, T>({a...});
    vf::check(list == (W)want, "make_uint_t list", vf::key(got, sizeof(T), parts.size()), parts.size() > 1, [&] { return vf::cat("of", parts.size(), "parts gives", (unsigned long long)list, "expected", (unsigned long long)want); });
}
template<class T>
static void bytes_of(vf::rng &g) {
    const T v = (T)g();
    for (std::size_t i = 0; i < sizeof(T); ++i) {
        vf::at(vf::cat("extract_uint_t<8> of", (unsigned long long)v, "at", i));
        const auto b = c3::detail::extract_uint_t<8>(v, i);
        static_assert(std::is_same<decltype(b), const std::uint8_t>::value, "octet type");
        vf::check(b == (std::uint8_t)(v >> 8 * (sizeof(T) - 1 - i)), "extract_uint_t", vf::key(v, i, sizeof(T)), true, [&] { return vf::cat("byte", i, "of", (unsigned long long)v, "gives", (unsigned)b); });
    }
}
VF_MAIN("c26") {
    vf::rng g(vf::seed());
    for (std::size_t r = 0; r < vf::n(200, 20000); ++r) {
        array_case<0, int>(g);
        array_case<1, std::uint8_t>(g);
        array_case<2, std::uint64_t>(g);
        array_case<3, int>(g);
        array_case<7, std::uint16_t>(g);
        array_case<16, std::uint32_t>(g);
        array_case<33, std::uint8_t>(g);
        const std::uint8_t b[8] = {(std::uint8_t)g(), (std::uint8_t)g(), (std::uint8_t)g(), (std::uint8_t)g(), (std::uint8_t)g(), (std::uint8_t)g(), (std::uint8_t)g(), (std::uint8_t)g()};
        const std::uint16_t s[4] = {(std::uint16_t)g(), (std::uint16_t)g(), (std::uint16_t)g(), (std::uint16_t)g()};
        const std::uint32_t w[2] = {(std::uint32_t)g(), (std::uint32_t)g()};
        const std::uint64_t q = g();
        word_of<std::uint8_t, std::uint8_t>({b[0]}, b[0]);
        word_of<std::uint16_t, std::uint8_t>({b[0], b[1]}, b[0], b[1]);
        word_of<std::uint32_t, std::uint8_t>({b[0], b[1], b[2], b[3]}, b[0], b[1], b[2], b[3]);
        word_of<std::uint32_t, std::uint8_t>({b[0], b[1]}, b[0], b[1]);
        word_of<std::uint64_t, std::uint8_t>({b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]}, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]);
        word_of<std::uint32_t, std::uint16_t>({s[0], s[1]}, s[0], s[1]);
        word_of<std::uint64_t, std::uint16_t>({s[0], s[1], s[2], s[3]}, s[0], s[1], s[2], s[3]);
        word_of<std::uint64_t, std::uint32_t>({w[0], w[1]}, w[0], w[1]);
        word_of<std::uint16_t, std::uint16_t>({s[0]}, s[0]);
        word_of<std::uint32_t, std::uint32_t>({w[0]}, w[0]);
        word_of<std::uint64_t, std::uint64_t>({q}, q);
        // as many bits as a part has, or fewer: only the last parts stay
        word_of<std::uint8_t, std::uint8_t>({b[0], b[1]}, b[0], b[1]);
        word_of<std::uint8_t, std::uint8_t>({b[0], b[1], b[2]}, b[0], b[1], b[2]);
        word_of<std::uint32_t, std::uint32_t>({w[0], w[1]}, w[0], w[1]);
        word_of<std::uint32_t, std::uint16_t>({s[0], s[1], s[2]}, s[0], s[1], s[2]);
        word_of<std::uint64_t, std::uint32_t>({w[0], w[1], w[0]}, w[0], w[1], w[0]);
        word_of<std::uint64_t, std::uint64_t>({q, ~q}, q, ~q);
        bytes_of<std::uint8_t>(g);
        bytes_of<std::uint16_t>(g);
        bytes_of<std::uint32_t>(g);
        bytes_of<std::uint64_t>(g);
    }
    vf::at("same_value");
    vf::check(all_same_value<int, 5>::value == 5 && all_same_value<int, -3, -3>::value == -3 && all_same_value<std::size_t, 7, 7, 7, 7>::value == 7 && all_same_value<bool, false, false>::value == false &&
                  all_same_value<char, 'x', 'x', 'x'>::value == 'x',
              "all_same_value", 1, true, [] { return std::string("is not the common value"); });
    vf::check(std::is_same<std::decay_t<decltype(all_same_value<std::size_t, 7, 7>::value)>, std::size_t>::value && std::is_same<std::decay_t<decltype(all_same_value<char, 'a'>::value)>, char>::value, "all_same_value type", 2,
              true, [] { return std::string("is of another type"); });
    vf::check(c3::octet_bits == 8 && sizeof(c3::octet_type) == 1 && std::is_unsigned<c3::octet_type>::value && std::numeric_limits<c3::octet_type>::digits == 8, "octet", 3, true,
              [] { return std::string("octet_type is not an unsigned type of eight bits"); });
}
#elif PART == 3
#include <nil/crypto3/detail/state_adder.hpp>
VF_MAIN("c26") {
    vf::rng g(vf::seed());
    nil::crypto3::detail::state_adder add;
    for (std::size_t r = 0; r < vf::n(400, 20000); ++r) {
        for (std::size_t n : {0u, 1u, 2u, 5u, 8u, 16u}) {
            for (std::size_t m : {n, n + 1, n + 3, n ? n - 1 : 0}) {
                std::vector<std::uint32_t> a(n), b(m);
                for (auto &x : a) {
                    x = (std::uint32_t)g();
                }
                for (auto &x : b) {
                    x = (std::uint32_t)g();
                }
                std::vector<std::uint32_t> want = a;
                for (std::size_t i = 0; i < std::min(n, m); ++i) {
                    want[i] = a[i] + b[i];
                }
                const auto b0 = b;
                vf::at(vf::cat("state_adder on", n, "and", m));
                add(a, b);
                vf::check(a == want && b == b0, "state_adder", vf::key(n, m, r), n && m, [&] { return vf::cat("of", n, "and", m, "words does not add word by word"); });
                vf::count("words", std::min(n, m));
            }
        }
        std::array<std::uint64_t, 4> x {g(), g(), g(), g()}, y {g(), g(), g(), g()}, z = x;
        add(x, y);
        bool ok = true;
        for (int i = 0; i < 4; ++i) {
            ok &= x[i] == z[i] + y[i];
        }
        vf::check(ok, "state_adder arrays", vf::key(x[0], x[1]), true, [] { return std::string("does not add word by word"); });
        add(x, x);
        vf::check(x[0] == 2 * (z[0] + y[0]) && x[3] == 2 * (z[3] + y[3]), "state_adder with itself", vf::key(x[0], x[1]), true, [] { return std::string("does not double"); });
    }
}
#elif PART == 10
#include <nil/crypto3/detail/same_value.hpp>
int x = nil::crypto3::algebra::detail::all_same_value<int, VALUES>::value;
#endif
