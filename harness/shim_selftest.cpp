// Results of the boost::multiprecision stand-in on seeded operands, one per line, for bin/setup.py to recompute.
#include <cstdio>
#include <cstdint>
#include <string>
#include <vector>
#include <iterator>
#include <nil/crypto3/multiprecision/shim_core.hpp>
namespace mp = boost::multiprecision;
static uint64_t st = 0x9E3779B97F4A7C15ull;
static uint64_t rnd() {
    uint64_t z = (st += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
template<unsigned B>
using N = mp::number<mp::backends::cpp_int_modular_backend<B>>;
// uniform bits, with long runs of ones or zeros and short values among them
template<unsigned B>
N<B> draw() {
    N<B> r(0u);
    const unsigned shape = rnd() % 6;
    for (auto &l : r.backend().d) {
        l = shape == 1 ? 0 : shape == 2 ? ~uint64_t(0) : shape == 3 && rnd() % 2 ? ~uint64_t(0) : shape == 4 && rnd() % 2 ? 0 : rnd();
    }
    r.backend().normalize();
    if (shape == 5) {
        r >>= unsigned(rnd() % B);
    }
    if (shape == 1) {
        r += N<B>(unsigned(rnd() % 4));
    }
    return r;
}
template<class T>
std::string h(const T &v) {
    return v.str(16);
}
#define OUT(op, r) std::printf("%u %s %s %s %s\n", B, op, h(a).c_str(), h(b).c_str(), (r).c_str())
template<unsigned B>
void plain(unsigned n) {
    for (unsigned k = 0; k < n; ++k) {
        N<B> a = draw<B>(), b = draw<B>();
        OUT("add", h(a + b)); OUT("sub", h(a - b)); OUT("mul", h(a * b));
        if (!b.is_zero()) { OUT("div", h(a / b)); OUT("mod", h(a % b)); }
        OUT("and", h(a & b)); OUT("or", h(a | b)); OUT("xor", h(a ^ b)); OUT("not", h(~a));
        OUT("cmp", std::to_string((a < b) + 2 * (a == b) + 4 * (a > b) + 8 * (a <= b) + 16 * (a >= b) + 32 * (a != b)));
        const unsigned s = rnd() % (B + 1);
        N<B> keep = b; b = N<B>(s);
        OUT("shl", h(a << s)); OUT("shr", h(a >> s)); OUT("bit", std::to_string(int(mp::bit_test(a, s))));
        b = keep;
        if (!a.is_zero()) { OUT("msb", std::to_string(mp::msb(a))); }
        if (!b.is_zero()) { OUT("gcd", h(mp::gcd(a, b))); }
        OUT("dec", a.str());
        OUT("parse", h(N<B>(("0x" + h(a)).c_str()))); OUT("lit", h(mp::shim::parse_hex<B>(("0x" + h(a)).c_str(), h(a).size() + 2)));
        OUT("u64", std::to_string(static_cast<unsigned long>(a)));
        N<2 * B> wide(a); wide *= N<2 * B>(b);
        OUT("wide", h(wide)); OUT("narrow", h(N<B>(wide)));
        std::vector<unsigned char> by;
        mp::export_bits(a, std::back_inserter(by), 8);
        std::string s2; for (auto x : by) { char c[3]; std::snprintf(c, 3, "%02x", x); s2 += c; }
        OUT("export", s2);
        N<B> back; mp::import_bits(back, by.begin(), by.end(), 8); OUT("import", h(back));
        std::vector<unsigned char> le; mp::export_bits(a, std::back_inserter(le), 8, false);
        mp::import_bits(back, le.begin(), le.end(), 8, false); OUT("import", h(back));
        for (unsigned w = 1; w < 7; w += 2) {
            std::string t; for (long d : mp::find_wnaf(w, a)) { t += std::to_string(d) + ","; }
            OUT(w == 1 ? "wnaf1" : w == 3 ? "wnaf3" : "wnaf5", t);
        }
        OUT("isqrt", h(mp::sqrt(a)));
        if (!a.is_zero()) { OUT("lsb", std::to_string(mp::lsb(a))); }
        if (B < 200 && !b.is_zero()) { OUT("lcmw", h(mp::lcm(N<2 * B>(a), N<2 * B>(b)))); }
        OUT("pow3", h(mp::pow(a, 3u))); OUT("pow70", h(mp::pow(a, 70u)));
        if (!b.is_zero()) {
            N<B> q, r; mp::divide_qr(a, b, q, r); OUT("div", h(q)); OUT("mod", h(r));
            q = a; r = b; mp::divide_qr(q, r, q, r); OUT("div", h(q)); OUT("mod", h(r));
            OUT("powmab", h(mp::powm(a, a, b))); OUT("powm9", h(mp::powm(a, 9u, b)));
            OUT("invab", h(mp::inverse_mod(a, b)));
        }
        if (B > 8) { OUT("mod97", std::to_string(mp::integer_modulus(a, 97u))); }
        {
            N<B> r; mp::add(r, a, b); OUT("add", h(r)); mp::subtract(r, a, b); OUT("sub", h(r)); mp::multiply(r, a, b); OUT("mul", h(r));
            r = a; N<B> t = b; r.swap(t); OUT("same_b", h(r)); swap(r, t); OUT("narrow_a", h(r)); OUT("same_b", h(t));
            r = a; mp::bit_set(r, 3u); OUT("set3", h(r)); r = a; mp::bit_unset(r, 3u); OUT("unset3", h(r)); r = a; mp::bit_flip(r, B - 1); OUT("fliptop", h(r));
            OUT("narrow_a", a.str(0, std::ios_base::hex)); OUT("dec", a.str(0, std::ios_base::dec)); OUT("narrow_a", h(+a)); OUT("narrow_a", h(mp::abs(a)));
        }
        N<B> c(a); ++c; OUT("inc", h(c)); c = a; --c; OUT("dec1", h(c)); c = a; c += 7u; OUT("plus7", h(c)); c -= 9u; OUT("minus2", h(c));
    }
}
template<unsigned B, const mp::backends::modular_params<mp::backends::cpp_int_modular_backend<B>> &P>
void modular(unsigned n, bool prime) {
    typedef mp::backends::cpp_int_modular_backend<B> Bk;
    typedef mp::number<mp::backends::modular_adaptor<Bk, mp::backends::modular_params_ct<Bk, P>>> M;
    const N<B> p(P.get_mod());
    for (unsigned k = 0; k < n; ++k) {
        N<B> a = draw<B>(), b = draw<B>();
        if (k % 7 == 0) { a = k ? p - N<B>(1u) : N<B>(0u); }
        M x(a), y(b);
#define MO(op, r) std::printf("%u %s %s %s %s %s\n", B, op, h(a).c_str(), h(b).c_str(), h((r).plain()).c_str(), h(p).c_str())
        MO("madd", x + y); MO("msub", x - y); MO("mmul", x * y); MO("mneg", -x); MO("mpow", mp::powm(x, b)); MO("mid", x);
        { M z = x; ++z; MO("minc", z); MO("minc", z++); --z; MO("minc", z); MO("minc", z--); MO("mid", z); z = y; swap(z, x); MO("mid", z); swap(z, x);
          z = b; MO("mb", z); MO("mpow3", mp::pow(x, 3u)); MO("mpow", mp::pow(x, b)); MO("mid", +x); }
        if (prime) { MO("mdiv", x / y); M z = x; z /= z; MO("mdivself", z); }
        if (prime) { MO("minv", mp::inverse_mod(x)); if (k % 4 == 0) { MO("msqrt", mp::ressol(x)); } }
        std::printf("%u meq %s %s %d %s\n", B, h(a).c_str(), h(b).c_str(), int(x == y) + 2 * int(x == M(a % p)), h(p).c_str());
        mp::backends::modular_params<Bk> rp(p);
        (void)rp;
    }
}
template<unsigned B>
constexpr mp::backends::modular_params<mp::backends::cpp_int_modular_backend<B>> mk(const char *s, std::size_t n) {
    return mp::backends::modular_params<mp::backends::cpp_int_modular_backend<B>>(mp::shim::parse_hex<B>(s, n));
}
#define PRIME(name, B, S) constexpr mp::backends::modular_params<mp::backends::cpp_int_modular_backend<B>> name = mk<B>("0x" S, sizeof(S) + 1);
PRIME(p3, 2, "3")
PRIME(p257, 9, "101")
PRIME(p61, 61, "1fffffffffffffff")
PRIME(pg, 64, "ffffffff00000001")
PRIME(p65, 65, "1000000000000000d")
PRIME(p128, 128, "ffffffffffffffffffffffffffffff61")
PRIME(p255, 255, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed")
PRIME(p256, 256, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
PRIME(p381, 381, "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
PRIME(p521, 521, "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")
int main(int argc, char **argv) {
    st += argc > 1 ? std::stoull(argv[1]) : 1;
    plain<8>(60); plain<31>(60); plain<64>(60); plain<65>(60); plain<128>(60); plain<255>(60); plain<256>(60); plain<381>(60); plain<762>(40);
    modular<2, p3>(60, true); modular<9, p257>(60, true); modular<61, p61>(60, true); modular<64, pg>(60, true); modular<65, p65>(60, true);
    modular<128, p128>(60, true); modular<255, p255>(60, true); modular<256, p256>(60, true); modular<381, p381>(60, true); modular<521, p521>(60, true);
}
