// C07: operations of the predefined prime fields, recorded and judged offline against integers mod p.
#include "field_registry.hpp"
using vfreg::hex;
using vfreg::hexv;
static void emit(const char *f, const char *op, const std::string &a, const std::string &b, const std::string &r) {
    std::printf("T\t%s\t%s\t%s\t%s\t%s\n", f, op, a.c_str(), b.c_str(), r.c_str());
}
static std::string flag(bool b) {
    return b ? "1" : "0";
}
template<class F>
static void field_ops(const char *f, std::size_t n) {
    typedef typename F::value_type V;
    typedef typename F::integral_type I;
    vf::rng g(vf::seed() * 1000003 + vf::hash(f));
    emit(f, "modulus", "0", "0", hex(F::modulus));
    emit(f, "modulus_bits", "0", "0", vf::str(F::modulus_bits));
    emit(f, "element_modulus", "0", "0", hex(V::modulus));
    emit(f, "zero", "0", "0", hexv(V::zero()));
    emit(f, "one", "0", "0", hexv(V::one()));
    emit(f, "default_assigned", "0", "0", [&] { V t; t = V::one(); return hexv(t); }());
    for (std::size_t i = 0; i < n; ++i) {
        I ia = vfreg::value<F>(g, i < 8 ? (int)i : 99), ib = vfreg::value<F>(g, i < 64 ? (int)(i / 8) : 99);
        if (i % 16 == 13) {
            ib = ia;
        } else if (i % 16 == 14) {
            ib = ia == 0u ? ia : I(F::modulus - ia);
        }
        const V a(ia), b(ib);
        std::string A = hex(ia), B = hex(ib);
        vf::at(std::string(f) + " " + A + " " + B);
        emit(f, "from_integral", A, "0", hexv(a));
        emit(f, "add", A, B, hexv(a + b));
        emit(f, "sub", A, B, hexv(a - b));
        emit(f, "mul", A, B, hexv(a * b));
        emit(f, "neg", A, "0", hexv(-a));
        emit(f, "dbl", A, "0", hexv(a.doubled()));
        emit(f, "sqr", A, "0", hexv(a.squared()));
        V t = a;
        t += b;
        emit(f, "add", A, B, hexv(t));
        t = a;
        t -= b;
        emit(f, "sub", A, B, hexv(t));
        t = a;
        t *= b;
        emit(f, "mul", A, B, hexv(t));
        t = a;
        t *= t;
        emit(f, "sqr", A, "0", hexv(t));
        t = a;
        t -= t;
        emit(f, "sub", A, A, hexv(t));
        t = a;
        emit(f, "inc", A, "0", hexv(++t));
        emit(f, "keep_inc", A, "0", hexv(t++));
        t = a;
        emit(f, "dec", A, "0", hexv(--t));
        emit(f, "eq", A, B, flag(a == b));
        emit(f, "ne", A, B, flag(a != b));
        emit(f, "lt", A, B, flag(a < b));
        emit(f, "ge", A, B, flag(a >= b));
        emit(f, "gt", A, B, flag(a > b));
        emit(f, "le", A, B, flag(a <= b));
        emit(f, "is_zero", A, "0", flag(a.is_zero()));
        emit(f, "is_one", A, "0", flag(a.is_one()));
        if (!a.is_zero() && i % 2 == 0) {
            emit(f, "inv", A, "0", hexv(a.inversed()));
        }
        if (i % 4 == 0) {
            emit(f, "pow", A, B, hexv(a.pow(ib)));
            emit(f, "pow", A, B, hexv(fields::detail::power(a, ib)));
            std::uint64_t e = g() >> g.below(64);
            emit(f, "pow", A, hex(boost::multiprecision::uint128_t(e)), hexv(a.pow(e)));
        }
        {
            std::uint64_t e = g();
            emit(f, "from_u64", hex(boost::multiprecision::uint128_t(e)), "0", hexv(V(e)));
            boost::multiprecision::uint512_t w(e);
            w <<= 300;
            w |= boost::multiprecision::uint512_t(g());
            emit(f, "from_u64", hex(w), "0", hexv(V(w)));
        }
        emit(f, "from_integral", A, "0", hexv(a));
        emit(f, "from_integral", B, "0", hexv(b));
        vf::count("pairs");
    }
}
VF_MAIN("c07_trace") {
#define X(ID, TY) field_ops<fields::TY>(ID, vf::n(fields::TY::modulus_bits > 600 ? 24 : 160, fields::TY::modulus_bits > 600 ? 120 : 1500));
    FIELD_LIST(X)
#undef X
}
