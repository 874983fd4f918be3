// C07, exhaustive: the library's element_fp over tiny prime fields, every pair of elements, against integers mod P.
#include "vf.hpp"
#include "small_field.hpp"
using namespace vfield;
typedef unsigned long long u64;

struct obs {
    const char *op;
    u64 a, b, got, want;
};
__attribute__((noinline)) static void judge(u64 p, const obs &o) {
    vf::check(o.got == o.want, o.op, vf::key(p, o.a, o.b), o.a > 1 || o.b > 1, [&] { return vf::cat("mod", p, o.op, o.a, o.b, "gave", o.got, "expected", o.want); });
}

template<u64 P>
static void field_ops() {
    typedef typename small_field<P>::value_type V;
    typedef typename V::integral_type I;
    vf::at("F" + std::to_string(P));
    std::vector<V> el;
    for (u64 i = 0; i < P; ++i) {
        el.push_back(V(i));
    }
    judge(P, {"zero", 0, 0, canon(V::zero()), 0});
    judge(P, {"one", 0, 0, canon(V::one()), 1 % P});
    for (u64 i = 0; i < P; ++i) {
        judge(P, {"from_unsigned_long", i, 0, canon(V((unsigned long)i)), i});
        judge(P, {"from_unsigned", i, 0, canon(V((unsigned)i)), i});
        judge(P, {"from_int", i, 0, canon(V((int)i)), i});
        judge(P, {"from_bool", i % 2, 0, canon(V(i % 2 == 1)), i % 2});
        judge(P, {"from_integral", i, 0, canon(V(I(i))), i});
        for (u64 k : {1ull, 2ull, 17ull}) {    // not reduced yet
            judge(P, {"from_unreduced", i, k, canon(V(i + k * P)), i});
            judge(P, {"from_unreduced_wide", i, k, canon(V(boost::multiprecision::uint256_t(i) + boost::multiprecision::uint256_t(P) * k)), i});
        }
        V a = el[i];
        judge(P, {"is_zero", i, 0, a.is_zero(), i == 0});
        judge(P, {"is_one", i, 0, a.is_one(), i == 1});
        judge(P, {"neg", i, 0, canon(-a), (P - i) % P});
        judge(P, {"doubled", i, 0, canon(a.doubled()), 2 * i % P});
        judge(P, {"squared", i, 0, canon(a.squared()), i * i % P});
        if (i) {
            judge(P, {"inversed", i, 0, canon(a.inversed()), mpow(i, P - 2, P)});
        }
        judge(P, {"unchanged", i, 0, canon(a), i});
        {
            V t = a;
            V &r = ++t;
            judge(P, {"preinc", i, 0, canon(t), (i + 1) % P});
            judge(P, {"preinc_ref", i, 0, &r == &t, 1});
            t = a;
            judge(P, {"postinc_value", i, 0, canon(t++), i});
            judge(P, {"postinc_effect", i, 0, canon(t), (i + 1) % P});
            t = a;
            V &q = --t;
            judge(P, {"predec", i, 0, canon(t), (i + P - 1) % P});
            judge(P, {"predec_ref", i, 0, &q == &t, 1});
            t = a;
            judge(P, {"postdec_value", i, 0, canon(t--), i});
            judge(P, {"postdec_effect", i, 0, canon(t), (i + P - 1) % P});
            t = a;
            t += t;
            judge(P, {"add_assign_self", i, 0, canon(t), 2 * i % P});
            t = a;
            t -= t;
            judge(P, {"sub_assign_self", i, 0, canon(t), 0});
            t = a;
            t *= t;
            judge(P, {"mul_assign_self", i, 0, canon(t), i * i % P});
            t = a;
            t = *&t;
            judge(P, {"assign_self", i, 0, canon(t), i});
            V m = std::move(t);
            judge(P, {"move", i, 0, canon(m), i});
        }
        for (u64 e : {0ull, 1ull, 2ull, 3ull, 4ull, 7ull, 8ull, 63ull, 64ull, 65ull, P - 1, P, P + 1, 0xffffffffull, 0x8000000000000000ull, ~0ull}) {
            judge(P, {"pow_u64", i, e, canon(a.pow(e)), mpow(i, e, P)});
            judge(P, {"pow_mp", i, e, canon(a.pow(boost::multiprecision::uint256_t(e))), mpow(i, e, P)});
            judge(P, {"power", i, e, canon(fields::detail::power(a, boost::multiprecision::uint256_t(e))), mpow(i, e, P)});
            if (e < 64) {
                judge(P, {"pow_int", i, e, canon(a.pow((int)e)), mpow(i, e, P)});
                judge(P, {"pow_size_t", i, e, canon(a.pow((std::size_t)e)), mpow(i, e, P)});
            }
        }
        for (u64 j = 0; j < P; ++j) {
            const V b = el[j];
            judge(P, {"add", i, j, canon(a + b), (i + j) % P});
            judge(P, {"sub", i, j, canon(a - b), (i + P - j) % P});
            judge(P, {"mul", i, j, canon(a * b), i * j % P});
            judge(P, {"eq", i, j, a == b, i == j});
            judge(P, {"ne", i, j, a != b, i != j});
            judge(P, {"lt", i, j, a < b, i < j});
            judge(P, {"gt", i, j, a > b, i > j});
            judge(P, {"le", i, j, a <= b, i <= j});
            judge(P, {"ge", i, j, a >= b, i >= j});
            V t = a;
            V *r = &(t += b);
            judge(P, {"add_assign", i, j, canon(t), (i + j) % P});
            judge(P, {"add_assign_ref", i, j, r == &t, 1});
            t = a;
            r = &(t -= b);
            judge(P, {"sub_assign", i, j, canon(t), (i + P - j) % P});
            judge(P, {"sub_assign_ref", i, j, r == &t, 1});
            t = a;
            r = &(t *= b);
            judge(P, {"mul_assign", i, j, canon(t), i * j % P});
            judge(P, {"mul_assign_ref", i, j, r == &t, 1});
            t = a;
            r = &(t = b);
            judge(P, {"assign", i, j, canon(t), j});
            judge(P, {"assign_ref", i, j, r == &t, 1});
            judge(P, {"operand_kept", i, j, canon(b), j});
        }
    }
}
VF_MAIN("c07_small") {
#if PART == 0
    field_ops<3>();
    field_ops<5>();
    field_ops<7>();
    field_ops<31>();
#elif PART == 1
    field_ops<13>();
    field_ops<61>();
    field_ops<127>();
#else
    field_ops<17>();
    field_ops<97>();
    field_ops<257>();
#endif
    vf::sample("every pair of elements of each field");
}
