// C10: quadratic residues and square roots of the predefined prime fields, recorded.
#include "field_registry.hpp"
using vfreg::hex;
using vfreg::hexv;
__attribute__((noinline)) static void emit(const char *f, const char *op, const std::string &a, const std::string &r) {
    std::printf("T\t%s\t%s\t%s\t0\t%s\n", f, op, a.c_str(), r.c_str());
}
template<class V, class = void>
struct has_tonelli : std::false_type {};
template<class V>
struct has_tonelli<V, std::void_t<decltype(V::policy_type::s)>> : std::true_type {};
template<class F>
static void roots(const char *f, std::size_t n) {
    typedef typename F::value_type V;
    vf::rng g(vf::seed() * 151 + vf::hash(f));
    for (std::size_t i = 0; i < n; ++i) {
        const V a(vfreg::value<F>(g, i < 8 ? (int)i : 99)), s = a * a;
        vf::at(std::string(f) + " sqrt " + hexv(s));
        vf::arm(60);
        emit(f, "is_square", hexv(a), a.is_square() ? "1" : "0");
        emit(f, "is_square", hexv(s), s.is_square() ? "1" : "0");
        emit(f, "sqrt", hexv(s), hexv(s.sqrt()));
    }
    vf::arm(0);
}
VF_MAIN("c10_fp") {
#define X(name, ...) roots<fields::__VA_ARGS__>(name, vf::n(12, 20));
    FIELD_LIST(X)
}
