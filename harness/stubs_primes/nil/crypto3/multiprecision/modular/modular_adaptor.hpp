// stand-in for residues with a run-time modulus; gcd is the generator of the ideal of Z/n, a divisor of n (n for 0)
#ifndef VERIF_STUB_MODULAR_ADAPTOR
#define VERIF_STUB_MODULAR_ADAPTOR
#include <random>
#include <vector>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/random/independent_bits.hpp>
namespace boost {
    namespace multiprecision {
        namespace backends {
            template<class B>
            struct modular_params_rt {};
            template<class B, class S>
            struct modular_adaptor {};
        }    // namespace backends
        template<class B, class S>
        struct number_category<backends::modular_adaptor<B, S>> : std::integral_constant<int, number_kind_integer> {};
        template<class B, expression_template_option E>
        class number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, E> {
        public:
            typedef boost::multiprecision::number<B, E> plain;
            plain v, n;
            number() {}
            number(const plain &a, const plain &m) : v(a % m), n(m) {}
            friend number operator*(number &&a, const number &b) {
                return static_cast<const number &>(a) * b;
            }
            friend number operator*(const number &a, number &&b) {
                return a * static_cast<const number &>(b);
            }
            friend number operator*(number &&a, number &&b) {
                return static_cast<const number &>(a) * static_cast<const number &>(b);
            }
            friend number operator*(const number &a, const number &b) {
                cpp_int t = cpp_int(a.v) * cpp_int(b.v) % cpp_int(a.n);
                return number(plain(t), a.n);
            }
            friend number operator+(number &&a, const number &b) {
                return static_cast<const number &>(a) + b;
            }
            friend number operator+(const number &a, number &&b) {
                return a + static_cast<const number &>(b);
            }
            friend number operator+(number &&a, number &&b) {
                return static_cast<const number &>(a) + static_cast<const number &>(b);
            }
            friend number operator+(const number &a, const number &b) {
                cpp_int t = (cpp_int(a.v) + cpp_int(b.v)) % cpp_int(a.n);
                return number(plain(t), a.n);
            }
            friend number operator-(number &&a, const number &b) {
                return static_cast<const number &>(a) - b;
            }
            friend number operator-(const number &a, number &&b) {
                return a - static_cast<const number &>(b);
            }
            friend number operator-(number &&a, number &&b) {
                return static_cast<const number &>(a) - static_cast<const number &>(b);
            }
            friend number operator-(const number &a, const number &b) {
                cpp_int t = (cpp_int(a.v) + cpp_int(a.n) - cpp_int(b.v)) % cpp_int(a.n);
                return number(plain(t), a.n);
            }
            friend bool operator>(const number &a, const number &b) {
                return a.v > b.v;
            }
            friend bool operator==(const number &a, const number &b) {
                return a.v == b.v;
            }
            template<class I, class = std::enable_if_t<std::is_integral<I>::value>>
            friend bool operator==(const number &a, I b) {
                return a.v == b;
            }
            friend bool operator!=(const number &a, const number &b) {
                return !(a == b);
            }
            explicit operator int() const {
                return static_cast<int>(v);
            }
            const B &backend() const {
                return v.backend();
            }
            template<class T>
            T convert_to() const {
                return static_cast<T>(v);
            }
        };
        template<class B, expression_template_option E>
        number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, E>
            residue_gcd(const number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, E> &a,
                const number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, E> &b) {
            number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, E> r;
            r.n = a.n;
            r.v = boost::multiprecision::gcd(boost::multiprecision::number<B, E>(boost::multiprecision::gcd(a.v, b.v)), a.n);
            return r;
        }
        template<class B>
        number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, et_on> gcd(const number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, et_on> &a, const number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, et_on> &b) {
            return residue_gcd(a, b);
        }
        template<class B>
        number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, et_on> gcd(number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, et_on> &&a, const number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, et_on> &b) {
            const number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, et_on> &c = a;
            return gcd(c, b);
        }
        template<class B>
        number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, et_off> gcd(const number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, et_off> &a, const number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, et_off> &b) {
            return residue_gcd(a, b);
        }
        template<class B>
        number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, et_off> gcd(number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, et_off> &&a, const number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, et_off> &b) {
            const number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, et_off> &c = a;
            return gcd(c, b);
        }
    }    // namespace multiprecision
}    // namespace boost
#endif
