// Operations of the predefined curves, recorded and judged offline by lib/curve_oracle.py.
//   MODE 12 group law (C12, C13)   14 conversions   15 equality and validity   16 constants   17 scalar multiplication
#include "curve_registry.hpp"
#include <nil/crypto3/algebra/curves/detail/subgroup_check.hpp>

template<class I>
__attribute__((noinline)) static std::string hex(const I &n) {
    std::ostringstream o;
    o << std::hex << n;
    return o.str();
}
template<class V, class = void>
struct is_tower : std::false_type {};
template<class V>
struct is_tower<V, std::void_t<decltype(std::tuple_size<decltype(V::data)>::value)>> : std::true_type {};
template<class V>
static std::string flat(const V &v) {
    if constexpr (is_tower<V>::value) {
        std::string s;
        for (std::size_t i = 0; i < v.data.size(); ++i) {
            s += (i ? "," : "") + flat(v.data[i]);
        }
        return s;
    } else {
        return hex(typename V::integral_type(v.data));
    }
}
#define HAS(name, expr)                                                                                                                    \
    template<class V, class = void>                                                                                                        \
    struct name : std::false_type {};                                                                                                      \
    template<class V>                                                                                                                      \
    struct name<V, std::void_t<decltype(expr)>> : std::true_type {};
HAS(has_z, std::declval<const V &>().Z)
HAS(has_t, std::declval<const V &>().T)
HAS(has_mix, std::declval<V &>().mixed_add(std::declval<const V &>()))
HAS(has_sub_assign, std::declval<V &>() -= std::declval<const V &>())
HAS(has_to_projective, std::declval<const V &>().to_projective())
HAS(has_to_affine, std::declval<const V &>().to_affine())
HAS(has_to_inverted, std::declval<const V &>().to_inverted())
HAS(has_well_formed, std::declval<const V &>().is_well_formed())
HAS(has_to_montgomery, std::declval<const V &>().to_montgomery())
HAS(has_to_twisted, std::declval<const V &>().to_twisted_edwards())

template<class V>
static std::string show(const V &p) {
    if constexpr (has_t<V>::value) {
        return flat(p.X) + ";" + flat(p.Y) + ";" + flat(p.T) + ";" + flat(p.Z);
    } else if constexpr (has_z<V>::value) {
        return flat(p.X) + ";" + flat(p.Y) + ";" + flat(p.Z);
    } else {
        return p.is_zero() ? std::string("O") : flat(p.X) + ";" + flat(p.Y);
    }
}
#if GROUP == 15
// the element class of this group names neither its field nor its form
template<class V>
struct scaling {
    static V by(const V &p, const typename V::underlying_field_value_type &z) {
        return V(p.X * z, p.Y * z, p.Z * z);
    }
};
#else
template<class V, class C = typename V::coordinates, class F = typename V::form>
struct scaling {
    static V by(const V &p, const typename V::field_type::value_type &) {
        return p;
    }
};
template<class V, class F>
struct scaling<V, coords::projective, F> {
    static V by(const V &p, const typename V::field_type::value_type &z) {
        return V(p.X * z, p.Y * z, p.Z * z);
    }
};
template<class V, class F>
struct scaling<V, coords::projective_with_a4_minus_3, F> : scaling<V, coords::projective, F> {};
template<class V, class F>
struct scaling<V, coords::inverted, F> : scaling<V, coords::projective, F> {};
template<class V, class F>
struct scaling<V, coords::jacobian, F> {
    static V by(const V &p, const typename V::field_type::value_type &z) {
        return V(p.X * z * z, p.Y * z * z * z, p.Z * z);
    }
};
template<class V, class F>
struct scaling<V, coords::jacobian_with_a4_0, F> : scaling<V, coords::jacobian, F> {};
template<class V, class F>
struct scaling<V, coords::jacobian_with_a4_minus_3, F> : scaling<V, coords::jacobian, F> {};
template<class V, class F>
struct scaling<V, coords::extended_with_a_minus_1, F> {
    static V by(const V &p, const typename V::field_type::value_type &z) {
        return V(p.X * z, p.Y * z, p.T * z, p.Z * z);
    }
};
#endif
__attribute__((noinline)) static void emit(const char *curve, const char *c, const char *op, const std::string &a, const std::string &b, const std::string &r) {
    std::printf("T\t%s\t%s\t%s\t%s\t%s\t%s\n", curve, c, op, a.c_str(), b.c_str(), r.c_str());
}
template<class E>
static void element_draw(vf::rng &g, E &r) {
    if constexpr (is_tower<E>::value) {
        for (std::size_t i = 0; i < r.data.size(); ++i) {
            element_draw(g, r.data[i]);
        }
    } else {
        const E t(g() >> 1);
        r = E::one();
        for (int i = 0; i < 3; ++i) {
            r = r * t + E(g() >> 1);
        }
    }
}
template<class F>
static typename F::value_type field_draw(vf::rng &g) {
    typename F::value_type r;
    element_draw(g, r);
    return r;
}
template<class SF>
static typename SF::integral_type scalar_draw(vf::rng &g) {
    typename SF::integral_type r(0u);
    for (std::size_t i = 0; i + 32 < SF::modulus_bits; i += 32) {
        r = (r << 32) + (unsigned)g();
    }
    return r;
}

// a curve coefficient is an integer or a field element
template<class T>
static std::string constant(const T &v) {
    return flat(v);
}
template<class Bk, boost::multiprecision::expression_template_option ET>
static std::string constant(const boost::multiprecision::number<Bk, ET> &v) {
    return hex(v);
}
// the detectors above instantiate bodies with deduced return types, which needs the other model's parameters
#if GROUP == 14 || GROUP == 15
#define HAS_MONTGOMERY(V) (sizeof(V) == 0)
#else
#define HAS_MONTGOMERY(V) has_to_montgomery<V>::value
#endif
#if GROUP == 11 || GROUP == 12 || GROUP == 13
#define BIRATIONAL has_to_montgomery<V>::value
#else
#define BIRATIONAL !has_to_affine<V>::value
#endif
#if GROUP == 11 || GROUP == 12
#define EXT_OF(c) has_to_montgomery<V>::value
#else
#define EXT_OF(c) !has_to_affine<V>::value
#endif
template<class G>
static void record(const char *curve, const char *c) {
    typedef typename G::value_type V;
    typedef typename G::params_type Params;
    typedef typename G::field_type F;
    typedef typename F::value_type E;
    typedef typename Params::scalar_field_type SF;
    typedef typename SF::value_type S;
    typedef typename SF::integral_type I;
    const std::string label = std::string(curve) + " " + c;
    vf::rng g(vf::seed() * 29 + vf::hash(MODE == 17 ? curve : label) + MODE);    // MODE 17: the same multiples in every coordinate system
    vf::at(label);
    vf::arm(60);
#if MODE == 12 || MODE == 14 || MODE == 15
    std::vector<V> pts {V::zero(), V::one()};
    for (std::size_t i = 0; i < vf::n(2, 8); ++i) {
        pts.push_back(V::one() * scalar_draw<SF>(g));
    }
#endif
#if MODE == 12
    pts.push_back(-pts[2]);
    pts.push_back(scaling<V>::by(pts[2], field_draw<F>(g)));
    pts.push_back(scaling<V>::by(pts[1], field_draw<F>(g)));
#if GROUP == 15
    pts.push_back(pts[3].to_projective());
#endif
    for (const V &p : pts) {
        vf::at(label + " " + show(p));
        emit(curve, c, "neg", show(p), "", show(-p));
        V d = p;
        d.double_inplace();
        emit(curve, c, "dbl", show(p), "", show(d));
        for (const V &q : pts) {
            vf::at(label + " " + show(p) + " and " + show(q));
            emit(curve, c, "add", show(p), show(q), show(p + q));
            emit(curve, c, "sub", show(p), show(q), show(p - q));
            V t = p;
            t += q;
            emit(curve, c, "add", show(p), show(q), show(t));
            if constexpr (has_sub_assign<V>::value) {
                V u = p;
                u -= q;
                emit(curve, c, "sub", show(p), show(q), show(u));
            }
            if constexpr (has_mix<V>::value) {
                if (q.Z.is_one() || q.is_zero()) {
                    V u = p;
                    u.mixed_add(q);
                    emit(curve, c, "add", show(p), show(q), show(u));
                }
            }
        }
    }
#elif MODE == 14
    pts.push_back(scaling<V>::by(pts[2], field_draw<F>(g)));
    for (const V &p : pts) {
        vf::at(label + " converting " + show(p));
#if GROUP == 15
        const V affine = p.to_affine(), normal = p.to_projective();
        emit(curve, c, "same:affine", show(p), flat(affine.X) + ";" + flat(affine.Y), "");
        emit(curve, c, "same:inverted", show(p), show(normal), "");
        emit(curve, c, "normal", show(p), flat(affine.Z), flat(normal.Z));
        if (!p.is_zero()) {
            // a pair (X, Y) stands for the point (X : Y : XY)
            const V pair(affine.Y, affine.X);
            emit(curve, c, "same:inverted", show(p), show(pair), "");
        }
    }
    for (const V &p : std::vector<V>()) {
#endif
        if constexpr (has_to_affine<V>::value) {
            auto a = p.to_affine();
            emit(curve, c, "same:affine", show(p), show(a), a.is_zero() ? "O" : "");
        }
        if constexpr (has_to_projective<V>::value) {
            auto a = p.to_projective();
            emit(curve, c, "same:projective", show(p), show(a), "");
        }
        if constexpr (has_to_inverted<V>::value) {
            auto a = p.to_inverted();
            emit(curve, c, "same:inverted", show(p), show(a), "");
            emit(curve, c, "same:affine", show(p), show(a.to_affine()), "");
        }
        if constexpr (HAS_MONTGOMERY(V)) {
            if constexpr (EXT_OF(curve)) {
                auto a = p.to_extended_with_a_minus_1();
                emit(curve, c, "same:extended", show(p), show(a), "");
            }
            if constexpr (BIRATIONAL) {
                auto m = p.to_montgomery();
                emit(curve, c, "to_montgomery", show(p), show(m), show(m.to_twisted_edwards()));
                for (const V &q : pts) {
                    emit(curve, c, "montgomery_sum", show(m), show(q.to_montgomery()), show((p + q).to_montgomery()));
                }
            }
        }
        if constexpr (has_to_twisted<V>::value) {
            auto e = p.to_twisted_edwards();
            emit(curve, c, "to_twisted", show(p), show(e), show(e.to_montgomery()));
        }
    }
#elif MODE == 15
    const std::size_t n = pts.size();
    for (std::size_t i = 0; i < n; ++i) {
        pts.push_back(scaling<V>::by(pts[i], field_draw<F>(g)));
    }
    for (const V &p : pts) {
        for (const V &q : pts) {
            emit(curve, c, "eq", show(p), show(q), p == q ? "1" : "0");
            emit(curve, c, "ne", show(p), show(q), p != q ? "1" : "0");
        }
        emit(curve, c, "is_zero", show(p), "", p.is_zero() ? "1" : "0");
        if constexpr (has_well_formed<V>::value) {
            emit(curve, c, "is_well_formed", show(p), "", p.is_well_formed() ? "1" : "0");
            for (int i = 0; i < 6; ++i) {
                V q = p;
                const E d = i < 3 ? E::one() : field_draw<F>(g);
                switch (i % 3) {
                    case 0: q.X += d; break;
                    case 1: q.Y += d; break;
                    case 2:
                        if constexpr (has_t<V>::value) {
                            q.T += d;
                        } else if constexpr (has_z<V>::value) {
                            q.Z += d;
                        } else {
                            q.Y = q.Y.doubled();
                        }
                        break;
                }
                emit(curve, c, "is_well_formed", show(q), "", q.is_well_formed() ? "1" : "0");
            }
        }
    }
#elif MODE == 16
    emit(curve, c, "zero", "", "", show(V::zero()));
    emit(curve, c, "zero_is_zero", "", "", V::zero().is_zero() ? "1" : "0");
    emit(curve, c, "default", "", "", show(V()));
    emit(curve, c, "one", "", "", show(V::one()));
    emit(curve, c, "scalar_modulus", "", "", hex(SF::modulus));
    const V z = V::zero(), o = V::one();
    emit(curve, c, "add", show(o), show(z), show(o + z));
    emit(curve, c, "add", show(z), show(o), show(z + o));
    emit(curve, c, "add", show(z), show(z), show(z + z));
    emit(curve, c, "mul", show(o), hex(SF::modulus), show(o * SF::modulus));
    if constexpr (has_well_formed<V>::value) {
        emit(curve, c, "is_well_formed", show(o), "", o.is_well_formed() ? "1" : "0");
        emit(curve, c, "is_well_formed", show(z), "", z.is_well_formed() ? "1" : "0");
    }
#if GROUP == 15
    std::printf("T\t%s\t%s\tcoefficients\t%s\t%s\t\n", curve, c, flat(V::mul_by_a(F::value_type::one())).c_str(), flat(V::mul_by_d(F::value_type::one())).c_str());
#else
    if constexpr (std::is_same<typename V::form, forms::short_weierstrass>::value) {
        std::printf("T\t%s\t%s\tcoefficients\t%s\t%s\t\n", curve, c, constant(Params::a).c_str(), constant(Params::b).c_str());
    } else if constexpr (std::is_same<typename V::form, forms::twisted_edwards>::value) {
        std::printf("T\t%s\t%s\tcoefficients\t%s\t%s\t\n", curve, c, constant(Params::a).c_str(), constant(Params::d).c_str());
    } else {
        std::printf("T\t%s\t%s\tcoefficients\t%s\t%s\t\n", curve, c, constant(Params::A).c_str(), constant(Params::B).c_str());
    }
#endif
#elif MODE == 17
    std::vector<V> pts {V::zero(), V::one(), scaling<V>::by(V::one(), field_draw<F>(g)), V::one() + V::one()};
    pts.push_back(V::one() * scalar_draw<SF>(g));
    std::vector<I> ks {I(0u), I(1u), I(2u), I(3u), SF::modulus - I(1u), SF::modulus - I(2u), (SF::modulus - I(1u)) >> 1};
    for (std::size_t i = 0; i < vf::n(2, 12); ++i) {
        ks.push_back(scalar_draw<SF>(g));
        ks.push_back(scalar_draw<SF>(g) >> (unsigned)g.below(SF::modulus_bits));
    }
    for (std::size_t i = 0; i < pts.size(); ++i) {
        const V &p = pts[i];
        for (std::size_t j = 0; j < ks.size(); ++j) {
            if (!vf::thorough() && (SF::modulus_bits > 300 ? j % 5 != i : i != 1 && j % 3 != i % 3)) {
                continue;
            }
            const I &k = ks[j];
            const S s(k);
            vf::at(label + " " + show(p) + " times " + hex(k));
            emit(curve, c, "mul", show(p), hex(k), show(p * s));
            switch (vf::thorough() ? 9 : (i + j) % 4) {
                case 9:
                case 0: emit(curve, c, "mul", show(p), hex(k), show(s * p)); if (!vf::thorough()) break;
                case 1: emit(curve, c, "mul", show(p), hex(k), show(p * k)); if (!vf::thorough()) break;
                case 2: emit(curve, c, "mul", show(p), hex(k), show(k * p)); if (!vf::thorough()) break;
                case 3: {
                    V q = p;
#if GROUP == 15
                    i % 2 ? q *= s : q *= k;
#else
                    curves::detail::operator*=(q, s);
#endif
                    emit(curve, c, "mul", show(p), hex(k), show(q));
                }
            }
        }
        for (std::size_t k : {std::size_t(0), std::size_t(1), std::size_t(7), std::size_t(0xfffffffffffull)}) {
            if (i < 2) {
                emit(curve, c, "mul", show(p), hex(k), show(p * k));
                emit(curve, c, "mul", show(p), hex(k), show(k * p));
            }
        }
        emit(curve, c, "mul", show(p), hex(SF::modulus), show(p * SF::modulus));
    }
#if GROUP == 15
    for (const I &k : ks) {
        V q;
        q = k;
        emit(curve, c, "mul", show(V::one()), hex(k), show(q));
        emit(curve, c, "mul", show(V::one()), hex(k), show(V(k)));
    }
#endif
#endif
    vf::arm(0);
}
VF_MAIN("curve_trace") {
#define X(n, c, ...) record<__VA_ARGS__>(n, c);
    CURVE_LIST(X)
}
