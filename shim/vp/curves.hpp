#pragma once

#include "fields.hpp"

namespace nil {
    namespace crypto3 {
        namespace algebra {
            namespace curves {
                namespace coordinates {
                    struct affine {};
                    struct projective {};
                    struct jacobian_with_a4_0 {};
                    struct extended_with_a_minus_1 {};
                    struct inverted {};
                }    // namespace coordinates
                namespace forms {
                    struct short_weierstrass {};
                    struct twisted_edwards {};
                    struct montgomery {};
                    struct edwards {};
                }    // namespace forms

                namespace detail {
                    // y^2 = x^3 + a x + b, with (0, 0) for the point at infinity
                    template<typename Params>
                    struct weierstrass_element {
                        using field_type = typename Params::field_type;
                        using field_value_type = typename field_type::value_type;
                        using params_type = Params;
                        using group_type = weierstrass_element;
                        field_value_type X, Y;

                        constexpr weierstrass_element() {}
                        constexpr weierstrass_element(const field_value_type &x, const field_value_type &y) : X(x), Y(y) {}
                        static constexpr weierstrass_element zero() {
                            return {};
                        }
                        static constexpr weierstrass_element one() {
                            return {Params::x(), Params::y()};
                        }
                        constexpr bool is_zero() const {
                            return X.is_zero() && Y.is_zero();
                        }
                        constexpr bool is_well_formed() const {
                            return is_zero() || Y * Y == X * X * X + Params::a() * X + Params::b();
                        }
                        constexpr weierstrass_element to_affine() const {
                            return *this;
                        }
                        constexpr weierstrass_element operator-() const {
                            return {X, -Y};
                        }
                        constexpr weierstrass_element doubled() const {
                            return *this + *this;
                        }
                        friend constexpr weierstrass_element operator+(const weierstrass_element &p,
                                                                       const weierstrass_element &q) {
                            if (p.is_zero()) {
                                return q;
                            }
                            if (q.is_zero()) {
                                return p;
                            }
                            field_value_type l;
                            if (p.X == q.X) {
                                if (p.Y != q.Y || p.Y.is_zero()) {
                                    return zero();
                                }
                                l = (p.X * p.X * field_value_type(3u) + Params::a()) / (p.Y + p.Y);
                            } else {
                                l = (q.Y - p.Y) / (q.X - p.X);
                            }
                            const field_value_type x = l * l - p.X - q.X;
                            return {x, l * (p.X - x) - p.Y};
                        }
                        friend constexpr weierstrass_element operator-(const weierstrass_element &p,
                                                                       const weierstrass_element &q) {
                            return p + (-q);
                        }
                        weierstrass_element &operator+=(const weierstrass_element &q) {
                            return *this = *this + q;
                        }
                        friend constexpr bool operator==(const weierstrass_element &p, const weierstrass_element &q) {
                            return p.X == q.X && p.Y == q.Y;
                        }
                        friend constexpr bool operator!=(const weierstrass_element &p, const weierstrass_element &q) {
                            return !(p == q);
                        }
                        friend std::ostream &operator<<(std::ostream &os, const weierstrass_element &p) {
                            return os << "(" << p.X << ", " << p.Y << ")";
                        }
                    };
                    // a x^2 + y^2 = 1 + d x^2 y^2
                    template<typename Params>
                    struct edwards_element {
                        using field_type = typename Params::field_type;
                        using field_value_type = typename field_type::value_type;
                        using params_type = Params;
                        using group_type = edwards_element;
                        field_value_type X, Y = field_value_type::one();

                        constexpr edwards_element() {}
                        constexpr edwards_element(const field_value_type &x, const field_value_type &y) : X(x), Y(y) {}
                        static constexpr edwards_element zero() {
                            return {};
                        }
                        static constexpr edwards_element one() {
                            return {Params::x(), Params::y()};
                        }
                        constexpr bool is_zero() const {
                            return X.is_zero() && Y.is_one();
                        }
                        constexpr bool is_well_formed() const {
                            return Params::a() * X * X + Y * Y == field_value_type::one() + Params::d() * X * X * Y * Y;
                        }
                        constexpr edwards_element to_affine() const {
                            return *this;
                        }
                        constexpr edwards_element operator-() const {
                            return {-X, Y};
                        }
                        constexpr edwards_element doubled() const {
                            return *this + *this;
                        }
                        friend constexpr edwards_element operator+(const edwards_element &p, const edwards_element &q) {
                            const field_value_type k = Params::d() * p.X * q.X * p.Y * q.Y, o = field_value_type::one();
                            return {(p.X * q.Y + p.Y * q.X) / (o + k), (p.Y * q.Y - Params::a() * p.X * q.X) / (o - k)};
                        }
                        friend constexpr edwards_element operator-(const edwards_element &p, const edwards_element &q) {
                            return p + (-q);
                        }
                        edwards_element &operator+=(const edwards_element &q) {
                            return *this = *this + q;
                        }
                        friend constexpr bool operator==(const edwards_element &p, const edwards_element &q) {
                            return p.X == q.X && p.Y == q.Y;
                        }
                        friend constexpr bool operator!=(const edwards_element &p, const edwards_element &q) {
                            return !(p == q);
                        }
                        friend std::ostream &operator<<(std::ostream &os, const edwards_element &p) {
                            return os << "(" << p.X << ", " << p.Y << ")";
                        }
                    };

                    template<typename Element, unsigned B>
                    constexpr Element multiply(const Element &p, const boost::multiprecision::vp_uint<B> &e) {
                        Element r = Element::zero();
                        for (unsigned i = e.backend().size_in_bits(); i > 0; i--) {
                            r = r + r;
                            if (e.backend().bit(i - 1)) {
                                r = r + p;
                            }
                        }
                        return r;
                    }
#define VP_MULTIPLY(ELEMENT)                                                                                          \
    template<typename P, unsigned B>                                                                                  \
    constexpr ELEMENT<P> operator*(const ELEMENT<P> &p, const boost::multiprecision::vp_uint<B> &e) {                 \
        return multiply(p, e);                                                                                        \
    }                                                                                                                 \
    template<typename P, unsigned B>                                                                                  \
    constexpr ELEMENT<P> operator*(const boost::multiprecision::vp_uint<B> &e, const ELEMENT<P> &p) {                 \
        return multiply(p, e);                                                                                        \
    }                                                                                                                 \
    template<typename P, typename F>                                                                                  \
    constexpr ELEMENT<P> operator*(const ELEMENT<P> &p, const fields::detail::element_fp<F> &e) {                     \
        return multiply(p, e.data.base());                                                                            \
    }                                                                                                                 \
    template<typename P, typename F>                                                                                  \
    constexpr ELEMENT<P> operator*(const fields::detail::element_fp<F> &e, const ELEMENT<P> &p) {                     \
        return multiply(p, e.data.base());                                                                            \
    }                                                                                                                 \
    template<typename P, typename T, typename = boost::multiprecision::vp::if_int<T>>                                 \
    constexpr ELEMENT<P> operator*(const ELEMENT<P> &p, T e) {                                                        \
        return multiply(p, boost::multiprecision::vp_uint<64>(e));                                                    \
    }                                                                                                                 \
    template<typename P, typename T, typename = boost::multiprecision::vp::if_int<T>>                                 \
    constexpr ELEMENT<P> operator*(T e, const ELEMENT<P> &p) {                                                        \
        return multiply(p, boost::multiprecision::vp_uint<64>(e));                                                    \
    }
                    VP_MULTIPLY(weierstrass_element)
                    VP_MULTIPLY(edwards_element)
#undef VP_MULTIPLY
                    template<typename Curve, typename Element>
                    struct vp_group {
                        using value_type = Element;
                        using field_type = typename Element::field_type;
                        using params_type = typename Element::params_type;
                        using curve_type = Curve;
                        using vp_is_group = void;
                    };
                }    // namespace detail

#define VP_HEX(N) boost::multiprecision::vp_uint<512>(N##_cppui_modular512)

#define VP_PASTA(NAME, X, Y)                                                                                          \
    struct NAME {                                                                                                     \
        using base_field_type = fields::NAME##_base_field;                                                            \
        using scalar_field_type = fields::NAME##_scalar_field;                                                        \
        struct params {                                                                                               \
            using field_type = base_field_type;                                                                       \
            using value_type = field_type::value_type;                                                                \
            static constexpr value_type a() {                                                                         \
                return 0u;                                                                                            \
            }                                                                                                         \
            static constexpr value_type b() {                                                                         \
                return 5u;                                                                                            \
            }                                                                                                         \
            static constexpr value_type x() {                                                                         \
                return X;                                                                                             \
            }                                                                                                         \
            static constexpr value_type y() {                                                                         \
                return Y;                                                                                             \
            }                                                                                                         \
        };                                                                                                            \
        template<typename = coordinates::affine, typename = forms::short_weierstrass>                                 \
        struct g1_type : detail::vp_group<NAME, detail::weierstrass_element<params>> {};                              \
    };
                VP_PASTA(pallas, -value_type(1u), value_type(2u))
                VP_PASTA(vesta, -value_type(1u), value_type(2u))

                struct ed25519 {
                    using base_field_type = fields::curve25519_base_field;
                    using scalar_field_type = fields::curve25519_scalar_field;
                    struct params {
                        using field_type = base_field_type;
                        using value_type = field_type::value_type;
                        static constexpr value_type a() {
                            return -value_type(1u);
                        }
                        static constexpr value_type d() {
                            return VP_HEX(0x52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3);
                        }
                        static constexpr value_type x() {
                            return VP_HEX(0x216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a);
                        }
                        static constexpr value_type y() {
                            return VP_HEX(0x6666666666666666666666666666666666666666666666666666666666666658);
                        }
                    };
                    template<typename = coordinates::affine, typename = forms::twisted_edwards>
                    struct g1_type : detail::vp_group<ed25519, detail::edwards_element<params>> {};
                };

                template<std::size_t Version = 254>
                struct alt_bn128 {
                    using base_field_type = fields::vp_alt_bn128_fq;
                    using scalar_field_type = fields::vp_alt_bn128_fr;
                };
                using alt_bn128_254 = alt_bn128<254>;
                template<std::size_t Version = 381>
                struct bls12 {
                    using base_field_type = fields::bls12_base_field<Version>;
                    using scalar_field_type = fields::bls12_scalar_field<Version>;
                };
                template<std::size_t Version = 254>
                using bn128 = alt_bn128<Version>;
            }    // namespace curves
        }    // namespace algebra

        namespace random {
            template<typename Curve, typename Element>
            class vp_group_engine {
                algebraic_engine<typename Curve::scalar_field_type> scalars;

            public:
                using result_type = Element;
                vp_group_engine() {}
                vp_group_engine(std::uint64_t s) : scalars(s) {}
                template<typename Source>
                void seed(Source &&s) {
                    scalars.seed(s);
                }
                Element operator()() {
                    return Element::one() * scalars();
                }
            };
        }    // namespace random
    }    // namespace crypto3
}    // namespace nil
