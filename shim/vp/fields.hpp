#pragma once

#include <cassert>
#include <cstdlib>
#include <random>
#include <stdexcept>

#include "number.hpp"

namespace boost {
    namespace random {
        class random_device;
    }
}

namespace nil {
    namespace crypto3 {
        namespace multiprecision = boost::multiprecision;

        namespace algebra {
            namespace fields {
                namespace detail {
                    template<typename FieldType>
                    class element_fp {
                    public:
                        using field_type = FieldType;
                        using integral_type = typename FieldType::integral_type;
                        using modular_type = typename FieldType::modular_type;
                        using underlying_type = element_fp;
                        static constexpr integral_type modulus = FieldType::modulus;

                        modular_type data;

                        constexpr element_fp() = default;
                        constexpr element_fp(const modular_type &x) : data(x) {}
                        template<typename T, typename = boost::multiprecision::vp::if_int<T>>
                        constexpr element_fp(T x) : data(x) {}
                        template<unsigned B>
                        constexpr element_fp(const boost::multiprecision::vp_uint<B> &x) : data(x) {}
                        template<std::size_t Min, std::size_t Max, boost::multiprecision::cpp_integer_type S,
                                 boost::multiprecision::cpp_int_check_type C, typename A,
                                 boost::multiprecision::expression_template_option E>
                        explicit element_fp(
                            const boost::multiprecision::number<
                                boost::multiprecision::cpp_int_backend<Min, Max, S, C, A>, E> &x)
                            : data(x) {}

                        static constexpr element_fp zero() {
                            return element_fp();
                        }
                        static constexpr element_fp one() {
                            return element_fp(1u);
                        }
                        constexpr bool is_zero() const {
                            return data.is_zero();
                        }
                        constexpr bool is_one() const {
                            return data == modular_type(1u);
                        }
                        constexpr element_fp operator-() const {
                            return element_fp(-data);
                        }
                        constexpr element_fp &operator+=(const element_fp &o) {
                            data += o.data;
                            return *this;
                        }
                        constexpr element_fp &operator-=(const element_fp &o) {
                            data -= o.data;
                            return *this;
                        }
                        constexpr element_fp &operator*=(const element_fp &o) {
                            data *= o.data;
                            return *this;
                        }
                        constexpr element_fp &operator/=(const element_fp &o) {
                            return *this *= o.inversed();
                        }
                        friend constexpr element_fp operator+(element_fp a, const element_fp &b) {
                            return a += b;
                        }
                        friend constexpr element_fp operator-(element_fp a, const element_fp &b) {
                            return a -= b;
                        }
                        friend constexpr element_fp operator*(element_fp a, const element_fp &b) {
                            return a *= b;
                        }
                        friend constexpr element_fp operator/(element_fp a, const element_fp &b) {
                            return a /= b;
                        }
                        constexpr element_fp &operator++() {
                            ++data;
                            return *this;
                        }
                        constexpr element_fp operator++(int) {
                            element_fp r = *this;
                            ++data;
                            return r;
                        }
                        constexpr element_fp &operator--() {
                            --data;
                            return *this;
                        }
                        constexpr element_fp operator--(int) {
                            element_fp r = *this;
                            --data;
                            return r;
                        }
                        friend constexpr bool operator==(const element_fp &a, const element_fp &b) {
                            return a.data == b.data;
                        }
                        friend constexpr bool operator!=(const element_fp &a, const element_fp &b) {
                            return a.data != b.data;
                        }
                        friend constexpr bool operator<(const element_fp &a, const element_fp &b) {
                            return a.data < b.data;
                        }
                        friend constexpr bool operator>(const element_fp &a, const element_fp &b) {
                            return a.data > b.data;
                        }
                        friend constexpr bool operator<=(const element_fp &a, const element_fp &b) {
                            return a.data <= b.data;
                        }
                        friend constexpr bool operator>=(const element_fp &a, const element_fp &b) {
                            return a.data >= b.data;
                        }
                        constexpr element_fp doubled() const {
                            return *this + *this;
                        }
                        constexpr element_fp squared() const {
                            return *this * *this;
                        }

                        template<unsigned B>
                        constexpr element_fp pow(const boost::multiprecision::vp_uint<B> &e) const {
                            element_fp r = one();
                            for (unsigned i = e.backend().size_in_bits(); i > 0; i--) {
                                r *= r;
                                if (e.backend().bit(i - 1)) {
                                    r *= *this;
                                }
                            }
                            return r;
                        }
                        template<typename T, typename = boost::multiprecision::vp::if_int<T>>
                        constexpr element_fp pow(T e) const {
                            return pow(boost::multiprecision::vp_uint<64>(e));
                        }
                        template<typename B, typename P>
                        constexpr element_fp pow(const boost::multiprecision::number<
                                                 boost::multiprecision::backends::modular_adaptor<B, P>,
                                                 boost::multiprecision::vp_et> &e) const {
                            return pow(e.base());
                        }

                        // Zero for zero.
                        constexpr element_fp inversed() const {
                            return pow(integral_type(modulus - 2u));
                        }
                        constexpr bool is_square() const {
                            return is_zero() || pow(integral_type((modulus - 1u) >> 1)) == one();
                        }
                        // Tonelli-Shanks
                        constexpr element_fp sqrt() const {
                            if (is_zero()) {
                                return zero();
                            }
                            integral_type q = modulus - 1u;
                            unsigned s = 0;
                            while (!q.backend().bit(0)) {
                                q >>= 1;
                                s++;
                            }
                            element_fp z(2u);
                            while (z.is_square()) {
                                z += one();
                            }
                            element_fp c = z.pow(q), t = pow(q), r = pow(integral_type((q + 1u) >> 1));
                            unsigned m = s;
                            while (t != one()) {
                                unsigned i = 0;
                                for (element_fp x = t; x != one(); x = x.squared()) {
                                    if (++i == m) {
                                        throw std::domain_error("no square root");
                                    }
                                }
                                element_fp b = c;
                                for (unsigned j = 0; j + i + 1 < m; j++) {
                                    b = b.squared();
                                }
                                m = i;
                                c = b.squared();
                                t *= c;
                                r *= b;
                            }
                            return r;
                        }
                        constexpr element_fp square_root() const {
                            return sqrt();
                        }
                        friend std::ostream &operator<<(std::ostream &os, const element_fp &x) {
                            return os << x.data;
                        }
                    };
                    template<typename FieldType>
                    constexpr typename FieldType::integral_type element_fp<FieldType>::modulus;

                    template<typename FieldType>
                    inline std::size_t hash_value(const element_fp<FieldType> &x) {
                        return std::hash<typename FieldType::integral_type>()(x.data.base());
                    }

                    template<typename FieldType, typename Backend>
                    struct field_modulus {
                        static constexpr Backend modulus() {
                            return FieldType::modulus_value().backend();
                        }
                    };
                }    // namespace detail

#define VP_FIELD(NAME, BITS, MODULUS, GENERATOR, ROOT_ORDER)                                                            \
    struct NAME##_numbers {                                                                                             \
        static constexpr boost::multiprecision::vp_uint<BITS> modulus_value() {                                         \
            return boost::multiprecision::vp_uint<BITS>(MODULUS##_cppui_modular512);                                    \
        }                                                                                                               \
    };                                                                                                                  \
    struct NAME {                                                                                                       \
        static constexpr std::size_t modulus_bits = BITS, number_bits = BITS, value_bits = BITS, arity = 1,             \
                                     capacity = BITS - 1, two_adicity = ROOT_ORDER;                                     \
        using integral_type = boost::multiprecision::vp_uint<BITS>;                                                     \
        using extended_integral_type = boost::multiprecision::vp_uint<2 * BITS>;                                        \
        using modular_backend = boost::multiprecision::backends::cpp_int_modular_backend<BITS>;                         \
        using modular_type = boost::multiprecision::number<boost::multiprecision::backends::modular_adaptor<            \
            modular_backend, detail::field_modulus<NAME##_numbers, modular_backend>>>;                                  \
        static constexpr integral_type modulus = NAME##_numbers::modulus_value();                                       \
        static constexpr unsigned generator = GENERATOR;                                                                \
        using value_type = detail::element_fp<NAME>;                                                                    \
        using small_subgroup = value_type;                                                                              \
    };                                                                                                                  \
    inline constexpr NAME::integral_type NAME##_modulus_definition = NAME::modulus;

                VP_FIELD(pallas_base_field, 255, 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001, 5, 32)
                VP_FIELD(vesta_base_field, 255, 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001, 5, 32)
                using pallas_fq = pallas_base_field;
                using vesta_fq = vesta_base_field;
                using pallas_scalar_field = vesta_base_field;
                using vesta_scalar_field = pallas_base_field;
                VP_FIELD(curve25519_base_field, 255, 0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed, 2, 2)
                VP_FIELD(curve25519_scalar_field, 253, 0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed, 2, 2)
                VP_FIELD(vp_bls12_381_fq, 381, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab, 2, 1)
                VP_FIELD(vp_bls12_381_fr, 255, 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001, 7, 32)
                VP_FIELD(vp_bls12_377_fq, 377, 0x1ae3a4617c510eac63b05c06ca1493b1a22d9f300f5138f1ef3622fba094800170b5d44300000008508c00000000001, 15, 46)
                VP_FIELD(vp_bls12_377_fr, 253, 0x12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001, 22, 47)
                VP_FIELD(vp_alt_bn128_fq, 254, 0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47, 3, 1)
                VP_FIELD(vp_alt_bn128_fr, 254, 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001, 5, 28)
                VP_FIELD(goldilocks64_base_field, 64, 0xffffffff00000001, 7, 32)
                // a field small enough for complete enumeration
                VP_FIELD(vp_tiny_field, 64, 0x3001, 11, 12)

                using goldilocks64 = goldilocks64_base_field;

                template<std::size_t Version>
                struct vp_bls12;
                template<>
                struct vp_bls12<381> {
                    using fq = vp_bls12_381_fq;
                    using fr = vp_bls12_381_fr;
                };
                template<>
                struct vp_bls12<377> {
                    using fq = vp_bls12_377_fq;
                    using fr = vp_bls12_377_fr;
                };
                template<std::size_t Version = 381>
                using bls12_base_field = typename vp_bls12<Version>::fq;
                template<std::size_t Version = 381>
                using bls12_fq = typename vp_bls12<Version>::fq;
                template<std::size_t Version = 381>
                using bls12_scalar_field = typename vp_bls12<Version>::fr;
                template<std::size_t Version = 381>
                using bls12_fr = typename vp_bls12<Version>::fr;
                template<std::size_t Version = 254>
                using alt_bn128_base_field = vp_alt_bn128_fq;
                template<std::size_t Version = 254>
                using alt_bn128_scalar_field = vp_alt_bn128_fr;

                template<typename FieldType>
                struct arithmetic_params : public FieldType {
                    static constexpr typename FieldType::value_type multiplicative_generator =
                        typename FieldType::value_type(FieldType::generator);
                    static constexpr std::size_t s = FieldType::two_adicity;
                    static constexpr std::size_t two_adicity = FieldType::two_adicity;
                };
            }    // namespace fields
        }    // namespace algebra

        namespace random {
            template<typename Curve, typename Element>
            class vp_group_engine;

            // Deterministic: seeded from VERIF_SEED.
            template<typename FieldType, typename = void>
            class vp_engine {
                std::mt19937_64 engine;

                static std::uint64_t default_seed() {
                    const char *s = std::getenv("VERIF_SEED");
                    return s ? std::strtoull(s, nullptr, 10) : 0;
                }

            public:
                using result_type = typename FieldType::value_type;
                vp_engine() : engine(default_seed()) {}
                template<typename Device>
                explicit vp_engine(Device &) : engine(default_seed()) {}
                vp_engine(std::uint64_t s) : engine(s) {}
                void seed(std::uint64_t s = 0) {
                    engine.seed(s);
                }
                template<typename Source, typename = decltype(std::declval<Source &>()())>
                void seed(Source &s) {
                    engine.seed(s());
                }
                result_type operator()() {
                    typename FieldType::extended_integral_type x;
                    for (auto &l : x.backend().l) {
                        l = engine();
                    }
                    x.backend().normalize();
                    return result_type(x);
                }
                result_type min() const {
                    return result_type::zero();
                }
                result_type max() const {
                    return -result_type::one();
                }
            };
            // groups, see curves.hpp
            template<typename GroupType>
            class vp_engine<GroupType, typename GroupType::vp_is_group>
                : public vp_group_engine<typename GroupType::curve_type, typename GroupType::value_type> {
            public:
                using vp_group_engine<typename GroupType::curve_type, typename GroupType::value_type>::vp_group_engine;
                vp_engine() {}
                template<typename Device>
                explicit vp_engine(Device &) {}
            };
            template<typename T>
            class algebraic_engine : public vp_engine<T> {
            public:
                using vp_engine<T>::vp_engine;
                algebraic_engine() {}
            };
        }    // namespace random

        namespace algebra {
            template<typename FieldType>
            typename FieldType::value_type random_element() {
                static random::algebraic_engine<FieldType> engine;
                return engine();
            }
        }    // namespace algebra

        namespace math {
            template<typename FieldType>
            typename FieldType::value_type unity_root(std::size_t n) {
                typename FieldType::integral_type e = (FieldType::modulus - 1u) / typename FieldType::integral_type(n);
                return typename FieldType::value_type(FieldType::generator).pow(e);
            }
        }    // namespace math
    }    // namespace crypto3
}    // namespace nil

namespace std {
    template<typename FieldType>
    struct hash<nil::crypto3::algebra::fields::detail::element_fp<FieldType>> {
        size_t operator()(const nil::crypto3::algebra::fields::detail::element_fp<FieldType> &x) const {
            return hash<typename FieldType::integral_type>()(x.data.base());
        }
    };
}    // namespace std
