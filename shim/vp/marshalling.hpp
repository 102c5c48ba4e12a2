#pragma once

#include <algorithm>
#include <array>
#include <vector>

#include "fields.hpp"

namespace nil {
    namespace marshalling {
        enum class status_type { success, update_op, not_enough_data, invalid_msg_data, error_amount };

        namespace option {
            struct big_endian {};
            struct little_endian {};
        }    // namespace option
        using endianness_big = option::big_endian;
        template<typename Endianness>
        struct field_type {};

        namespace vp {
            // the bits of a number, most significant first
            struct bits {
                std::vector<bool> msb_first;

                operator std::vector<bool>() const {
                    return msb_first;
                }
                template<std::size_t N>
                operator std::array<bool, N>() const {
                    std::array<bool, N> r {};
                    for (std::size_t i = 0; i < N && i < msb_first.size(); i++) {
                        r[N - 1 - i] = msb_first[msb_first.size() - 1 - i];
                    }
                    return r;
                }
            };
        }    // namespace vp

        template<typename Endianness, unsigned Bits>
        vp::bits pack(const boost::multiprecision::vp_uint<Bits> &x, status_type &status) {
            static_assert(std::is_same<Endianness, option::big_endian>::value, "only big endian");
            vp::bits r;
            for (std::size_t i = Bits; i > 0; i--) {
                r.msb_first.push_back(x.backend().bit(i - 1));
            }
            status = status_type::success;
            return r;
        }
        template<typename Endianness, typename FieldType>
        vp::bits pack(const crypto3::algebra::fields::detail::element_fp<FieldType> &x, status_type &status) {
            return pack<Endianness>(x.data.base(), status);
        }
    }    // namespace marshalling

    namespace crypto3 {
        namespace algebra {
            namespace fields {
                namespace detail {
                    template<typename FieldType, typename Exponent>
                    element_fp<FieldType> power(const element_fp<FieldType> &x, const Exponent &e) {
                        return x.pow(e);
                    }
                }    // namespace detail
            }        // namespace fields
        }            // namespace algebra
        namespace math {
            // coefficients of the polynomial with the given values, lowest first
            template<typename Value>
            std::vector<Value> lagrange_interpolation(const std::vector<std::pair<Value, Value>> &points) {
                std::vector<Value> r(points.size());
                for (std::size_t i = 0; i < points.size(); i++) {
                    std::vector<Value> basis = {points[i].second};
                    for (std::size_t j = 0; j < points.size(); j++) {
                        if (j != i) {
                            const Value d = (points[i].first - points[j].first).inversed();
                            basis.push_back(Value::zero());
                            for (std::size_t k = basis.size(); k > 0; k--) {
                                basis[k - 1] = ((k > 1 ? basis[k - 2] : Value::zero()) - basis[k - 1] * points[j].first) * d;
                            }
                        }
                    }
                    for (std::size_t k = 0; k < basis.size(); k++) {
                        r[k] += basis[k];
                    }
                }
                return r;
            }
        }    // namespace math
    }    // namespace crypto3
}    // namespace nil
