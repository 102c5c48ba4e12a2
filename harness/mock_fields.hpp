// Minimal field types for the parts of the library which only need integers.
#pragma once
#include <cstdint>
#include <cstddef>
#include <boost/multiprecision/cpp_int.hpp>

namespace mock {
    // elements are integers of at most Bits bits
    template<unsigned Bits>
    struct field {
        static constexpr std::size_t modulus_bits = Bits;
        using integral_type = boost::multiprecision::number<
            boost::multiprecision::cpp_int_backend<512, 512, boost::multiprecision::unsigned_magnitude,
                                                   boost::multiprecision::unchecked, void>,
            boost::multiprecision::et_off>;
        struct value_type {
            integral_type data;
            value_type() : data(0) {}
            value_type(const integral_type &v) : data(v) {}
            template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>>
            value_type(T v) : data(v) {}
            value_type pow(std::size_t k) const {
                integral_type r = 1;
                for (std::size_t i = 0; i < k; i++) {
                    r *= data;
                }
                return value_type(r);
            }
            bool operator==(const value_type &o) const { return data == o.data; }
            bool operator!=(const value_type &o) const { return data != o.data; }
        };
    };
}
