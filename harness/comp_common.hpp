#pragma once

#include "component.hpp"

#include <nil/blueprint/basic_non_native_policy.hpp>

#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/curves/vesta.hpp>

using F = nil::crypto3::algebra::curves::pallas::base_field_type;
using V = F::value_type;
using I = F::integral_type;
using A = vp::arithmetization<F>;
using policy = nil::blueprint::basic_non_native_policy<F>;
using none = std::array<std::uint32_t, 0>;
namespace comp = nil::blueprint::components;
using vp::Case;
using vp::Inputs;
using vp::some_bits;
using vp::some_element;

inline I number(const V &x) {
    return I(x.data);
}
inline I power_of_two(std::size_t bits) {
    return I(1) << bits;
}
// below 2^bits, sometimes not
inline V mostly_bits(pbt::Gen &g, std::size_t bits) {
    if (g.chance(1, 5)) {
        switch (g.below(7)) {
            case 0:
                return V(power_of_two(bits));
            case 4:
            case 5:
            case 6: {
                // a few bits above the others
                const std::size_t at = bits + g.below(g.flag() ? 8 : 32);
                if (at < 252) {
                    return some_bits<F>(g, bits) + V(power_of_two(at)) * V(g.range(1, 3));
                }
                [[fallthrough]];
            }
            case 1:
                return V(power_of_two(bits)) + V(g.below(4));
            case 2:
                return -V(1 + g.below(5));
            default:
                return some_element<F>(g);
        }
    }
    return some_bits<F>(g, bits);
}
// greater numbers of bits than the given one, for components which fit the same rows
inline std::vector<std::size_t> more_bits(pbt::Gen &g, std::size_t bits, std::size_t max) {
    std::vector<std::size_t> r;
    for (const std::size_t more : {bits + 1, bits + 2, bits + g.range(3, 8), bits + g.range(4, 32)}) {
        if (more <= max) {
            r.push_back(more);
        }
    }
    return r;
}
inline std::size_t some_amount_of_bits(pbt::Gen &g, std::size_t max) {
    static const std::size_t usual[] = {1, 2, 3, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 250, 251, 252, 253, 254};
    std::size_t r = g.chance(1, 2) ? usual[g.below(std::size(usual))] : g.range(1, max);
    return r > max ? max : r;
}
