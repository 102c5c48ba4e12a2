// Range checks and conversions between field elements and bits.
#include "comp_common.hpp"

#include <nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/range_check.hpp>

VP_COMPONENT(range_check, 400, 8000) {
    using C = comp::range_check<A>;
    Inputs<F> in(cols);
    const std::size_t bits = some_amount_of_bits(cfg, 254), w = cfg.range(2, 16);
    const V x = mostly_bits(g, bits);
    g.note() << x << " has " << bits << " bits, " << w << " columns";
    g.nontrivial(number(x) > 1);
    C c(cols.w(w), cols.c(1), none(), bits);
    C::input_type input = {in(x)};
    Case<F, C, std::size_t> r {c, input, in.values, {}, {bits}};
    r.wider = true;
    r.accepted = number(x) < power_of_two(bits);
    for (const std::size_t more : more_bits(g, bits, 254)) {
        r.siblings.push_back(std::make_shared<C>(cols.w(w), cols.c(1), none(), more));
    }
    return r;
}
VP_REGISTER(range_check)

VP_COMPONENT(bit_decomposition, 300, 6000) {
    using C = comp::bit_decomposition<A>;
    Inputs<F> in(cols);
    const std::size_t bits = some_amount_of_bits(cfg, 254), w = cfg.range(3, 16);
    const auto mode = cfg.flag() ? comp::bit_composition_mode::MSB : comp::bit_composition_mode::LSB;
    const V x = mostly_bits(g, bits);
    g.note() << "the " << bits << " bits of " << x << ", " << (mode == comp::MSB ? "highest" : "lowest") << " first, " << w
             << " columns";
    g.nontrivial(number(x) > 1);
    C c(cols.w(w), cols.c(1), none(), bits, mode);
    C::input_type input = {in(x)};
    Case<F, C, std::size_t, comp::bit_composition_mode> r {c, input, in.values, {}, {bits, mode}};
    r.wider = true;
    r.accepted = number(x) < power_of_two(bits);
    r.short_filling = w >= 9;    // it is laid out in nine columns
    for (std::size_t i = 0; i < bits; i++) {
        r.expected.push_back(boost::multiprecision::bit_test(number(x), mode == comp::MSB ? bits - 1 - i : i) ? 1 : 0);
    }
    for (const std::size_t more : more_bits(g, bits, 254)) {
        r.siblings.push_back(std::make_shared<C>(cols.w(w), cols.c(1), none(), more, mode));
    }
    return r;
}
VP_REGISTER(bit_decomposition)

VP_COMPONENT(bit_composition, 300, 6000) {
    using C = comp::bit_composition<A>;
    Inputs<F> in(cols);
    const std::size_t bits = some_amount_of_bits(cfg, 254), w = cfg.range(3, 16);
    const auto mode = cfg.flag() ? comp::bit_composition_mode::MSB : comp::bit_composition_mode::LSB;
    const bool check = cfg.flag();
    const V x = some_bits<F>(g, bits);
    g.note() << x << " from " << bits << (check ? " checked" : "") << " bits, "
             << (mode == comp::MSB ? "highest" : "lowest") << " first, " << w << " columns";
    g.nontrivial(number(x) > 1);
    C c(cols.w(w), cols.c(1), none(), bits, check, mode);
    C::input_type input;
    const bool wrong = check && g.chance(1, 6);
    const std::size_t at = g.below(bits);
    for (std::size_t i = 0; i < bits; i++) {
        V b = boost::multiprecision::bit_test(number(x), mode == comp::MSB ? bits - 1 - i : i) ? 1 : 0;
        if (wrong && i == at) {
            b = g.flag() ? V(2u) : -V::one();
            g.note() << ", but bit " << i << " is " << b;
        }
        input.bits.push_back(in(b));
    }
    Case<F, C, std::size_t, bool, comp::bit_composition_mode> r {c, input, in.values, {x}, {bits, check, mode}};
    r.wider = true;
    r.accepted = !wrong;
    return r;
}
VP_REGISTER(bit_composition)

VP_COMPONENT(bit_shift_constant, 300, 6000) {
    using C = comp::bit_shift_constant<A>;
    Inputs<F> in(cols);
    const std::size_t bits = some_amount_of_bits(cfg, 253), w = cfg.range(3, 16), shift = cfg.below(bits);
    const auto mode = cfg.flag() ? comp::bit_shift_mode::LEFT : comp::bit_shift_mode::RIGHT;
    const V x = mostly_bits(g, bits);
    g.note() << x << " of " << bits << " bits shifted " << (mode == comp::LEFT ? "left" : "right") << " by " << shift << ", "
             << w << " columns";
    g.nontrivial(number(x) > 1 && shift);
    C c(cols.w(w), cols.c(1), none(), bits, shift, mode);
    C::input_type input = {in(x)};
    Case<F, C, std::size_t, std::size_t, comp::bit_shift_mode> r {c, input, in.values, {}, {bits, shift, mode}};
    r.wider = true;
    r.accepted = number(x) < power_of_two(bits);
    if (r.accepted) {
        boost::multiprecision::cpp_int y(number(x).str());
        y = mode == comp::LEFT ? boost::multiprecision::cpp_int(y << shift) : boost::multiprecision::cpp_int(y >> shift);
        y &= (boost::multiprecision::cpp_int(1) << bits) - 1;
        r.expected = {V(I(y.str()))};
    }
    for (const std::size_t more : more_bits(g, bits, 253)) {
        r.siblings.push_back(std::make_shared<C>(cols.w(w), cols.c(1), none(), more, shift, mode));
    }
    return r;
}
VP_REGISTER(bit_shift_constant)

PBT_MAIN
