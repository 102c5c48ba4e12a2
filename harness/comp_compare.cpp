// Comparison, equality, division with remainder.
#include "comp_common.hpp"

#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_unchecked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp>

using comp::comparison_mode;

static const char *const mode_name[] = {"against", "<", "<=", ">", ">="};

static bool holds(comparison_mode m, const V &a, const V &b) {
    const I x = number(a), y = number(b);
    switch (m) {
        case comparison_mode::LESS_THAN:
            return x < y;
        case comparison_mode::LESS_EQUAL:
            return x <= y;
        case comparison_mode::GREATER_THAN:
            return x > y;
        default:
            return x >= y;
    }
}
static comparison_mode some_mode(pbt::Gen &g, bool flag) {
    static const comparison_mode modes[] = {comparison_mode::LESS_THAN, comparison_mode::LESS_EQUAL,
                                            comparison_mode::GREATER_THAN, comparison_mode::GREATER_EQUAL,
                                            comparison_mode::FLAG};
    return modes[g.below(flag ? 5 : 4)];
}
// a second number related to the first one
static V related(pbt::Gen &g, const V &x, std::size_t bits, bool may_exceed) {
    V y;
    if (may_exceed && bits < 230 && g.chance(1, 6)) {
        // far away, by a few of the bits above
        y = V(power_of_two(bits + g.below(g.flag() ? 8 : 20))) * V(g.range(1, 3)) + some_bits<F>(g, bits);
        return g.flag() ? x + y : y;
    }
    switch (g.below(6)) {
        case 0:
            y = x;
            break;
        case 1:
            y = x + V::one();
            break;
        case 2:
            y = x - V::one();
            break;
        case 3:
            y = V(number(x) ^ power_of_two(g.below(bits)));
            break;
        default:
            return may_exceed ? mostly_bits(g, bits) : some_bits<F>(g, bits);
    }
    if (!may_exceed && number(y) >= power_of_two(bits)) {
        y = x;
    }
    return y;
}

VP_COMPONENT(comparison_checked, 400, 8000) {
    using C = comp::comparison_checked<A>;
    Inputs<F> in(cols);
    const std::size_t bits = some_amount_of_bits(cfg, 253), w = cfg.range(3, 16);
    const comparison_mode mode = some_mode(cfg, false);
    const V x = mostly_bits(g, bits), y = related(g, x, bits, true);
    g.note() << x << " " << mode_name[mode] << " " << y << ", " << bits << " bits, " << w << " columns";
    g.nontrivial(number(x) > 1 && number(y) > 1);
    C c(cols.w(w), cols.c(1), none(), bits, mode);
    C::input_type input = {in(x), in(y)};
    Case<F, C, std::size_t, comparison_mode> r {c, input, in.values, {}, {bits, mode}};
    r.wider = true;
    r.accepted = holds(mode, x, y) && number(x) < power_of_two(bits) && number(y) < power_of_two(bits);
    // What is checked is the smaller number and the difference, and for odd numbers of bits one bit too many.
    const bool swapped = mode == comparison_mode::GREATER_THAN || mode == comparison_mode::GREATER_EQUAL;
    const bool strict = mode == comparison_mode::GREATER_THAN || mode == comparison_mode::LESS_THAN;
    const V smaller = swapped ? y : x, larger = swapped ? x : y;
    const I limit = power_of_two(bits + (bits % 2 && bits + 1 < 254));
    if (number(smaller) < limit && number(larger - smaller) < limit && !(strict && x == y)) {
        r.known_acceptance = "comparison_checked";
    }
    for (const std::size_t more : more_bits(g, bits, 253)) {
        r.siblings.push_back(std::make_shared<C>(cols.w(w), cols.c(1), none(), more, mode));
    }
    return r;
}
VP_REGISTER(comparison_checked)

VP_COMPONENT(comparison_unchecked, 400, 8000) {
    using C = comp::comparison_unchecked<A>;
    Inputs<F> in(cols);
    const std::size_t bits = some_amount_of_bits(cfg, 253), w = cfg.range(3, 16);
    const comparison_mode mode = some_mode(cfg, false);
    const V x = some_bits<F>(g, bits), y = related(g, x, bits, false);
    g.note() << x << " " << mode_name[mode] << " " << y << ", " << bits << " bits, " << w << " columns";
    g.nontrivial(number(x) > 1 && number(y) > 1);
    C c(cols.w(w), cols.c(1), none(), bits, mode);
    C::input_type input = {in(x), in(y)};
    Case<F, C, std::size_t, comparison_mode> r {c, input, in.values, {}, {bits, mode}};
    r.wider = true;
    r.accepted = holds(mode, x, y);
    for (const std::size_t more : more_bits(g, bits, 253)) {
        r.siblings.push_back(std::make_shared<C>(cols.w(w), cols.c(1), none(), more, mode));
    }
    return r;
}
VP_REGISTER(comparison_unchecked)

VP_COMPONENT(comparison_flag, 400, 8000) {
    using C = comp::comparison_flag<A>;
    Inputs<F> in(cols);
    const std::size_t bits = some_amount_of_bits(cfg, 253), w = cfg.range(3, 16);
    const comparison_mode mode = some_mode(cfg, true);
    const V x = mostly_bits(g, bits), y = related(g, x, bits, true);
    g.note() << x << " " << mode_name[mode] << " " << y << ", " << bits << " bits, " << w << " columns";
    g.nontrivial(number(x) > 1 && number(y) > 1);
    C c(cols.w(w), cols.c(1), none(), bits, mode);
    C::input_type input = {in(x), in(y)};
    Case<F, C, std::size_t, comparison_mode> r {c, input, in.values, {}, {bits, mode}};
    r.wider = true;
    r.accepted = number(x) < power_of_two(bits) && number(y) < power_of_two(bits);
    if (mode == comparison_mode::FLAG) {
        r.expected = {number(x) == number(y) ? V::zero() : number(x) > number(y) ? V::one() : -V::one()};
    } else {
        r.expected = {V(holds(mode, x, y) ? 1 : 0)};
    }
    for (const std::size_t more : more_bits(g, bits, 253)) {
        r.siblings.push_back(std::make_shared<C>(cols.w(w), cols.c(1), none(), more, mode));
    }
    return r;
}
VP_REGISTER(comparison_flag)

VP_COMPONENT(equality_flag, 400, 10000) {
    using C = comp::equality_flag<A, F>;
    Inputs<F> in(cols);
    const bool inequality = cfg.flag();
    const V x = some_element<F>(g), y = related(g, x, 254, true);
    g.note() << x << (inequality ? " is not " : " is ") << y;
    g.nontrivial(number(x) > 1 && number(y) > 1);
    C c(cols.w(4), none(), none(), inequality);
    C::input_type input = {in(x), in(y)};
    return Case<F, C, bool> {c, input, in.values, {V((x == y) != inequality ? 1 : 0)}, {inequality}};
}
VP_REGISTER(equality_flag)

VP_COMPONENT(division_remainder, 300, 6000) {
    using C = comp::division_remainder<A>;
    Inputs<F> in(cols);
    const std::size_t bits = some_amount_of_bits(cfg, 126), w = cfg.range(3, 16);
    const bool check = cfg.flag();
    const V x = check ? mostly_bits(g, bits) : some_bits<F>(g, bits);
    const V y = g.chance(1, 2) ? some_bits<F>(g, g.range(1, bits)) : check ? mostly_bits(g, bits) : some_bits<F>(g, bits);
    g.note() << x << " divided by " << y << ", " << bits << (check ? " checked" : "") << " bits, " << w << " columns";
    g.nontrivial(number(y) > 1 && number(x) > number(y));
    C c(cols.w(w), cols.c(1), none(), bits, check);
    C::input_type input = {in(x), in(y)};
    Case<F, C, std::size_t, bool> r {c, input, in.values, {}, {bits, check}};
    r.wider = true;
    r.accepted = !y.is_zero() && number(x) < power_of_two(bits) && number(y) < power_of_two(bits);
    if (r.accepted) {
        r.expected = {V(number(x) / number(y)), V(number(x) % number(y))};
        r.judge_other = [&g, x, y, bits, right = r.expected](const std::vector<V> &got) -> std::string {
            std::ostringstream os;
            const V &q = got.at(0), &rest = got.at(1);
            if (got == right ||
                (x == q * y + rest && number(q) < power_of_two(bits) && number(y - rest) < power_of_two(bits) &&
                 pbt::known(g, "division_remainder"))) {
                return "";
            }
            os << "quotient " << q << " and remainder " << rest << " are accepted";
            return os.str();
        };
    } else if (y.is_zero() && x.is_zero()) {
        r.known_acceptance = "division_remainder";
    }
    for (const std::size_t more : more_bits(g, bits, 126)) {
        r.siblings.push_back(std::make_shared<C>(cols.w(w), cols.c(1), none(), more, check));
    }
    return r;
}
VP_REGISTER(division_remainder)

PBT_MAIN
