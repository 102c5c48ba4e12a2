// Operations with truth values.
#include "comp_common.hpp"

#include <nil/blueprint/components/algebra/fields/plonk/logic_and_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/logic_or_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/logic_ops.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp>

template<typename C>
auto make_unary(pbt::Gen &g, vp::Columns &cols, const char *name, bool (*f)(bool)) {
    Inputs<F> in(cols);
    const bool x = g.flag();
    g.note() << name << " " << x;
    g.nontrivial(true);
    C c(cols.w(2), none(), none());
    typename C::input_type input;
    input.input = {in(V(x))};
    return Case<F, C> {c, input, in.values, {V(f(x))}, {}};
}
template<typename C>
auto make_binary(pbt::Gen &g, vp::Columns &cols, const char *name, bool (*f)(bool, bool), bool checked) {
    Inputs<F> in(cols);
    V x = V(g.flag()), y = V(g.flag());
    bool wrong = checked && g.chance(1, 4);
    if (wrong) {
        (g.flag() ? x : y) = some_element<F>(g);
        wrong = number(x) > 1 || number(y) > 1;
    }
    g.note() << x << " " << name << " " << y;
    g.nontrivial(true);
    C c(cols.w(3), none(), none());
    typename C::input_type input;
    input.input = {in(x), in(y)};
    Case<F, C> r {c, input, in.values, {V(f(!x.is_zero(), !y.is_zero()))}, {}};
    r.accepted = !wrong;
    return r;
}

#define UNARY(NAME, E)                                                                           \
    VP_COMPONENT(NAME, 180, 1200) {                                                                \
        return make_unary<comp::NAME<A>>(g, cols, #NAME, [](bool x) -> bool { return E; });      \
    }                                                                                            \
    VP_REGISTER(NAME)
#define BINARY(NAME, CHECKED, E)                                                                                 \
    VP_COMPONENT(NAME, 300, 3000) {                                                                              \
        return make_binary<comp::NAME<A>>(g, cols, #NAME, [](bool x, bool y) -> bool { return E; }, CHECKED);    \
    }                                                                                                            \
    VP_REGISTER(NAME)

UNARY(logic_not, !x)
BINARY(logic_and, false, x && y)
BINARY(logic_or, false, x || y)
BINARY(logic_xor, false, x != y)
BINARY(logic_nand, false, !(x && y))
BINARY(logic_nor, false, !(x || y))
BINARY(lookup_logic_and, true, x && y)
BINARY(lookup_logic_xor, true, x != y)

VP_COMPONENT(select, 600, 12000) {
    using C = comp::select<A>;
    Inputs<F> in(cols);
    const bool which = g.flag();
    const V x = some_element<F>(g), y = some_element<F>(g);
    g.note() << which << " ? " << x << " : " << y;
    g.nontrivial(x != y);
    C c(cols.w(4), none(), none());
    C::input_type input;
    input.input = {in(V(which)), in(x), in(y)};
    return Case<F, C> {c, input, in.values, {which ? x : y}, {}};
}
VP_REGISTER(select)

VP_COMPONENT(logic_and_flag, 1200, 30000) {
    using C = comp::logic_and_flag<A>;
    Inputs<F> in(cols);
    const std::size_t w = cfg.range(2, 5);
    const V x = g.chance(1, 4) ? V::zero() : some_element<F>(g), y = g.chance(1, 4) ? V::zero() : some_element<F>(g);
    g.note() << x << " and " << y << " are not zero, " << w << " columns";
    g.nontrivial(!x.is_zero() && !y.is_zero());
    C c(cols.w(w), none(), none());
    C::input_type input = {in(x), in(y)};
    return Case<F, C> {c, input, in.values, {V(!x.is_zero() && !y.is_zero() ? 1 : 0)}, {}};
}
VP_REGISTER(logic_and_flag)

VP_COMPONENT(logic_or_flag, 1200, 30000) {
    using C = comp::logic_or_flag<A>;
    Inputs<F> in(cols);
    const std::size_t w = cfg.range(2, 6);
    const V x = g.chance(1, 3) ? V::zero() : some_element<F>(g), y = g.chance(1, 3) ? V::zero() : some_element<F>(g);
    g.note() << x << " or " << y << " is not zero, " << w << " columns";
    g.nontrivial(!x.is_zero() || !y.is_zero());
    C c(cols.w(w), none(), none());
    C::input_type input = {in(x), in(y)};
    return Case<F, C> {c, input, in.values, {V(!x.is_zero() || !y.is_zero() ? 1 : 0)}, {}};
}
VP_REGISTER(logic_or_flag)

PBT_MAIN
