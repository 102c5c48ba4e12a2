// Components which compute with native field elements.
#include "comp_common.hpp"

#include <nil/blueprint/components/algebra/fields/plonk/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division_or_zero.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/linear_interpolation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/quadratic_interpolation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/sqrt.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/subtraction.hpp>

VP_COMPONENT(addition, 1200, 20000) {
    using C = comp::addition<A, F, policy>;
    Inputs<F> in(cols);
    const V x = some_element<F>(g), y = some_element<F>(g);
    g.note() << x << " + " << y;
    g.nontrivial(!x.is_zero() && !y.is_zero());
    C c(cols.w(3), none(), none());
    C::input_type input = {in(x), in(y)};
    return Case<F, C> {c, input, in.values, {x + y}, {}};
}
VP_REGISTER(addition)

VP_COMPONENT(subtraction, 1200, 20000) {
    using C = comp::subtraction<A, F, policy>;
    Inputs<F> in(cols);
    const V x = some_element<F>(g), y = some_element<F>(g);
    g.note() << x << " - " << y;
    g.nontrivial(!x.is_zero() && !y.is_zero());
    C c(cols.w(3), none(), none());
    C::input_type input = {in(x), in(y)};
    return Case<F, C> {c, input, in.values, {x - y}, {}};
}
VP_REGISTER(subtraction)

VP_COMPONENT(multiplication, 1200, 20000) {
    using C = comp::multiplication<A, F, policy>;
    Inputs<F> in(cols);
    const V x = some_element<F>(g), y = some_element<F>(g);
    g.note() << x << " * " << y;
    g.nontrivial(!x.is_zero() && !y.is_zero());
    C c(cols.w(3), none(), none());
    C::input_type input = {in(x), in(y)};
    return Case<F, C> {c, input, in.values, {x * y}, {}};
}
VP_REGISTER(multiplication)

VP_COMPONENT(mul_by_constant, 1200, 20000) {
    using C = comp::mul_by_constant<A, F>;
    Inputs<F> in(cols);
    const V k = some_element<F>(cfg), x = some_element<F>(g);
    g.note() << k << " constant * " << x;
    g.nontrivial(!x.is_zero() && !k.is_zero());
    C c(cols.w(2), cols.c(1), none(), k);
    C::input_type input = {in(x)};
    return Case<F, C> {c, input, in.values, {x * k}, {}};
}
VP_REGISTER(mul_by_constant)

VP_COMPONENT(division, 1200, 20000) {
    using C = comp::division<A, F, policy>;
    Inputs<F> in(cols);
    const V x = some_element<F>(g), y = some_element<F>(g);
    g.note() << x << " / " << y;
    g.nontrivial(!x.is_zero() && !y.is_zero());
    C c(cols.w(4), none(), none());
    C::input_type input = {in(x), in(y)};
    if (y.is_zero()) {
        Case<F, C> r {c, input, in.values, {}, {}};
        r.accepted = false;
        return r;
    }
    return Case<F, C> {c, input, in.values, {x * y.inversed()}, {}};
}
VP_REGISTER(division)

VP_COMPONENT(division_or_zero, 1200, 20000) {
    using C = comp::division_or_zero<A, F>;
    Inputs<F> in(cols);
    const V x = some_element<F>(g), y = g.chance(1, 6) ? V::zero() : some_element<F>(g);
    g.note() << x << " / " << y << " or zero";
    g.nontrivial(!x.is_zero() && !y.is_zero());
    C c(cols.w(5), none(), none());
    C::input_type input = {in(x), in(y)};
    return Case<F, C> {c, input, in.values, {y.is_zero() ? V::zero() : x * y.inversed()}, {}};
}
VP_REGISTER(division_or_zero)

VP_COMPONENT(linear_interpolation, 1200, 20000) {
    using C = comp::linear_inter_coefs<A, F>;
    Inputs<F> in(cols);
    const V x0 = some_element<F>(g), x1 = g.chance(1, 8) ? x0 : some_element<F>(g), z0 = some_element<F>(g),
            z1 = some_element<F>(g);
    g.note() << "line through (" << x0 << ", " << z0 << "), (" << x1 << ", " << z1 << ")";
    g.nontrivial(x0 != x1);
    C c(cols.w(7), none(), none());
    C::input_type input = {in(x0), in(z0), in(x1), in(z1)};
    Case<F, C> r {c, input, in.values, {}, {}};
    r.accepted = x0 != x1;
    if (r.accepted) {
        const V a1 = (z1 - z0) * (x1 - x0).inversed();
        r.expected = {z0 - a1 * x0, a1};
    }
    return r;
}
VP_REGISTER(linear_interpolation)

VP_COMPONENT(quadratic_interpolation, 1200, 20000) {
    using C = comp::quadratic_inter_coefs<A, F>;
    Inputs<F> in(cols);
    const V x0 = some_element<F>(g), x1 = g.chance(1, 10) ? x0 : some_element<F>(g),
            x2 = g.chance(1, 10) ? x1 : (g.chance(1, 10) ? x0 : some_element<F>(g)), z0 = some_element<F>(g),
            z1 = some_element<F>(g), z2 = some_element<F>(g);
    g.note() << "parabola through (" << x0 << ", " << z0 << "), (" << x1 << ", " << z1 << "), (" << x2 << ", " << z2 << ")";
    C c(cols.w(10), none(), none());
    C::input_type input = {in(x0), in(z0), in(x1), in(z1), in(x2), in(z2)};
    Case<F, C> r {c, input, in.values, {}, {}};
    r.accepted = x0 != x1 && x0 != x2 && x1 != x2;
    g.nontrivial(r.accepted);
    if (r.accepted) {
        // divided differences
        const V d01 = (z1 - z0) * (x1 - x0).inversed(), d12 = (z2 - z1) * (x2 - x1).inversed();
        const V a2 = (d12 - d01) * (x2 - x0).inversed();
        r.expected = {z0 - d01 * x0 + a2 * x0 * x1, d01 - a2 * (x0 + x1), a2};
    }
    return r;
}
VP_REGISTER(quadratic_interpolation)

template<std::size_t Bits>
auto make_exponentiation(pbt::Gen &cfg, pbt::Gen &g, vp::Columns &cols) {
    using C = comp::exponentiation<A, F, Bits>;
    Inputs<F> in(cols);
    const V x = some_element<F>(g), e = vp::some_bits<F>(g, Bits);
    g.note() << x << " to the power " << e << ", " << Bits << " bits";
    g.nontrivial(e != V::zero() && e != V::one() && !x.is_zero() && x != V::one());
    C c(cols.w(15), cols.c(1), none());
    typename C::input_type input = {in(x), in(e)};
    V expected = V::one(), square = x;
    F::integral_type n(e.data);
    for (; n != 0; n >>= 1) {
        if ((n & 1) != 0) {
            expected *= square;
        }
        square *= square;
    }
    return Case<F, C> {c, input, in.values, {expected}, {}};
}
VP_COMPONENT(exponentiation_64, 240, 4000) {
    return make_exponentiation<64>(cfg, g, cols);
}
VP_REGISTER(exponentiation_64)
VP_COMPONENT(exponentiation_7, 240, 4000) {
    return make_exponentiation<7>(cfg, g, cols);
}
VP_REGISTER(exponentiation_7)

VP_COMPONENT(sqrt, 120, 2000) {
    using C = comp::sqrt<A, F>;
    Inputs<F> in(cols);
    V x = some_element<F>(g);
    V y = g.chance(2, 3) ? x * x : x;
    g.note() << "root of " << y;
    g.nontrivial(y != V::zero() && y != V::one());
    C c(cols.w(15), cols.c(1), none());
    C::input_type input = {in(y)};
    Case<F, C> r {c, input, in.values, {}, {}};
    r.attempts = 10;
    const bool square = y.is_zero() || y.pow((F::modulus - 1) / 2) == V::one();
    g.label(square ? "square" : "not a square");
    r.judge = [y, square](const std::vector<V> &got) -> std::string {
        std::ostringstream os;
        if (got.size() != 1) {
            return "there is not a single result";
        }
        if (square ? got[0] * got[0] != y : got[0] != -V::one()) {
            os << "the result is " << got[0] << (square ? ", not a root" : " although there is no root");
        }
        return os.str();
    };
    return r;
}
VP_REGISTER(sqrt)

PBT_MAIN
