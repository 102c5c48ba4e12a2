// Arithmetic modulo 2^255-19 and modulo the order of the curve over it.
#include "foreign.hpp"

#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/scalar_non_native_range.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/multiplication.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/range.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/reduction.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp>

template<typename C, typename Op>
auto two_residues(pbt::Gen &g, vp::Columns &cols, const char *sign, Op op) {
    Inputs<F> in(cols);
    N a = some_residue(g), b = g.chance(1, 10) ? a : some_residue(g);
    if (g.chance(1, 10)) {
        b = (p - a) % p;
    }
    g.note() << a << " " << sign << " " << b;
    g.nontrivial(a != 0 && b != 0);
    typename C::input_type input;
    input.A = give(in, a);
    input.B = give(in, b);
    C c(cols.w(9), none(), none());
    Case<F, C> r {c, input, in.values, limbs(op(a, b)), {}};
    r.attempts = 0;
    const N x = other_residue(g, a), y = other_residue(g, b);
    r.others = {limbs(x) + limbs(b), limbs(a) + limbs(y)};
    return r;
}

VP_COMPONENT(addition, 1200, 24000) {
    return two_residues<comp::addition<A, foreign, policy>>(g, cols, "+", [](const N &a, const N &b) { return N((a + b) % p); });
}
VP_REGISTER(addition)

VP_COMPONENT(subtraction, 1200, 24000) {
    return two_residues<comp::subtraction<A, foreign, policy>>(g, cols, "-",
                                                               [](const N &a, const N &b) { return N((a + p - b) % p); });
}
VP_REGISTER(subtraction)

VP_COMPONENT(multiplication, 1200, 24000) {
    return two_residues<comp::multiplication<A, foreign, policy>>(g, cols, "*",
                                                                  [](const N &a, const N &b) { return N(a * b % p); });
}
VP_REGISTER(multiplication)
VP_STRETCHED(multiplication, 150, 3000)

VP_COMPONENT(range, 1200, 24000) {
    using C = comp::range<A, foreign, policy>;
    Inputs<F> in(cols);
    std::vector<N> l;
    switch (g.below(5)) {
        case 0:    // close to the modulus
            for (const N x = p - 20 + g.below(39); l.size() < 4;) {
                l.push_back(l.size() < 3 ? N((x >> 66 * l.size()) % limb) : N(x >> 198));
            }
            break;
        case 1:    // a limb too large
            for (const unsigned which = g.below(4); l.size() < 4;) {
                const unsigned bits = l.size() < 3 ? 66 : 57;
                l.push_back(l.size() == which ? N(1) << (g.chance(1, 2) ? bits : g.range(bits, 200)) : some_number(g, bits));
            }
            break;
        default:
            for (; l.size() < 4;) {
                l.push_back(some_number(g, l.size() < 3 ? 66 : 57));
            }
    }
    const bool in_range = l[0] < limb && l[1] < limb && l[2] < limb &&
                          l[0] + (l[1] << 66) + (l[2] << 132) + (l[3] << 198) < p;
    g.note() << "range of " << l[0] << ", " << l[1] << ", " << l[2] << ", " << l[3];
    g.label(in_range ? "inside" : "outside");
    g.nontrivial(true);
    typename C::input_type input;
    for (int i = 0; i < 4; i++) {
        input.input[i] = in(element(l[i]));
    }
    C c(cols.w(9), none(), none());
    Case<F, C> r {c, input, in.values, {}, {}};
    r.accepted = in_range;
    r.attempts = 0;
    return r;
}
VP_REGISTER(range)

VP_COMPONENT(reduction, 1200, 24000) {
    using C = comp::reduction<A, F, policy>;
    Inputs<F> in(cols);
    N x = 0;
    switch (g.below(4)) {
        case 0:    // close to a multiple of the order
            x = order * (some_number(g, g.range(1, 259)) + 1) + g.below(5);
            x = x < 3 ? x : x - 2;
            break;
        case 1:
            x = (N(1) << 512) - 1 - some_number(g, g.range(1, 512));
            break;
        default:
            for (int i = 0; i < 8; i++) {
                x = (x << 64) + some_number(g, 64);
            }
    }
    g.note() << x << " modulo the order";
    g.nontrivial(x >= order);
    typename C::input_type input;
    for (int i = 0; i < 8; i++) {
        input.k[i] = in(element((x >> 64 * i) % (N(1) << 64)));
    }
    C c(cols.w(9), none(), none());
    Case<F, C> r {c, input, in.values, {element(x % order)}, {}};
    r.attempts = 0;
    for (int i = 0; i < 2; i++) {
        std::vector<V> o = in.values;
        const std::size_t k = g.below(8);
        o[k] = g.chance(1, 2) ? element(some_number(g, 64)) : o[k].is_zero() ? V::one() : o[k] - V::one();
        r.others.push_back(o);
    }
    return r;
}
VP_REGISTER(reduction)

VP_COMPONENT(scalar, 600, 12000) {
    using C = comp::scalar_non_native_range<A, ed25519>;
    Inputs<F> in(cols);
    N x = g.chance(1, 4) ? N(order - 1 - g.below(5)) : some_number(g, 252);
    g.note() << "parts of the scalar " << x;
    g.nontrivial(x > 1);
    std::vector<V> expected;
    for (int i = 0; i < 12; i++) {
        expected.push_back(element((x >> 22 * i) % (1 << 22)));
    }
    typename C::input_type input;
    input.k = in(element(x));
    C c(cols.w(9), none(), none());
    Case<F, C> r {c, input, in.values, expected, {}};
    r.attempts = 0;
    const N y = x + (N(1) << g.below(252));
    r.others = {{element(y < order ? y : x / 2)}};
    return r;
}
VP_REGISTER(scalar)

PBT_MAIN
