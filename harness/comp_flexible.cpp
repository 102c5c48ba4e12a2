// Vector components whose number of columns can be chosen.
#include "comp_common.hpp"

#include <nil/blueprint/components/systems/snark/plonk/flexible/additions.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/multiplications.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/swap.hpp>

template<typename C, typename Op>
auto pairs(pbt::Gen &cfg, pbt::Gen &g, vp::Columns &cols, std::size_t step, const char *name, Op op) {
    Inputs<F> in(cols);
    const std::size_t w = step * cfg.range(1, 7), n = cfg.chance(1, 3) ? w / 3 * cfg.range(1, 4) : cfg.range(1, 25);
    typename C::input_type input;
    std::vector<V> expected;
    g.note() << n << " " << name << " in " << w << " columns";
    g.nontrivial(n > 1);
    for (std::size_t i = 0; i < n; i++) {
        const V x = some_element<F>(g), y = some_element<F>(g);
        if (i < 4) {
            g.note() << (i ? ", " : ": ") << x << " and " << y;
        }
        // arguments in this order
        const auto a = in(x);
        input.arr.emplace_back(a, in(y));
        expected.push_back(op(x, y));
    }
    C c(cols.w(w), none(), none(), n);
    return Case<F, C, std::size_t> {c, input, in.values, expected, {n}};
}

VP_COMPONENT(additions, 1200, 20000) {
    return pairs<comp::flexible_additions<A, F>>(cfg, g, cols, 3, "sums", [](const V &x, const V &y) { return x + y; });
}
VP_REGISTER(additions)

VP_COMPONENT(multiplications, 1200, 20000) {
    return pairs<comp::flexible_multiplications<A, F>>(cfg, g, cols, 5, "products",
                                                       [](const V &x, const V &y) { return x * y; });
}
VP_REGISTER(multiplications)

VP_COMPONENT(swap, 1200, 20000) {
    using C = comp::flexible_swap<A, F>;
    Inputs<F> in(cols);
    const bool other = g.chance(1, 8);
    const V b = other ? some_element<F>(g) : V(g.below(2)), x = some_element<F>(g), y = some_element<F>(g);
    g.note() << "swap " << x << " and " << y << " if " << b;
    g.nontrivial(x != y);
    C c(cols.w(5), none(), none());
    typename C::input_type input;
    for (std::size_t i = 0; i < 3; i++) {
        input.inp[i] = in(i == 0 ? b : i == 1 ? x : y);
    }
    Case<F, C> r {c, input, in.values, {}, {}};
    if (b.is_zero()) {
        r.expected = {x, y};
    } else if (b.is_one()) {
        r.expected = {y, x};
    } else {
        r.accepted = false;
    }
    return r;
}
VP_REGISTER(swap)

VP_COMPONENT(constant_pow, 1200, 20000) {
    using C = comp::flexible_constant_pow<A, F>;
    Inputs<F> in(cols);
    const std::size_t w = cfg.range(5, 18);
    I e;
    switch (cfg.below(4)) {
        case 0:
            e = I(1) << cfg.below(253);
            break;
        case 1:
            e = I(cfg.range(1, 300));
            break;
        case 2: {
            // repeated digits
            const std::size_t digit = cfg.range(1, 3), n = cfg.range(1, 60);
            const std::size_t other = cfg.below(4), period = cfg.range(1, 20);
            e = 0;
            for (std::size_t i = 0; i < n; i++) {
                e = e * 4 + (i % period == 0 ? digit : other);
            }
            break;
        }
        default:
            e = number(some_bits<F>(cfg, cfg.range(1, 253)));
            if (e == 0) {
                e = 1;
            }
    }
    const V x = some_element<F>(g);
    g.note() << x << " to the power of " << e << ", " << w << " columns";
    g.nontrivial(e > 1 && !x.is_zero() && !x.is_one());
    C c(cols.w(w), none(), none(), e);
    typename C::input_type input = {in(x)};
    V expected = V::one(), power = x;
    for (I k = e; k > 0; k >>= 1) {
        if (k % 2 == 1) {
            expected *= power;
        }
        power *= power;
    }
    return Case<F, C, I> {c, input, in.values, {expected}, {e}};
}
VP_REGISTER(constant_pow)

VP_COMPONENT(pow_factor, 1200, 20000) {
    using C = comp::pow_factor<A, F>;
    Inputs<F> in(cols);
    const std::size_t power = cfg.range(1, 100);
    const auto widths = C::get_manifest(power).witness_amount;
    std::vector<std::size_t> admitted;
    for (std::size_t w = 10; w <= 34; w += 8) {
        if (w == 10 || w < 10 + power / 6 + 1) {
            admitted.push_back(w);
        }
    }
    const std::size_t w = admitted[cfg.below(admitted.size())];
    const V theta = some_element<F>(g);
    g.note() << "polynomial of degree " << power << " at " << theta << ", " << w << " columns";
    g.nontrivial(!theta.is_zero() && !theta.is_one());
    typename C::input_type input;
    input.theta = in(theta);
    V expected = V::zero();
    for (std::size_t i = 0; i <= power; i++) {
        const V a = some_element<F>(g);
        input.coefficients.push_back(in(a));
        expected = expected * theta + a;
    }
    C c(cols.w(w), cols.c(1), none(), power);
    return Case<F, C, std::size_t> {c, input, in.values, {expected}, {power}};
}
VP_REGISTER(pow_factor)

PBT_MAIN
