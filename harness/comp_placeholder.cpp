// Parts of the in-circuit verifier.
#include "comp_common.hpp"

#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/expression_evaluation_component.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/f1_loop.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/gate_component.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_lin_inter.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/permutation_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/verifier/final_polynomial_check.hpp>

using var = vp::var_t<F>;
using Sizes = std::vector<std::size_t>;

struct Elements {
    std::vector<V> values;
    std::vector<var> vars;
    Elements(pbt::Gen &g, Inputs<F> &in, std::size_t n) {
        for (std::size_t i = 0; i < n; i++) {
            values.push_back(some_element<F>(g));
            vars.push_back(in(values.back()));
        }
    }
};

VP_COMPONENT(fri_array_swap, 300, 6000) {
    using C = comp::fri_array_swap<A, F>;
    Inputs<F> in(cols);
    const std::size_t half = cfg.range(1, 12), w = 5 + 4 * cfg.below(half);
    const bool t = g.flag();
    typename C::input_type input;
    input.t = in(V(t));
    Elements a(g, in, 2 * half);
    input.arr = a.vars;
    g.note() << half << " pairs in " << w << " columns" << (t ? ", swapped: " : ": ");
    std::vector<V> expected;
    for (std::size_t i = 0; i < half; i++) {
        g.note() << a.values[2 * i] << " " << a.values[2 * i + 1] << "; ";
        expected.push_back(a.values[2 * i + t]);
        expected.push_back(a.values[2 * i + !t]);
    }
    g.nontrivial(half > 1 && t);
    C c(cols.w(w), none(), none(), half);
    return Case<F, C, std::size_t> {c, input, in.values, expected, {half}};
}
VP_REGISTER(fri_array_swap)

VP_COMPONENT(fri_cosets, 60, 2000) {
    using C = comp::fri_cosets<A, F>;
    Inputs<F> in(cols);
    const std::size_t n = cfg.chance(1, 3) ? cfg.range(1, 3) : cfg.range(1, 24), w = 9 * cfg.range(1, std::min<std::size_t>(n, 5));
    V omega = some_element<F>(cfg);
    if (omega.is_zero()) {
        omega = V(5);
    }
    const V x = g.chance(1, 4) ? -V(1 + g.below(3)) : some_element<F>(g);
    g.note() << "cosets of " << n << " bits of " << x << " in " << w << " columns, generator " << omega;
    g.nontrivial(n > 1 && number(x) > 1);
    C c(cols.w(w), cols.c(1), none(), n, omega);
    typename C::input_type input;
    input.x = in(x);
    // element of the last step is the power of the generator given by all bits, each step before it squares
    V power = omega, element = V::one();
    for (std::size_t i = 0; i < n; i++) {
        if (number(x) >> i & 1) {
            element *= power;
        }
        power *= power;
    }
    std::vector<V> expected;
    for (std::size_t i = 0; i < n; i++) {
        expected.push_back(element);
        expected.push_back(-element);
        expected.push_back(V(number(x) >> (n - 1 - i) & 1));
        element *= element;
    }
    return Case<F, C, std::size_t, V> {c, input, in.values, expected, {n, omega}};
}
VP_REGISTER(fri_cosets)

VP_COMPONENT(fri_lin_inter, 300, 6000) {
    using C = comp::fri_lin_inter<A, F>;
    Inputs<F> in(cols);
    V s = some_element<F>(g);
    if (s.is_zero()) {
        s = V::one();
    }
    const V y0 = some_element<F>(g), y1 = some_element<F>(g), alpha = some_element<F>(g);
    g.note() << "line through (" << s << ", " << y0 << ") and (-, " << y1 << ") at " << alpha;
    g.nontrivial(y0 != y1 && alpha != s);
    C c(cols.w(5), none(), none());
    typename C::input_type input;
    input.s = in(s);
    input.y0 = in(y0);
    input.y1 = in(y1);
    input.alpha = in(alpha);
    const V half = V(2).inversed();
    // even and odd parts of the polynomial of degree one
    const V expected = (y0 + y1) * half + (y0 - y1) * half * alpha * s.inversed();
    return Case<F, C> {c, input, in.values, {expected}, {}};
}
VP_REGISTER(fri_lin_inter)

VP_COMPONENT(f1_loop, 300, 8000) {
    using C = comp::detail::f1_loop<A>;
    Inputs<F> in(cols);
    const std::size_t w = cfg.range(4, 14), m = cfg.chance(1, 2) ? cfg.range(1, 6) : cfg.range(1, 25);
    Elements c2(g, in, 2), s(g, in, m), t(g, in, m);
    const V beta = c2.values[0], gamma = c2.values[1];
    g.note() << m << " factors in " << w << " columns, " << beta << " " << gamma;
    g.nontrivial(m > 1);
    C c(cols.w(w), none(), none(), m);
    typename C::input_type input = {c2.vars[0], c2.vars[1], s.vars, t.vars};
    V expected = V::one();
    for (std::size_t i = 0; i < m; i++) {
        expected *= (V::one() + beta) * gamma + s.values[i] + beta * t.values[i];
    }
    return Case<F, C, std::size_t> {c, input, in.values, {expected}, {m}};
}
VP_REGISTER(f1_loop)

VP_COMPONENT(f3_loop, 300, 8000) {
    using C = comp::detail::f3_loop<A>;
    Inputs<F> in(cols);
    const std::size_t w = cfg.range(4, 14), m = cfg.chance(1, 2) ? cfg.range(1, 6) : cfg.range(1, 25);
    Elements alphas(g, in, m), s(g, in, m), t(g, in, m);
    g.note() << m << " summands in " << w << " columns";
    g.nontrivial(m > 1);
    C c(cols.w(w), none(), none(), m);
    typename C::input_type input = {alphas.vars, s.vars, t.vars};
    V expected = V::zero();
    for (std::size_t i = 0; i < m; i++) {
        expected += alphas.values[i] * (s.values[i] - t.values[i]);
    }
    return Case<F, C, std::size_t> {c, input, in.values, {expected}, {m}};
}
VP_REGISTER(f3_loop)

V combined(const V &theta, const std::vector<V> &values) {
    V r = V::zero();
    for (std::size_t i = values.size(); i-- > 0;) {
        r = r * theta + values[i];
    }
    return r;
}

VP_COMPONENT(gate_combination, 400, 10000) {
    using C = comp::detail::gate_component<A>;
    Inputs<F> in(cols);
    const std::size_t w = cfg.range(3, 14), d = cfg.chance(1, 2) ? cfg.range(1, 8) : cfg.range(1, 40);
    Elements both(g, in, 2), constraints(g, in, d + 1);
    g.note() << d + 1 << " values in " << w << " columns, challenge " << both.values[0] << ", selector " << both.values[1];
    g.nontrivial(d > 1 && !both.values[1].is_zero());
    C c(cols.w(w), none(), none(), d);
    typename C::input_type input = {both.vars[0], constraints.vars, both.vars[1]};
    const V expected = both.values[1] * combined(both.values[0], constraints.values);
    return Case<F, C, std::size_t> {c, input, in.values, {expected}, {d}};
}
VP_REGISTER(gate_combination)

VP_COMPONENT(gate_argument, 200, 5000) {
    using C = comp::basic_constraints_verifier<A>;
    Inputs<F> in(cols);
    const std::size_t w = cfg.range(3, 14), n = cfg.range(1, 5);
    Sizes sizes;
    std::size_t total = 0;
    g.note() << "gates with";
    for (std::size_t i = 0; i < n; i++) {
        sizes.push_back(cfg.chance(1, 2) ? cfg.range(1, 3) : cfg.range(1, 9));
        total += sizes.back();
        g.note() << " " << sizes.back();
    }
    const V theta = some_element<F>(g);
    g.note() << " constraints in " << w << " columns, challenge " << theta;
    g.nontrivial(n > 1);
    typename C::input_type input;
    input.theta = in(theta);
    Elements constraints(g, in, total), selectors(g, in, n);
    input.constraints = constraints.vars;
    input.selectors = selectors.vars;
    std::vector<V> all;
    for (std::size_t i = 0, k = 0; i < n; i++) {
        for (std::size_t j = 0; j < sizes[i]; j++) {
            all.push_back(selectors.values[i] * constraints.values[k++]);
        }
    }
    C c(cols.w(w), cols.c(1), none(), sizes);
    return Case<F, C, Sizes> {c, input, in.values, {combined(theta, all)}, {sizes}};
}
VP_REGISTER(gate_argument)

VP_COMPONENT(permutation_argument, 300, 8000) {
    using C = comp::permutation_verifier<A>;
    Inputs<F> in(cols);
    const std::size_t m = cfg.range(2, 20);
    Elements f(g, in, m), e(g, in, m), sigma(g, in, m), rest(g, in, 7);
    const auto &r = rest.values;
    g.note() << m << " columns, others";
    for (const V &x : r) {
        g.note() << " " << x;
    }
    C c(cols.w(6), none(), none(), m);
    typename C::input_type input;
    input.f = f.vars;
    input.Se = e.vars;
    input.Ssigma = sigma.vars;
    input.L0 = rest.vars[0];
    input.V = rest.vars[1];
    input.V_zeta = rest.vars[2];
    input.q_last = rest.vars[3];
    input.q_pad = rest.vars[4];
    input.thetas = {rest.vars[5], rest.vars[6]};
    V g1 = V::one(), h1 = V::one();
    for (std::size_t i = 0; i < m; i++) {
        g1 *= f.values[i] + r[5] * e.values[i] + r[6];
        h1 *= f.values[i] + r[5] * sigma.values[i] + r[6];
    }
    g.nontrivial(!g1.is_zero() && !h1.is_zero());
    const V one = V::one();
    return Case<F, C, std::size_t> {
        c,
        input,
        in.values,
        {r[0] * (one - r[1]), (one - r[3] - r[4]) * (r[2] * h1 - r[1] * g1), r[3] * (r[1] * r[1] - r[1])},
        {m}};
}
VP_REGISTER(permutation_argument)

VP_COMPONENT(lookup_argument, 60, 2000) {
    using C = comp::lookup_verifier<A>;
    Inputs<F> in(cols);
    const std::size_t w = cfg.range(4, 14), gates = cfg.range(1, 3), tables = cfg.range(1, 3);
    Sizes gate_sizes, input_sizes, option_sizes, table_columns;
    std::size_t lookups = 0, inputs = 0, options = 0, option_cells = 0;
    for (std::size_t i = 0; i < gates; i++) {
        gate_sizes.push_back(cfg.range(1, 3));
        for (std::size_t j = 0; j < gate_sizes.back(); j++) {
            input_sizes.push_back(cfg.range(1, 4));
            inputs += input_sizes.back();
            lookups++;
        }
    }
    for (std::size_t i = 0; i < tables; i++) {
        option_sizes.push_back(cfg.range(1, 3));
        table_columns.push_back(cfg.range(1, 4));
        options += option_sizes.back();
        option_cells += option_sizes.back() * table_columns.back();
    }
    const std::size_t m = lookups + options;
    g.note() << gates << " gates with " << lookups << " lookups of " << inputs << " expressions, " << tables
             << " tables with " << options << " options of " << option_cells << " columns, " << w << " columns";
    g.nontrivial(m > 2);
    Elements head(g, in, 10), alphas(g, in, m - 1), gate_selectors(g, in, gates), ids(g, in, lookups),
        lookup_inputs(g, in, inputs), table_selectors(g, in, tables), table_options(g, in, option_cells),
        shifted_selectors(g, in, tables), shifted_options(g, in, option_cells), sorted(g, in, 3 * m - 1);
    const V theta = head.values[0], beta = head.values[1], gamma = head.values[2], vl = head.values[3],
            vl_next = head.values[4], last = head.values[5], last_next = head.values[6], blind = head.values[7],
            blind_next = head.values[8], l0 = head.values[9], one = V::one();
    typename C::input_type input;
    input.theta = head.vars[0];
    input.beta = head.vars[1];
    input.gamma = head.vars[2];
    input.V_L_values = {head.vars[3], head.vars[4]};
    input.q_last = {head.vars[5], head.vars[6]};
    input.q_blind = {head.vars[7], head.vars[8]};
    input.L0 = head.vars[9];
    input.alphas = alphas.vars;
    input.lookup_gate_selectors = gate_selectors.vars;
    input.lookup_gate_constraints_table_ids = ids.vars;
    input.lookup_gate_constraints_lookup_inputs = lookup_inputs.vars;
    input.lookup_table_selectors = table_selectors.vars;
    input.lookup_table_lookup_options = table_options.vars;
    input.shifted_lookup_table_selectors = shifted_selectors.vars;
    input.shifted_lookup_table_lookup_options = shifted_options.vars;
    input.sorted = sorted.vars;

    const V mask = one - last - blind, mask_next = one - last_next - blind_next;
    auto factor = [&](const V &s, const V &t) { return (one + beta) * gamma + s + beta * t; };
    V g1 = one, h1 = one;
    for (std::size_t i = 0, k = 0, c = 0; i < gates; i++) {
        for (std::size_t j = 0; j < gate_sizes[i]; j++, c++) {
            std::vector<V> row = {ids.values[c]};
            for (std::size_t l = 0; l < input_sizes[c]; l++) {
                row.push_back(lookup_inputs.values[k++]);
            }
            const V x = gate_selectors.values[i] * combined(theta, row);
            g1 *= factor(x, x);
        }
    }
    for (std::size_t i = 0, k = 0; i < tables; i++) {
        for (std::size_t j = 0; j < option_sizes[i]; j++) {
            std::vector<V> row = {V(i + 1)}, next = {V(i + 1)};
            for (std::size_t l = 0; l < table_columns[i]; l++, k++) {
                row.push_back(table_options.values[k]);
                next.push_back(shifted_options.values[k]);
            }
            g1 *= factor(mask * table_selectors.values[i] * combined(theta, row),
                         mask_next * shifted_selectors.values[i] * combined(theta, next));
        }
    }
    V sum = V::zero();
    for (std::size_t i = 0; i < m; i++) {
        h1 *= factor(sorted.values[i], sorted.values[m + i]);
        if (i) {
            sum += alphas.values[i - 1] * (sorted.values[i] - sorted.values[2 * m + i - 1]);
        }
    }
    C c(cols.w(w), cols.c(1), none(), gates, gate_sizes, input_sizes, tables, option_sizes, table_columns);
    Case<F, C, std::size_t, Sizes, Sizes, std::size_t, Sizes, Sizes> r {
        c,
        input,
        in.values,
        {(one - vl) * l0, last * (vl * vl - vl), mask * (vl_next * h1 - vl * g1), l0 * sum},
        {gates, gate_sizes, input_sizes, tables, option_sizes, table_columns}};
    r.attempts = 20;
    return r;
}
VP_REGISTER(lookup_argument)

VP_COMPONENT(final_polynomial, 60, 2000) {
    using C = comp::final_polynomial_check<A>;
    Inputs<F> in(cols);
    const std::size_t power = cfg.range(1, 6), lambda = cfg.range(1, 4);
    Elements coefficients(g, in, power + 1), points(g, in, lambda);
    auto at = [&](const V &x) {
        V r = V::zero();
        for (const V &c : coefficients.values) {
            r = r * x + c;
        }
        return r;
    };
    std::vector<V> values;
    for (const V &x : points.values) {
        values.push_back(at(x));
        values.push_back(at(-x));
    }
    const bool wrong = g.chance(1, 3);
    if (wrong) {
        values[g.below(values.size())] += V(1 + g.below(3));
    }
    g.note() << "degree " << power << " at " << lambda << " points" << (wrong ? ", one value wrong" : "");
    g.nontrivial(power > 1);
    C c(cols.w(3), cols.c(1), none(), power, lambda);
    typename C::input_type input;
    input.coefficients = coefficients.vars;
    input.points = points.vars;
    for (const V &x : values) {
        input.values.push_back(in(x));
    }
    Case<F, C, std::size_t, std::size_t> r {c, input, in.values, {}, {power, lambda}};
    r.accepted = !wrong;
    return r;
}
VP_REGISTER(final_polynomial)

using Expression = nil::crypto3::math::expression<var>;

struct Tree {
    Expression e;
    V value;
};
// variables are named var(i, 0), their values are given
Tree some_expression(pbt::Gen &cfg, const std::vector<V> &values, std::size_t size) {
    if (size <= 1) {
        const V c = cfg.chance(1, 3) ? some_element<F>(cfg) : V(cfg.below(3));
        switch (cfg.below(4)) {
            case 0:
                return {Expression(c), c};
            case 1: {
                // a product of several variables with a coefficient
                std::vector<var> vars;
                V x = c;
                for (std::size_t i = 0, n = cfg.range(1, 3); i < n; i++) {
                    const std::size_t k = cfg.below(values.size());
                    vars.push_back(var(k, 0));
                    x *= values[k];
                }
                return {Expression(nil::crypto3::math::term<var>(vars, c)), x};
            }
            default: {
                const std::size_t k = cfg.below(values.size());
                return {Expression(var(k, 0)), values[k]};
            }
        }
    }
    if (cfg.chance(1, 5)) {
        Tree a = some_expression(cfg, values, size - 1);
        const std::size_t n = cfg.range(1, 9);
        V x = V::one();
        for (std::size_t i = 0; i < n; i++) {
            x *= a.value;
        }
        return {a.e.pow(n), x};
    }
    const std::size_t left = cfg.range(1, size - 1);
    Tree a = some_expression(cfg, values, left), b = some_expression(cfg, values, size - left);
    switch (cfg.below(3)) {
        case 0:
            return {a.e + b.e, a.value + b.value};
        case 1:
            return {a.e - b.e, a.value - b.value};
        default:
            return {a.e * b.e, a.value * b.value};
    }
}

VP_COMPONENT(expression, 150, 4000) {
    using C = comp::detail::expression_evaluation_component<A>;
    Inputs<F> in(cols);
    const std::size_t n = cfg.range(1, 5), size = cfg.range(1, 12);
    Elements x(g, in, n);
    Tree t = some_expression(cfg, x.values, size);
    // constants alone are put off and have no place in the table
    const std::size_t k = cfg.below(n);
    t = cfg.flag() ? Tree {t.e * var(k, 0), t.value * x.values[k]} : Tree {t.e - var(k, 0), t.value - x.values[k]};
    typename C::constraint_type constraint(t.e);
    g.note() << t.e << " at";
    for (const V &v : x.values) {
        g.note() << " " << v;
    }
    g.nontrivial(true);
    C c(cols.w(3), cols.c(1), none(), constraint);
    typename C::input_type input;
    for (std::size_t i = 0; i < n; i++) {
        input.variable_mapping[var(i, 0)] = x.vars[i];
    }
    return Case<F, C, typename C::constraint_type> {c, input, in.values, {t.value}, {constraint}};
}
VP_REGISTER(expression)

PBT_MAIN
