// Transitions of the zkEVM state and the selector of one of many options.
#include "circuit.hpp"

#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/fields/goldilocks64/base_field.hpp>

#include <nil/blueprint/zkevm/state.hpp>
#include <nil/blueprint/zkevm/state_selector.hpp>

using namespace nil::blueprint;

namespace {
    template<typename F>
    typename F::value_type integer(std::int64_t x) {
        using V = typename F::value_type;
        const std::uint64_t u = x < 0 ? std::uint64_t(0) - std::uint64_t(x) : std::uint64_t(x);
        V v = V(unsigned(u >> 32)) * V(65536u) * V(65536u) + V(unsigned(u & 0xffffffffu));
        return x < 0 ? -v : v;
    }
    std::int64_t some_integer(pbt::Gen &g) {
        switch (g.below(4)) {
            case 0:
                return g.range(-2, 2);
            case 1:
                return g.range(-1000, 1000);
            case 2:
                return std::int64_t(g.bits64()) >> g.range(1, 63);
            default:
                return g.range(0, 1) ? std::int64_t(1) << g.below(62) : -(std::int64_t(1) << g.below(62));
        }
    }

    // Random transitions of every variable, on rows where each variable does or does not follow its own.
    template<typename F>
    void transitions(pbt::Gen &g) {
        using V = typename F::value_type;
        using var = vp::var_t<F>;
        const std::size_t names = 4;
        const char *const name[] = {"pc", "stack_size", "memory_size", "curr_gas"};
        vp::circuit_t<F> bp;
        const std::size_t witnesses = g.range(names + 3, 12), row = g.below(3);
        vp::table_t<F> table(witnesses, 0, 2, 3);
        std::vector<std::size_t> columns;
        for (std::size_t i = 0; i < witnesses; i++) {
            columns.insert(columns.begin() + g.below(columns.size() + 1), i);
        }
        zkevm_state<F> state;
        state_var<F> *const variables[] = {&state.pc, &state.stack_size, &state.memory_size, &state.curr_gas};
        for (std::size_t i = 0; i < names; i++) {
            *variables[i] = state_var<F>(columns[i], var::witness, vp::some_element<F>(g));
        }
        std::size_t spare = names;
        for (auto *v : {&state.step_selection, &state.rows_until_next_op, &state.rows_until_next_op_inv}) {
            *v = state_var<F>(columns[spare++], var::witness, vp::some_element<F>(g));
        }
        if (g.chance(1, 4)) {    // a variable may also be kept in a constant column
            *variables[g.below(names)] = state_var<F>(g.below(2), var::constant, vp::some_element<F>(g));
        }
        std::vector<V> before, after;
        for (auto *v : variables) {
            before.push_back(v->value);
        }

        zkevm_state_transition t;
        transition_type *const kinds[] = {&t.pc, &t.stack_size, &t.memory_size, &t.curr_gas};
        const bool frozen = g.chance(1, 8);
        if (frozen) {
            t = generate_frozen_state_transition();
            g.note() << "frozen ";
        }
        bool expected = true;
        for (std::size_t i = 0; i < names; i++) {
            const std::int64_t value = some_integer(g);
            V right = before[i];
            bool any = false;
            if (!frozen) {
                switch (g.below(5)) {
                    case 0:
                        kinds[i]->t = transition_type::DEFAULT;
                        right = i == 0 ? before[i] + V(1u) : before[i];
                        break;
                    case 1:
                        kinds[i]->t = transition_type::ANY;
                        any = true;
                        break;
                    case 2:
                        kinds[i]->t = transition_type::SAME_VALUE;
                        break;
                    case 3:
                        kinds[i]->t = transition_type::DELTA;
                        right = before[i] + integer<F>(value);
                        break;
                    default:
                        kinds[i]->t = transition_type::NEW_VALUE;
                        right = integer<F>(value);
                }
                if (kinds[i]->t == transition_type::DELTA || kinds[i]->t == transition_type::NEW_VALUE || g.flag()) {
                    kinds[i]->value = value;
                }
            }
            V now = right;
            switch (g.below(12)) {
                case 0:
                    now = right + V(1u);
                    break;
                case 1:
                    now = before[i];
                    break;
                case 2:
                    now = vp::some_element<F>(g);
                    break;
                case 3:
                    now = integer<F>(value);
                    break;
            }
            expected = expected && (any || now == right);
            after.push_back(now);
            g.note() << name[i] << " " << *kinds[i] << " " << before[i] << "->" << now << "; ";
        }
        const auto constraints = generate_transition_constraints(state, t);
        const std::size_t selector = bp.add_gate(constraints);
        table.enable_selector(selector, row);
        state.assign_state(table, row);
        if (g.flag()) {
            for (std::size_t i = 0; i < names; i++) {
                variables[i]->set_value(after[i]);
            }
            state.assign_state(table, row + 1);
        } else {
            state.assign_state(table, row + 1);
            for (std::size_t i = 0; i < names; i++) {
                variables[i]->set_and_assign_value(table, row + 1, after[i]);
            }
        }
        for (std::size_t i = 0; i < names; i++) {
            const auto &c = variables[i]->type == var::witness ? table.witness(variables[i]->selector) :
                                                                 table.constant(variables[i]->selector);
            REQUIRE(c.at(row) == before[i] && c.at(row + 1) == after[i],
                    name[i] << " was " << before[i] << " and became " << after[i] << " but the table holds " << c.at(row)
                            << " and " << c.at(row + 1));
        }
        vp::System<F> s(bp, table, row + 2);
        const std::string problem = s.problem();
        REQUIRE(problem.empty() == expected, "the rows " << (expected ? "follow" : "do not follow")
                                                         << " the transition and are "
                                                         << (problem.empty() ? "accepted" : "rejected: " + problem));
        g.label(expected ? "followed" : "broken");
        g.nontrivial();
    }

    template<typename F>
    void selector(pbt::Gen &g) {
        using V = typename F::value_type;
        using var = vp::var_t<F>;
        using component = components::plonk_state_selector<F>;
        const std::size_t options = g.chance(1, 8) ? g.range(1, 160) : g.range(1, 20);
        const std::size_t index = g.below(options), row = g.below(3);
        g.note() << "option " << index << " of " << options;
        g.label(options % 2 ? "odd" : "even");
        const std::size_t needed = component::get_manifest(options).witness_amount->max_value_if_sat();
        const std::size_t witnesses = needed + g.below(3);
        std::vector<std::uint32_t> columns;
        for (std::size_t i = 0; i < witnesses; i++) {
            columns.insert(columns.begin() + g.below(columns.size() + 1), i);
        }
        columns.resize(needed);
        component c(columns, std::array<std::uint32_t, 0>(), std::array<std::uint32_t, 0>(), options);
        vp::circuit_t<F> bp;
        vp::table_t<F> table(witnesses + options, 1, 0, 4);
        // what every option selects is kept in further columns
        const auto expressions = [&]() {
            std::vector<typename component::constraint_type> r;
            for (std::size_t i = 0; i < options; i++) {
                r.push_back(c.option_constraint(i) - var(witnesses + i, 0, true));
            }
            return r;
        };
        const var outside(0, 0, false, var::public_input);
        if (g.chance(1, 4)) {
            // the row was used for another option before
            table.public_input(0, 0) = V(unsigned(g.below(options)));
            generate_assignments(c, table, {outside}, std::uint32_t(row));
        }
        table.public_input(0, 0) = V(unsigned(index));
        // either the index comes from elsewhere or the gate is used alone, on the index in the row
        const bool whole = g.flag();
        var item = outside;
        if (!whole) {
            item = c.option_variable();
            REQUIRE(item.relative && item.rotation == 0, "variable of the option is at " << item);
            table.witness(item.index, row) = V(unsigned(index));
            item = var(item.index, row, false);
        }
        typename component::input_type input = {item};
        generate_assignments(c, table, input, std::uint32_t(row));
        if (whole) {
            generate_circuit(c, bp, table, input, row);
        } else {
            table.enable_selector(bp.add_gate(c.generate_constraints()), row);
        }
        for (int offset : {-1, 0, 1}) {
            const var v = c.option_variable(offset);
            REQUIRE(v.relative && v.rotation == offset && v.index == c.option_variable().index && v.type == var::witness,
                    "variable of the option with offset " << offset << " is " << v);
        }
        const std::size_t gate = bp.add_gate(expressions());
        table.enable_selector(gate, row);
        {
            vp::System<F> s(bp, table, row + 1);
            // values of the expressions
            s.prepare();
            s.lock_if([&](std::size_t col, std::size_t) { return col < witnesses; });
            vp::Rng rng {1};
            auto a = s.attempt({}, rng, options + 1);
            if (!a.satisfied) {
                REQUIRE(false, "the row filled for the option is not accepted: " << s.problem());
            }
            for (std::size_t i = 0; i < options; i++) {
                auto it = a.changed.find(s.class_id(var(witnesses + i, row, false)));
                const bool selected = it != a.changed.end() && !it->second.is_zero();
                REQUIRE(selected == (i == index), "the row is filled for option " << index << " but option " << i
                                                                                  << (selected ? " is" : " is not")
                                                                                  << " selected");
                if (selected) {
                    table.witness(witnesses + i, row) = it->second;
                }
            }
        }
        vp::System<F> s(bp, table, row + 1);
        REQUIRE(s.problem().empty(), "the row filled for the option is not accepted: " << s.problem());
        g.nontrivial();
        std::vector<var> outputs;
        for (std::size_t i = 0; i < options; i++) {
            outputs.emplace_back(witnesses + i, row, false);
        }
        const auto selects = [&](const std::vector<V> &got, std::size_t which) {
            for (std::size_t i = 0; i < options; i++) {
                if (got[i].is_zero() == (i == which)) {
                    return std::string("option " + std::to_string(i) + (i == which ? " is not" : " is") +
                                       " selected by index " + std::to_string(which));
                }
            }
            return std::string();
        };
        const std::uint64_t seed = g.bits64();
        if (whole) {
            const std::string other = vp::other_solution<F>(s, outputs, seed, 40, nullptr, 64, [&](const std::vector<V> &got) {
                return selects(got, index);
            });
            REQUIRE(other.empty(), other);
        } else {
            // any accepted row is the one of the index in it
            outputs.push_back(item);
            const std::string other = vp::other_solution<F>(s, outputs, seed, 40, nullptr, 64, [&](const std::vector<V> &got) {
                for (std::size_t i = 0; i < options; i++) {
                    if (got[options] == V(unsigned(i))) {
                        return selects(got, i);
                    }
                }
                std::ostringstream os;
                os << got[options] << " is one of " << options << " options";
                return os.str();
            });
            REQUIRE(other.empty(), other);
        }
        g.checked(40);
        // no row stands for anything but an option
        if (whole) {
            const V beyond = g.flag() ? V(unsigned(options + g.below(3))) : vp::some_element<F>(g);
            for (std::size_t i = 0; i < options; i++) {
                if (beyond == V(unsigned(i))) {
                    return;
                }
            }
            table.public_input(0, 0) = beyond;
            table.witness(c.option_variable().index, row) = beyond;
            vp::System<F> wrong(bp, table, row + 1);
            REQUIRE(!vp::mended(wrong, seed, 30), beyond << " is accepted as one of " << options << " options");
        }
    }
}    // namespace

PBT_TEST(transitions, 100000, 2000000) {
    if (g.flag()) {
        transitions<nil::crypto3::algebra::fields::goldilocks64>(g);
    } else {
        transitions<nil::crypto3::algebra::curves::pallas::base_field_type>(g);
    }
}

PBT_TEST(selector, 24000, 400000) {
    if (g.flag()) {
        selector<nil::crypto3::algebra::fields::goldilocks64>(g);
    } else {
        selector<nil::crypto3::algebra::curves::pallas::base_field_type>(g);
    }
}

PBT_MAIN
