// Stretched components against the same components left as they are.
#include "circuit.hpp"

#include <nil/crypto3/algebra/curves/pallas.hpp>

#include <nil/blueprint/component.hpp>
#include <nil/blueprint/component_stretcher.hpp>
#include <nil/blueprint/manifest.hpp>

using F = nil::crypto3::algebra::curves::pallas::base_field_type;
using V = F::value_type;
using var = vp::var_t<F>;
using constraint = vp::snark::plonk_constraint<F>;
using lookup_constraint = vp::snark::plonk_lookup_constraint<F>;
using circuit_t = vp::circuit_t<F>;
using table_t = vp::table_t<F>;

// A component made of any gates and copy constraints over a few rows. A gate fixes a cell of column 0; all other
// cells are inputs, constants, copies of other cells or free.
namespace made {
    using position = std::pair<std::size_t, std::size_t>;    // column, row
    struct reference {
        bool constant;
        std::size_t column;
        int rotation;
    };
    using polynomial = std::vector<std::pair<unsigned, std::vector<reference>>>;
    struct gate {
        bool lookup;
        int out;
        std::vector<polynomial> sides;
        std::vector<std::size_t> rows;
        bool reads_out = false;
    };
    enum source { ABSENT, FREE, INPUT, CONSTANT, COPY, GATE };
    struct cell {
        source from = ABSENT;
        std::size_t a = 0, b = 0;
    };
    const char *const names[] = {"chunk_16_bits/full", "byte_range_table/full", "binary_xor_table/full"};

    struct component {
        std::size_t rows_amount, width, inputs;
        std::vector<gate> gates;
        std::map<position, cell> cells;
        std::map<std::size_t, V> constants;    // by row
        std::vector<position> outputs;

        struct input_type {
            std::vector<var> list;
            std::vector<std::reference_wrapper<var>> all_vars() {
                return std::vector<std::reference_wrapper<var>>(list.begin(), list.end());
            }
        };
        struct result_type {
            std::vector<var> output;
            std::vector<std::reference_wrapper<var>> all_vars() {
                return std::vector<std::reference_wrapper<var>>(output.begin(), output.end());
            }
        };

        var variable(const reference &r) const {
            return var(r.constant ? 0 : r.column, r.rotation, true, r.constant ? var::constant : var::witness);
        }
        constraint expression(const polynomial &p) const {
            constraint e;
            bool first = true;
            for (const auto &[k, l] : p) {
                constraint t = constraint(V(k));
                for (const auto &r : l) {
                    t = t * variable(r);
                }
                e = first ? t : constraint(e + t);
                first = false;
            }
            return e;
        }
        result_type result(std::size_t row) const {
            result_type r;
            for (const auto &[c, i] : outputs) {
                r.output.push_back(var(c, row + i, false));
            }
            return r;
        }

        // The values of all cells for given inputs.
        struct values {
            const component &c;
            const std::vector<V> &in;
            std::map<position, V> known;
            V at(const position &p) {
                auto it = known.find(p);
                if (it != known.end()) {
                    return it->second;
                }
                const cell &x = c.cells.at(p);
                V v = V::zero();
                switch (x.from) {
                    case ABSENT:
                        break;
                    case FREE:
                        v = V(x.a);
                        break;
                    case INPUT:
                        v = in.at(x.a);
                        break;
                    case CONSTANT:
                        v = c.constants.at(x.a);
                        break;
                    case COPY:
                        v = at({x.a, x.b});
                        break;
                    case GATE:
                        v = polynomial_at(c.gates[x.a].sides[0], x.b);
                        break;
                }
                known[p] = v;
                return v;
            }
            V polynomial_at(const polynomial &p, std::size_t row) {
                V s = V::zero();
                for (const auto &[k, l] : p) {
                    V t(k);
                    for (const auto &r : l) {
                        t *= r.constant ? c.constants.at(row + r.rotation) : at({r.column, row + r.rotation});
                    }
                    s += t;
                }
                return s;
            }
        };
    };

    component::result_type generate_circuit(const component &c, circuit_t &bp, table_t &t,
                                            const component::input_type in, std::uint32_t row) {
        for (const auto &gate : c.gates) {
            std::size_t selector;
            if (gate.lookup) {
                std::vector<lookup_constraint> l;
                for (std::size_t i = 0; i < gate.sides.size(); i++) {
                    bp.reserve_table(names[i]);
                    lookup_constraint one;
                    one.table_id = bp.get_reserved_indices().at(names[i]);
                    one.lookup_input = {c.expression(gate.sides[i])};
                    l.push_back(one);
                }
                selector = bp.add_lookup_gate(l);
            } else {
                const var out(0, gate.out, true);
                std::vector<constraint> l = {constraint(c.expression(gate.sides[0]) - out)};
                for (std::size_t i = 1; i < gate.sides.size(); i++) {
                    l.push_back(constraint((out - c.expression(gate.sides[0])) * c.expression(gate.sides[i])));
                }
                selector = bp.add_gate(l);
            }
            for (std::size_t r : gate.rows) {
                t.enable_selector(selector, row + r);
            }
        }
        for (const auto &[p, x] : c.cells) {
            const var v(p.first, row + p.second, false);
            if (x.from == INPUT) {
                bp.add_copy_constraint({v, in.list.at(x.a)});
            } else if (x.from == CONSTANT) {
                bp.add_copy_constraint({var(0, row + x.a, false, var::constant), v});
            } else if (x.from == COPY) {
                bp.add_copy_constraint({v, var(x.a, row + x.b, false)});
            }
        }
        for (const auto &[r, x] : c.constants) {
            t.constant(0, row + r) = x;
        }
        return c.result(row);
    }
    component::result_type generate_assignments(const component &c, table_t &t, const component::input_type in,
                                                std::uint32_t row) {
        std::vector<V> l;
        for (const auto &v : in.list) {
            l.push_back(var_value(t, v));
        }
        component::values all {c, l, {}};
        for (const auto &[p, x] : c.cells) {
            if (x.from != ABSENT) {
                t.witness(p.first, row + p.second) = all.at(p);
            }
        }
        return c.result(row);
    }
}    // namespace made

namespace nil {
    namespace blueprint {
        namespace components {
            template<>
            class input_type_converter<made::component> {
            public:
                static made::component::input_type convert(const made::component::input_type &in, table_t &t, table_t &tmp) {
                    made::component::input_type r;
                    for (std::size_t i = 0; i < in.list.size(); i++) {
                        tmp.public_input(0, i) = var_value(t, in.list[i]);
                        r.list.push_back(var(0, i, false, var::public_input));
                    }
                    return r;
                }
                static var deconvert_var(const made::component::input_type &in, var v) {
                    REQUIRE(v.type == var::public_input, "converted input of another kind");
                    return in.list.at(v.rotation);
                }
            };
            template<>
            class result_type_converter<made::component> {
            public:
                static made::component::result_type convert(const component_stretcher<F, made::component> &c,
                                                            const made::component::result_type old,
                                                            const made::component::input_type &in, std::size_t row) {
                    made::component::result_type r;
                    for (const auto &v : old.output) {
                        r.output.push_back(c.move_var(v, row + c.line_mapping[v.rotation], in));
                    }
                    return r;
                }
            };
        }    // namespace components
    }        // namespace blueprint
}    // namespace nil

namespace {
    using stretcher = nil::blueprint::components::component_stretcher<F, made::component>;
    using made::position;

    made::component some_component(pbt::Gen &g, bool lookups) {
        made::component c;
        const std::size_t n = c.rows_amount = g.chance(1, 4) ? g.range(1, 3) : g.range(4, 12);
        c.width = g.range(2, 3);
        c.inputs = g.range(1, 4);
        const std::size_t constants = g.below(4);    // 0 none, 1 in gates, 2 in copies, 3 both
        std::set<std::size_t> fixed;
        std::set<position> needed;
        for (std::size_t k = g.range(1, 6); k > 0; k--) {
            made::gate gate;
            gate.lookup = lookups && g.chance(1, 3);
            const std::size_t spread = g.chance(1, 3) ? g.range(1, 2) : 0;    // how often other rows are read
            auto rotation = [&](int below) {
                const int r = g.below(3) < spread ? int(g.below(3)) - 1 : 0;
                return std::min(r, below);
            };
            gate.out = rotation(1);
            auto some_polynomial = [&](int below) {
                made::polynomial p;
                for (std::size_t i = g.range(1, 3); i > 0; i--) {
                    std::vector<made::reference> l;
                    for (std::size_t j = g.below(3); j > 0; j--) {
                        if ((constants & 1) && g.chance(1, 3)) {
                            l.push_back({true, 0, rotation(1)});
                        } else if (below >= -1 && g.chance(1, 3)) {
                            l.push_back({false, 0, rotation(below)});
                        } else {
                            l.push_back({false, g.range(1, c.width - 1), rotation(1)});
                        }
                    }
                    p.push_back({unsigned(g.range(1, 5)), l});
                }
                // never a constant, which would be no constraint of any cell
                p.push_back({1u, {{false, g.range(1, c.width - 1), 0}}});
                return p;
            };
            for (std::size_t i = g.range(1, 3); i > 0; i--) {
                gate.sides.push_back(some_polynomial(gate.lookup ? 1 : gate.out - 1));
            }
            int low = std::min(0, gate.out), high = std::max(0, gate.out);
            for (const auto &p : gate.sides) {
                for (const auto &t : p) {
                    for (const auto &r : t.second) {
                        low = std::min(low, r.rotation);
                        high = std::max(high, r.rotation);
                    }
                }
            }
            const std::size_t every = g.chance(1, 4) ? 1 : g.range(2, 6);
            for (std::size_t r = 0; r < n; r++) {
                if (int(r) + low < 0 || int(r) + high >= int(n) || g.below(every) != 0 ||
                    (!gate.lookup && fixed.count(r + gate.out))) {
                    continue;
                }
                gate.rows.push_back(r);
                if (!gate.lookup) {
                    fixed.insert(r + gate.out);
                    c.cells[{0, r + gate.out}] = {made::GATE, c.gates.size(), r};
                }
                for (const auto &p : gate.sides) {
                    for (const auto &t : p) {
                        for (const auto &x : t.second) {
                            if (x.constant) {
                                c.constants[r + x.rotation] = V(g.range(1, 1000));
                            } else {
                                needed.insert({x.column, r + x.rotation});
                            }
                        }
                    }
                }
            }
            c.gates.push_back(gate);
        }
        for (std::size_t r = 0; r < n; r++) {
            for (std::size_t col = 0; col < c.width; col++) {
                if (c.cells.count({col, r})) {
                    continue;
                }
                made::cell x;
                switch (g.below(needed.count({col, r}) ? 5 : 6)) {
                    case 0:
                        x = {made::INPUT, g.below(c.inputs), 0};
                        break;
                    case 1:
                        if (constants & 2) {
                            x = {made::CONSTANT, g.below(n), 0};
                            if (c.constants.count(x.a) == 0) {
                                c.constants[x.a] = V(g.range(1, 1000));
                            }
                            break;
                        }
                        [[fallthrough]];
                    case 2:
                    case 3:
                        if (r >= 3 && g.flag()) {
                            // far enough above to depend on nothing which depends on this cell
                            const position p {0, g.below(r - 2)};
                            if (c.cells.at(p).from != made::ABSENT) {
                                x = {made::COPY, p.first, p.second};
                                break;
                            }
                        } else if (r >= 1 && c.width > 1) {
                            const position p {g.range(1, c.width - 1), g.below(r)};
                            if (col > 0 && c.cells.at(p).from != made::ABSENT && c.cells.at(p).from != made::COPY) {
                                x = {made::COPY, p.first, p.second};
                                break;
                            }
                        }
                        [[fallthrough]];
                    case 4:
                        x = {made::FREE, g.range(0, 1000), 0};
                        break;
                    default:
                        break;
                }
                c.cells[{col, r}] = x;
            }
        }
        std::vector<position> present;
        for (const auto &[p, x] : c.cells) {
            if (x.from != made::ABSENT) {
                present.push_back(p);
            }
        }
        if (!present.empty()) {
            for (std::size_t k = g.range(1, 3); k > 0; k--) {
                c.outputs.push_back(present[g.below(present.size())]);
            }
        }
        return c;
    }

    using tables_t = std::map<std::string, std::shared_ptr<vp::LookupTable<F>>>;

    std::size_t noticed(vp::System<F> &s, std::size_t columns, std::size_t first, std::size_t end) {
        std::size_t n = 0;
        for (std::size_t c = 0; c < columns; c++) {
            for (std::size_t r = first; r < end; r++) {
                s.value[c][r] += V(0x123456789abcdu);
                n += !s.problem().empty();
                s.value[c][r] -= V(0x123456789abcdu);
            }
        }
        return n;
    }

    void run(pbt::Gen &g, bool lookups) {
        made::component c = some_component(g, lookups);
        const std::size_t coefficient = g.chance(1, 8) ? 1 : g.range(2, 4);
        const std::size_t wide = coefficient * c.width + g.below(2);
        const std::size_t before = g.below(4), inputs = g.range(1, 5), times = g.range(1, 2);
        g.note() << c.rows_amount << " rows of " << c.width << " columns, " << c.gates.size() << " gates, "
                 << c.constants.size() << " constants, to " << wide << " columns; ";
        for (const auto &gate : c.gates) {
            g.note() << (gate.lookup ? "lookup" : "gate");
            for (const auto &p : gate.sides) {
                g.note() << " " << c.expression(p);
            }
            g.note() << " = w0(" << gate.out << ") at";
            for (auto r : gate.rows) {
                g.note() << " " << r;
            }
            g.note() << "; ";
        }
        for (const auto &[p, x] : c.cells) {
            if (x.from != made::ABSENT && x.from != made::GATE) {
                g.note() << "w" << p.first << "," << p.second << " " << "-fick"[x.from] << x.a << "," << x.b << "; ";
            }
        }

        circuit_t bp;
        table_t t(wide + 1, 1, 1, 12);
        stretcher s(c, c.width, wide);
        for (std::size_t i = 0; i < inputs; i++) {
            t.public_input(0, i) = V(g.range(0, 1000));
            t.witness(wide, i) = V(g.range(0, 1000));
        }
        tables_t tables;
        for (const char *name : made::names) {
            tables[name] = std::make_shared<vp::LookupTable<F>>();
        }
        std::vector<std::vector<V>> given;
        std::vector<std::vector<V>> expected;
        std::vector<made::component::result_type> results;
        std::size_t row = before;
        std::vector<std::size_t> starts;
        for (std::size_t k = 0; k < times; k++) {
            made::component::input_type in;
            std::vector<V> values;
            for (std::size_t i = 0; i < c.inputs; i++) {
                var v(0, g.below(inputs), false, var::public_input);
                if (k > 0 && !c.outputs.empty() && g.flag()) {
                    v = results[0].output[g.below(c.outputs.size())];
                } else if (g.chance(1, 3)) {
                    v = var(wide, g.below(inputs), false);
                }
                in.list.push_back(v);
                values.push_back(var_value(t, v));
                g.note() << v << " ";
            }
            made::component::values all {c, values, {}};
            std::vector<V> outputs;
            for (const auto &p : c.outputs) {
                outputs.push_back(all.at(p));
            }
            for (const auto &gate : c.gates) {
                for (std::size_t i = 0; gate.lookup && i < gate.sides.size(); i++) {
                    for (std::size_t r : gate.rows) {
                        const std::vector<V> item = {all.polynomial_at(gate.sides[i], r)};
                        if (tables[made::names[i]]->set.insert(item).second) {
                            tables[made::names[i]]->rows.push_back(item);
                        }
                    }
                }
            }
            made::component::result_type r;
            if (g.flag()) {
                r = generate_circuit(s, bp, t, in, row);
                const auto r2 = generate_assignments(s, t, in, row);
                REQUIRE(r.output == r2.output, "circuit and assignment of a stretched component have different results");
            } else {
                r = generate_assignments(s, t, in, row);
                const auto r2 = generate_circuit(s, bp, t, in, row);
                REQUIRE(r.output == r2.output, "circuit and assignment of a stretched component have different results");
            }
            REQUIRE(s.rows_amount >= 1 && s.rows_amount <= 2 * c.rows_amount,
                    s.rows_amount << " rows for a component of " << c.rows_amount);
            for (std::size_t i = 0; i < outputs.size(); i++) {
                REQUIRE(r.output.size() == outputs.size() && r.output[i].type == var::witness &&
                            var_value(t, r.output[i]) == outputs[i],
                        "result " << i << " is at " << r.output[i] << " instead of " << outputs[i]);
                g.checked();
            }
            // nothing outside of the declared area
            for (std::size_t w = 0; w < wide; w++) {
                REQUIRE(t.witness_column_size(w) <= row + s.rows_amount,
                        "witness column " << w << " reaches row " << t.witness_column_size(w) - row << " of " << s.rows_amount);
            }
            REQUIRE(t.constant_column_size(0) <= row + s.rows_amount,
                    "constants reach row " << t.constant_column_size(0) - row << " of " << s.rows_amount);
            for (std::size_t w = 0; w < t.selectors_amount(); w++) {
                REQUIRE(t.selector_column_size(w) <= row + s.rows_amount, "selector " << w << " reaches a row below the component");
            }
            g.checked(3);
            given.push_back(values);
            expected.push_back(outputs);
            results.push_back(r);
            starts.push_back(row);
            row += s.rows_amount;
        }
        for (std::size_t k = 0; k < times; k++) {
            for (std::size_t i = 0; i < expected[k].size(); i++) {
                REQUIRE(var_value(t, results[k].output[i]) == expected[k][i], "result " << i << " of the first one is overwritten");
            }
        }
        for (std::size_t r = 0; r < before; r++) {
            for (std::size_t w = 0; w < wide; w++) {
                REQUIRE(r >= t.witness_column_size(w) || t.witness(w, r).is_zero(), "a cell above the component is written");
            }
        }
        vp::System<F> sys(bp, t, row, false, tables);
        const std::string problem = sys.problem();
        REQUIRE(problem.empty(), "stretched: " << problem);

        // the same for the component as it is
        circuit_t bp2;
        table_t t2(c.width, 1, 1, 12);
        const std::size_t first2 = 0;
        made::component::input_type in2;
        for (std::size_t i = 0; i < c.inputs; i++) {
            t2.public_input(0, i) = given[0][i];
            in2.list.push_back(var(0, i, false, var::public_input));
        }
        generate_circuit(c, bp2, t2, in2, first2);
        generate_assignments(c, t2, in2, first2);
        vp::System<F> sys2(bp2, t2, c.rows_amount, false, tables);
        REQUIRE(sys2.problem().empty(), "the check's own component is wrong: " << sys2.problem());
        // every change of a cell is noticed in one iff it is in the other
        circuit_t bp3;
        table_t t3(wide + 1, 1, 1, 12);
        stretcher s3(c, c.width, wide);
        for (std::size_t i = 0; i < c.inputs; i++) {
            t3.public_input(0, i) = given[0][i];
        }
        generate_circuit(s3, bp3, t3, in2, before);
        generate_assignments(s3, t3, in2, before);
        vp::System<F> sys3(bp3, t3, before + s3.rows_amount, false, tables);
        REQUIRE(sys3.problem().empty(), "stretched: " << sys3.problem());
        const std::size_t n2 = noticed(sys2, c.width, 0, c.rows_amount);
        const std::size_t n3 = noticed(sys3, wide, before, before + s3.rows_amount);
        REQUIRE(n2 == n3, "changes of " << n3 << " cells are noticed after stretching, " << n2 << " before");
        g.checked(3);
        std::size_t active = 0;
        for (const auto &gate : c.gates) {
            active += gate.rows.size();
        }
        if (s.rows_amount < c.rows_amount) {
            g.label("fewer rows");
        }
        g.nontrivial(active >= 2 && s.rows_amount < c.rows_amount);
    }
}    // namespace

PBT_TEST(gates, 30000, 500000) {
    run(g, false);
}
PBT_TEST(lookups, 15000, 250000) {
    run(g, true);
}

PBT_MAIN
