// Batched components and constants against direct computation.
#include "circuit.hpp"

#include <nil/crypto3/algebra/curves/pallas.hpp>

#include <nil/blueprint/basic_non_native_policy.hpp>
#include <nil/blueprint/component.hpp>
#include <nil/blueprint/component_batch.hpp>
#include <nil/blueprint/manifest.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division_or_zero.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/subtraction.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/swap.hpp>

using F = nil::crypto3::algebra::curves::pallas::base_field_type;
using V = F::value_type;
using A = vp::arithmetization<F>;
using var = vp::var_t<F>;
using constraint = vp::snark::plonk_constraint<F>;
using lookup_constraint = vp::snark::plonk_lookup_constraint<F>;

// A component with parameters: (k x + y, x y + e) in a row of 4 + e columns.
namespace nil {
    namespace blueprint {
        namespace components {
            class two_sums : public plonk_component<F> {
            public:
                using component_type = plonk_component<F>;
                using var = component_type::var;
                using manifest_type = plonk_component_manifest;
                static manifest_type get_manifest(std::size_t, std::size_t e) {
                    return manifest_type(std::shared_ptr<manifest_param>(new manifest_single_value_param(4 + e)), false);
                }
                static constexpr std::size_t rows_amount = 1;
                std::size_t k, e;
                struct input_type {
                    var x, y;
                    std::vector<std::reference_wrapper<var>> all_vars() {
                        return {x, y};
                    }
                };
                struct result_type {
                    var s = var(0, 0, false), p = var(0, 0, false);
                    result_type(const two_sums &c, std::uint32_t row) {
                        s = var(c.W(2 + c.e), row, false);
                        p = var(c.W(3 + c.e), row, false);
                    }
                    std::vector<std::reference_wrapper<var>> all_vars() {
                        return {s, p};
                    }
                };
                template<typename W, typename C, typename P>
                two_sums(W w, C c, P p, std::size_t k_, std::size_t e_) :
                    component_type(w, c, p, get_manifest(k_, e_)), k(k_), e(e_) {}
            };
            inline two_sums::result_type generate_assignments(const two_sums &c, vp::table_t<F> &t,
                                                              const two_sums::input_type in, std::uint32_t row) {
                const V x = var_value(t, in.x), y = var_value(t, in.y);
                t.witness(c.W(0), row) = x;
                t.witness(c.W(1), row) = y;
                for (std::size_t i = 0; i < c.e; i++) {
                    t.witness(c.W(2 + i), row) = V(i + 1);
                }
                t.witness(c.W(2 + c.e), row) = V(c.k) * x + y;
                t.witness(c.W(3 + c.e), row) = x * y + V(c.e);
                return two_sums::result_type(c, row);
            }
            inline two_sums::result_type generate_empty_assignments(const two_sums &c, vp::table_t<F> &t,
                                                                    const two_sums::input_type in, std::uint32_t row) {
                return generate_assignments(c, t, in, row);
            }
            inline std::size_t generate_gates(const two_sums &c, vp::circuit_t<F> &bp, vp::table_t<F> &,
                                              const two_sums::input_type &) {
                std::vector<constraint> l = {
                    constraint(V(c.k) * var(c.W(0), 0) + var(c.W(1), 0) - var(c.W(2 + c.e), 0)),
                    constraint(var(c.W(0), 0) * var(c.W(1), 0) + V(c.e) - var(c.W(3 + c.e), 0))};
                for (std::size_t i = 0; i < c.e; i++) {
                    l.push_back(constraint(var(c.W(2 + i), 0) - V(i + 1)));
                }
                return bp.add_gate(l);
            }
            inline void generate_copy_constraints(const two_sums &c, vp::circuit_t<F> &bp, vp::table_t<F> &,
                                                  const two_sums::input_type &in, std::size_t row) {
                bp.add_copy_constraint({in.x, var(c.W(0), row, false)});
                bp.add_copy_constraint({in.y, var(c.W(1), row, false)});
            }
        }    // namespace components
    }        // namespace blueprint
}    // namespace nil

namespace {
    namespace comp = nil::blueprint::components;
    using policy = nil::blueprint::basic_non_native_policy<F>;
    using addition = comp::addition<A, F, policy>;
    using multiplication = comp::multiplication<A, F, policy>;
    using subtraction = comp::subtraction<A, F, policy>;
    using division_or_zero = comp::division_or_zero<A, F>;
    using mul_by_constant = comp::mul_by_constant<A, F>;
    using swap_t = comp::flexible_swap<A, F>;
    using comp::two_sums;

    enum kind { ADD, MUL, SUB, DIV, SWAP, SUMS, kinds };
    const char *const names[] = {"add", "mul", "sub", "div", "swap", "sums"};
    struct op {
        kind what;
        std::vector<std::size_t> in;    // indices of values
        std::size_t k = 0, e = 0, first = 0;    // parameters, index of the first result
        std::size_t width() const {
            switch (what) {
                case DIV:
                case SWAP:
                    return 5;
                case SUMS:
                    return 4 + e;
                default:
                    return 3;
            }
        }
        std::tuple<int, std::size_t, std::size_t> batch() const {
            return {what, k, e};
        }
    };
    struct entry {
        var v;
        V x;
        bool bit;
    };

    template<typename R>
    std::vector<var> list(R r) {
        std::vector<var> l;
        for (auto v : r.all_vars()) {
            l.push_back(v.get());
        }
        return l;
    }
    template<typename C, typename... P>
    std::vector<var> add(vp::table_t<F> &t, bool circuit, typename C::input_type in, P... p) {
        return circuit ? list(t.add_input_to_batch_circuit<C>(in, p...)) : list(t.add_input_to_batch_assignment<C>(in, p...));
    }
    std::vector<var> add(vp::table_t<F> &t, const op &o, const std::vector<entry> &e, bool circuit) {
        const var a = e[o.in[0]].v, b = e[o.in[1]].v;
        switch (o.what) {
            case ADD:
                return add<addition>(t, circuit, {a, b});
            case MUL:
                return add<multiplication>(t, circuit, {a, b});
            case SUB:
                return add<subtraction>(t, circuit, {a, b});
            case DIV:
                return add<division_or_zero>(t, circuit, {a, b});
            case SWAP: {
                swap_t::input_type in;
                in.inp = {e[o.in[2]].v, a, b};
                return add<swap_t>(t, circuit, in);
            }
            default:
                return add<two_sums>(t, circuit, {a, b}, o.k, o.e);
        }
    }
    std::vector<V> compute(const op &o, const std::vector<entry> &e) {
        const V a = e[o.in[0]].x, b = e[o.in[1]].x;
        switch (o.what) {
            case ADD:
                return {a + b};
            case MUL:
                return {a * b};
            case SUB:
                return {a - b};
            case DIV:
                return {b.is_zero() ? V::zero() : a * b.inversed()};
            case SWAP:
                return e[o.in[2]].x.is_zero() ? std::vector<V> {a, b} : std::vector<V> {b, a};
            default:
                return {V(o.k) * a + b, a * b + V(o.e)};
        }
    }
}    // namespace

PBT_TEST(results, 20000, 200000) {
    const std::size_t width = g.range(6, 15);
    vp::table_t<F> t(width, 1, 2, 40);
    vp::circuit_t<F> bp;
    std::vector<entry> e;
    std::size_t publics = 0, row = g.below(4);
    auto publish = [&](const V &x, bool bit) {
        t.public_input(0, publics) = x;
        e.push_back({var(0, publics++, false, var::public_input), x, bit});
    };
    publish(V(g.below(2)), true);
    publish(vp::some_element<F>(g), false);
    for (std::size_t i = g.below(4); i > 0; i--) {
        publish(vp::some_element<F>(g), false);
    }

    // Constants which are in the table already: used by gates, by lookups, by copy constraints or by nobody.
    const std::size_t constant_column = g.below(2), constants_from = g.range(1, 3);
    const std::size_t constant_rows = g.chance(3, 4) ? g.range(0, 8) : 0;
    for (std::size_t r = 0; r < constant_rows; r++) {
        t.constant(constant_column, r) = V(100 + r);
    }
    std::set<std::size_t> in_use;
    std::map<std::string, std::shared_ptr<vp::LookupTable<F>>> given;
    std::size_t fixed_rows = 0;
    if (constant_rows != 0) {
        for (std::size_t i = g.below(4); i > 0; i--) {
            const std::size_t cell = g.below(constant_rows);
            const int rotation = int(g.below(3)) - 1;
            const int at = int(cell) - rotation;
            if (at < 0) {
                continue;
            }
            g.note() << "constant " << cell;
            const var c(constant_column, rotation, true, var::constant);
            switch (g.below(3)) {
                case 0: {
                    g.note() << " used by a gate at " << at << "; ";
                    const std::size_t s = bp.add_gate(constraint(c - var(2 + rotation, 0)));
                    t.enable_selector(s, at);
                    break;
                }
                case 1: {
                    g.note() << " used by a lookup at " << at << "; ";
                    bp.reserve_table("binary_and_table/full");
                    lookup_constraint l;
                    l.table_id = bp.get_reserved_indices().at("binary_and_table/full");
                    l.lookup_input = {constraint(c)};
                    t.enable_selector(bp.add_lookup_gate(l), at);
                    break;
                }
                default:
                    g.note() << " used by a copy; ";
                    e.push_back({var(constant_column, cell, false, var::constant), V(100 + cell), false});
                    bp.add_copy_constraint({e.back().v, var(0, cell, false)});
                    t.witness(0, cell) = V(100 + cell);
            }
            fixed_rows = std::max<std::size_t>({fixed_rows, std::size_t(at) + 1, cell + 1});
            in_use.insert(cell);
        }
    }
    auto table = std::make_shared<vp::LookupTable<F>>();
    for (std::size_t r = 0; r < 8; r++) {
        table->rows.push_back({V(100 + r)});
        table->set.insert({V(100 + r)});
    }
    given["binary_and_table/full"] = table;
    // the cells of the gates above
    for (const auto &gate : bp.gates()) {
        for (std::size_t r = 0; r < t.selector(gate.selector_index).size(); r++) {
            if (!t.selector(gate.selector_index)[r].is_zero()) {
                nil::crypto3::math::expression_for_each_variable_visitor<var> visitor([&](const var &v) {
                    if (v.type == var::constant) {
                        t.witness(2 + v.rotation, r) = t.constant(constant_column, r + v.rotation);
                    }
                });
                for (const auto &c : gate.constraints) {
                    visitor.visit(c);
                }
            }
        }
    }
    row = std::max(row, fixed_rows);

    // What is to be done, with results by number; then done through the table in one of the usual orders.
    std::vector<op> ops;
    std::map<V, std::size_t> constants;
    std::size_t placed = 0;
    auto batched_constant = [&]() {
        const V x = g.chance(1, 2) ? V(g.below(4)) : vp::some_element<F>(g);
        const var v = t.add_batch_constant_variable(x);
        auto it = constants.find(x);
        if (it != constants.end()) {
            REQUIRE(v == e[it->second].v, "the same constant " << x << " was given two places");
            g.label("repeated constant");
            return;
        }
        for (const auto &c : constants) {
            REQUIRE(v != e[c.second].v, "different constants " << x << " and " << c.first << " were given the same place");
        }
        REQUIRE(var_value(t, v) == x, "batched constant " << x << " has the value " << var_value(t, v));
        constants[x] = e.size();
        g.note() << "v" << e.size() << "=" << x << "; ";
        e.push_back({v, x, x == V::zero() || x == V::one()});
    };
    const std::size_t amount = g.range(1, 14), order = g.below(3);
    std::size_t repeated = 0;
    g.note() << width << " columns from row " << row << ", order " << order << ": ";
    for (std::size_t i = 0; i < amount; i++) {
        if (g.chance(1, 4)) {
            batched_constant();
        }
        op o;
        if (!ops.empty() && g.chance(1, 4)) {
            o = ops[g.below(ops.size())];
            repeated++;
        } else {
            o.what = g.chance(1, 2) && !ops.empty() ? ops[0].what : kind(g.below(kinds));
            auto some = [&]() { return g.chance(1, 2) ? g.below(e.size()) : e.size() - 1 - g.below(std::min<std::size_t>(4, e.size())); };
            o.in = {some(), some()};
            if (o.what == SWAP) {
                std::vector<std::size_t> bits;
                for (std::size_t k = 0; k < e.size(); k++) {
                    if (e[k].bit) {
                        bits.push_back(k);
                    }
                }
                o.in.push_back(bits[g.below(bits.size())]);
            }
            if (o.what == SUMS) {
                o.k = g.below(3);
                o.e = g.below(3);
            }
        }
        g.note() << "v" << e.size() << "=" << names[o.what];
        if (o.what == SUMS) {
            g.note() << "<" << o.k << "," << o.e << ">";
        }
        for (std::size_t k : o.in) {
            g.note() << " v" << k;
        }
        g.note() << "; ";
        o.first = e.size();
        const std::vector<V> want = compute(o, e);
        const std::vector<var> got = order == 0 ? add(t, o, e, false) : add(t, o, e, true);
        REQUIRE(got.size() == want.size(), got.size() << " results");
        for (std::size_t k = 0; k < got.size(); k++) {
            e.push_back({got[k], want[k], false});
        }
        if (order == 1) {
            REQUIRE(add(t, o, e, false) == got, "the results changed their places when the values were added");
        }
        ops.push_back(o);
    }
    if (order == 2) {
        // all gates first, then all values
        for (const op &o : ops) {
            const std::vector<var> got = add(t, o, e, false);
            for (std::size_t k = 0; k < got.size(); k++) {
                REQUIRE(got[k] == e[o.first + k].v, "the results changed their places when the values were added");
            }
        }
    }
    for (const entry &x : e) {
        REQUIRE(var_value(t, x.v) == x.x, x.v << " is " << var_value(t, x.v) << " instead of " << x.x << " before the end");
        g.checked();
    }
    // the same computation once for every combination of operation and places of the operands
    std::map<std::tuple<int, std::size_t, std::size_t>, std::map<std::vector<var>, std::vector<std::size_t>>> distinct;
    for (std::size_t i = 0; i < ops.size(); i++) {
        std::vector<var> in;
        for (std::size_t k : ops[i].in) {
            in.push_back(e[k].v);
        }
        distinct[ops[i].batch()][in].push_back(i);
    }
    // components which are placed as usual and use results of batches
    std::vector<std::pair<var, V>> extra;
    for (std::size_t i = g.below(3); i > 0; i--) {
        const std::size_t a = g.below(e.size()), b = g.below(e.size());
        const addition c({0, 1, 2}, {}, {});
        const addition::input_type in = {e[a].v, e[b].v};
        const auto r = generate_assignments(c, t, in, row);
        generate_circuit(c, bp, t, in, row);
        extra.push_back({r.output, e[a].x + e[b].x});
        row++;
        placed++;
    }

    const std::size_t end = t.finalize_component_batches(bp, row);
    std::size_t wanted = row;
    for (const auto &d : distinct) {
        const std::size_t per_row = width / ops[d.second.begin()->second[0]].width();
        wanted += (d.second.size() + per_row - 1) / per_row;
    }
    REQUIRE(end <= wanted, "batches end at row " << end << ", room for every distinct computation ends at " << wanted);
    std::size_t used = 0;
    for (std::size_t c = 0; c < width; c++) {
        used = std::max<std::size_t>(used, t.witness(c).size());
    }
    REQUIRE(end >= used, "rows up to " << used << " are in use, the next free row is " << end);
    const std::size_t constants_end = t.finalize_constant_batches(bp, constant_column, constants_from);
    if (!constants.empty()) {
        REQUIRE(constants_end >= constants_from + constants.size(), constants.size() << " constants end at row " << constants_end);
    }
    for (std::size_t c : in_use) {
        REQUIRE(t.constant(constant_column, c) == V(100 + c),
                "the constant of row " << c << " was used and became " << t.constant(constant_column, c));
    }
    for (std::size_t r = 0; r < std::min(constant_rows, constants_from); r++) {
        REQUIRE(t.constant(constant_column, r) == V(100 + r), "constant " << r << " before the given row became "
                                                                          << t.constant(constant_column, r));
    }

    vp::System<F> s(bp, t, 0, false, given);
    const std::string p = s.problem();
    REQUIRE(p.empty(), "the finished circuit is not satisfied: " << p);
    g.checked(s.constraints_amount());
    const auto &map = t.get_batch_variable_map();
    std::vector<var> outputs;
    std::map<var, std::pair<std::tuple<int, std::size_t, std::size_t>, std::vector<var>>> cells;
    for (const auto &d : distinct) {
        for (const auto &i : d.second) {
            std::vector<var> places;
            for (std::size_t n : i.second) {
                for (std::size_t k = 0; k < compute(ops[n], e).size(); k++) {
                    const entry &x = e[ops[n].first + k];
                    REQUIRE(map.count(x.v), "result " << x.v << " has no cell");
                    const var v = map.at(x.v);
                    REQUIRE(v.type == var::witness && !v.relative && v.index < width && std::size_t(v.rotation) >= row &&
                                std::size_t(v.rotation) < end,
                            "result " << x.v << " was put to " << v);
                    REQUIRE(s.at(v) == x.x, names[ops[n].what] << " number " << n << " has the value " << s.at(v)
                                                                << " instead of " << x.x);
                    if (n == i.second[0]) {
                        places.push_back(v);
                        REQUIRE(cells.insert({v, {d.first, i.first}}).second, "two results are at " << v);
                        outputs.push_back(v);
                    } else {
                        REQUIRE(places[k] == v, "the same computation was done twice, at " << places[k] << " and at " << v);
                    }
                    g.checked();
                }
            }
        }
    }
    for (const auto &x : extra) {
        REQUIRE(s.at(x.first) == x.second, "a sum of results is " << s.at(x.first) << " instead of " << x.second);
        outputs.push_back(x.first);
    }
    const std::string other = vp::other_solution(s, outputs, g.bits64(), 20, nullptr, 64, {});
    REQUIRE(other.empty(), other);
    g.nontrivial(repeated != 0 || !constants.empty());
    if (repeated) {
        g.label("repeated computation");
    }
    if (placed) {
        g.label("results used outside");
    }
    if (!constants.empty() && !in_use.empty()) {
        g.label("constants among used ones");
    }
}

PBT_MAIN
