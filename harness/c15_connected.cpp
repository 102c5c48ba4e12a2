// Connectedness of inputs, outputs and everything in between, against a search in the graph of cells.
#include "circuit.hpp"

#include <nil/crypto3/algebra/curves/pallas.hpp>

#include <nil/blueprint/utils/connectedness_check.hpp>

using F = nil::crypto3::algebra::curves::pallas::base_field_type;
using V = F::value_type;
using var = vp::var_t<F>;
using constraint = vp::snark::plonk_constraint<F>;
using lookup_constraint = vp::snark::plonk_lookup_constraint<F>;
using nil::blueprint::connectedness_check_type;

namespace {
    struct cell {
        int type;
        std::size_t column, row;
        bool operator<(const cell &o) const {
            return std::tie(type, column, row) < std::tie(o.type, o.column, o.row);
        }
    };
    struct Graph {
        std::map<cell, std::set<cell>> edges;
        std::set<cell> mentioned;
        bool merge_constants;
        cell norm(cell c) const {
            if (merge_constants && c.type == var::constant) {
                c.column = 0;
            }
            return c;
        }
        void join(const std::vector<cell> &cells) {
            for (const cell &c : cells) {
                mentioned.insert(norm(c));
                edges[norm(c)].insert(norm(cells[0]));
                edges[norm(cells[0])].insert(norm(c));
            }
        }
        std::set<cell> reach(const std::vector<cell> &from) const {
            std::set<cell> seen;
            std::vector<cell> todo;
            for (const cell &c : from) {
                if (seen.insert(norm(c)).second) {
                    todo.push_back(norm(c));
                }
            }
            while (!todo.empty()) {
                const cell c = todo.back();
                todo.pop_back();
                auto it = edges.find(c);
                if (it != edges.end()) {
                    for (const cell &d : it->second) {
                        if (seen.insert(d).second) {
                            todo.push_back(d);
                        }
                    }
                }
            }
            return seen;
        }
        bool strong(const std::vector<cell> &in, const std::vector<cell> &out) const {
            const auto r = reach({in[0]});
            for (const auto *l : {&in, &out}) {
                for (const cell &c : *l) {
                    if (!r.count(norm(c))) {
                        return false;
                    }
                }
            }
            return true;
        }
        bool weak(const std::vector<cell> &in, const std::vector<cell> &out) const {
            const auto a = reach(in), b = reach(out);
            for (const cell &c : out) {
                if (!a.count(norm(c))) {
                    return false;
                }
            }
            for (const cell &c : in) {
                if (!b.count(norm(c))) {
                    return false;
                }
            }
            return true;
        }
        bool no_islands(std::vector<cell> in, const std::vector<cell> &out) const {
            in.insert(in.end(), out.begin(), out.end());
            const auto r = reach(in);
            for (const cell &c : mentioned) {
                if (!r.count(c)) {
                    return false;
                }
            }
            return true;
        }
    };
}    // namespace

PBT_TEST(verdict, 300000, 3000000) {
    const std::size_t witnesses = g.range(1, 4), constants = g.range(1, 2), start = g.below(4), rows = g.range(1, 5);
    vp::circuit_t<F> bp;
    vp::table_t<F> t(witnesses, 1, constants, 12);
    Graph exact, merged;
    exact.merge_constants = false;
    merged.merge_constants = true;
    auto join = [&](const std::vector<cell> &cells) {
        exact.join(cells);
        merged.join(cells);
    };
    // inputs: public or inside; outputs: inside
    std::vector<var> in, out;
    std::vector<cell> in_cells, out_cells;
    const std::size_t inputs = g.chance(1, 5) ? g.range(4, 9) : g.range(1, 3), outputs = g.range(1, 3);
    g.note() << rows << " rows from " << start << ", inputs";
    for (std::size_t i = 0; i < inputs; i++) {
        if (g.chance(3, 4)) {
            in.emplace_back(0, i, false, var::public_input);
        } else {
            in.emplace_back(g.below(witnesses), start + g.below(rows), false);
        }
    }
    for (std::size_t i = 0; i < outputs; i++) {
        out.emplace_back(g.below(witnesses), start + g.below(rows), false);
    }
    auto cell_of = [](const var &v) { return cell {v.type, v.index, std::size_t(v.rotation)}; };
    for (const var &v : in) {
        in_cells.push_back(cell_of(v));
        g.note() << " " << v;
    }
    g.note() << ", outputs";
    for (const var &v : out) {
        out_cells.push_back(cell_of(v));
        g.note() << " " << v;
    }
    auto some_cell = [&] {
        switch (g.below(6)) {
            case 0:
                return var(g.below(constants), start + g.below(rows), false, var::constant);
            case 1:
                return in[g.below(inputs)];
            case 2:
                return out[g.below(outputs)];
            default:
                return var(g.below(witnesses), start + g.below(rows), false);
        }
    };
    const std::size_t copies = g.below(7);
    for (std::size_t i = 0; i < copies; i++) {
        const var a = some_cell(), b = some_cell();
        if (a == b) {
            continue;
        }
        g.note() << ", " << a << "=" << b;
        bp.add_copy_constraint({a, b});
        join({cell_of(a), cell_of(b)});
    }
    const std::size_t gates = g.below(4);
    for (std::size_t i = 0; i < gates; i++) {
        const bool lookup = g.chance(1, 3);
        const std::size_t parts = g.range(1, 2);
        std::vector<std::vector<var>> vars(parts);
        int low = 0, high = 0;
        std::vector<constraint> es;
        for (auto &vs : vars) {
            constraint e = constraint(V::one());
            const std::size_t n = g.range(1, 3);
            for (std::size_t k = 0; k < n; k++) {
                const bool constant = g.chance(1, 5);
                const int rotation = int(g.below(3)) - 1;
                low = std::min(low, rotation);
                high = std::max(high, rotation);
                vs.emplace_back(g.below(constant ? constants : witnesses), rotation, true,
                                constant ? var::constant : var::witness);
                e = g.flag() ? e * vs.back() : e + vs.back();
            }
            es.push_back(e);
        }
        std::size_t selector;
        if (lookup) {
            lookup_constraint c;
            c.table_id = 1;
            c.lookup_input = es;
            std::vector<lookup_constraint> cs = {c};
            if (g.flag()) {
                cs.clear();
                for (const auto &e : es) {
                    lookup_constraint d;
                    d.table_id = 1;
                    d.lookup_input = {e};
                    cs.push_back(d);
                }
            }
            selector = bp.add_lookup_gate(i, cs);
        } else {
            selector = bp.add_gate(i, es);
        }
        g.note() << (lookup ? ", lookup" : ", gate");
        for (const auto &vs : vars) {
            for (const var &v : vs) {
                g.note() << " " << v;
            }
        }
        for (std::size_t r = 0; r < rows; r++) {
            if (std::int64_t(r) + low < 0 || r + high >= rows || !g.flag()) {
                continue;
            }
            if (g.chance(1, 10)) {
                t.selector(selector, start + r) = V(g.range(2, 9));
            } else {
                t.enable_selector(selector, start + r);
            }
            g.note() << " at " << start + r;
            std::vector<cell> cells;
            for (const auto &vs : vars) {
                for (const var &v : vs) {
                    cells.push_back({v.type, v.index, std::size_t(start + r + v.rotation)});
                }
            }
            join(cells);
        }
    }
    // a gate outside of the component
    if (start != 0 && g.flag()) {
        bp.add_gate(11, {constraint(var(0, 0))});
        t.enable_selector(11, g.below(start));
    }
    for (std::size_t c = 0; c < witnesses; c++) {
        t.witness(c, start + rows - 1) = V::zero();
    }
    using W = std::reference_wrapper<var>;
    std::vector<W> ins(in.begin(), in.end()), outs(out.begin(), out.end());
    static const connectedness_check_type::type types[] = {
        connectedness_check_type::type::NONE, connectedness_check_type::type::WEAK, connectedness_check_type::type::STRONG};
    static const char *const names[] = {"no", "weak", "strong"};
    bool seen[2] = {false, false};
    for (std::size_t k = 0; k < 3; k++) {
        for (const bool islands : {true, false}) {
            auto model = [&](const Graph &m) {
                if (k == 0) {
                    return true;
                }
                return (k == 1 ? m.weak(in_cells, out_cells) : m.strong(in_cells, out_cells)) &&
                       (!islands || m.no_islands(in_cells, out_cells));
            };
            const connectedness_check_type type =
                islands ? connectedness_check_type(types[k]) :
                          connectedness_check_type(types[k], connectedness_check_type::island_type::NONE);
            const bool got = nil::blueprint::check_connectedness(t, bp, ins, outs, start, rows, type), want = model(exact);
            g.checked();
            seen[want] = true;
            if (got != want && constants > 1 && got == model(merged) && pbt::known(g, "constant_columns")) {
                continue;
            }
            REQUIRE(got == want, names[k] << " connection" << (islands ? " without islands" : "") << " is reported as "
                                          << (got ? "given" : "missing"));
        }
    }
    g.nontrivial(seen[0] && seen[1] && !exact.mentioned.empty());
    if (exact.weak(in_cells, out_cells)) {
        g.label(exact.strong(in_cells, out_cells) ? "strong" : "weak");
        if (exact.no_islands(in_cells, out_cells)) {
            g.label("connected without islands");
        }
    }
}

PBT_MAIN
