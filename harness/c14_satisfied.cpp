// The verdict on filled tables, against an own evaluation of all constraints.
#include "circuit.hpp"

#include <nil/crypto3/algebra/curves/pallas.hpp>

#include <nil/blueprint/utils/satisfiability_check.hpp>

using F = nil::crypto3::algebra::curves::pallas::base_field_type;
using V = F::value_type;
using var = vp::var_t<F>;
using constraint = vp::snark::plonk_constraint<F>;
using lookup_constraint = vp::snark::plonk_lookup_constraint<F>;

namespace {
    // what is_satisfied prints is of no interest
    struct quiet {
        std::streambuf *before;
        std::ostringstream sink;
        quiet() : before(std::cout.rdbuf(sink.rdbuf())) {}
        ~quiet() {
            std::cout.rdbuf(before);
        }
    };

    struct own_table : vp::snark::lookup_table_definition<F> {
        std::vector<std::vector<V>> contents;
        own_table(const std::string &name, const std::vector<std::vector<V>> &c)
            : vp::snark::lookup_table_definition<F>(name), contents(c) {}
        void generate() override {
            this->_table = contents;
        }
        std::size_t get_columns_number() override {
            return contents.size();
        }
        std::size_t get_rows_number() override {
            return contents[0].size();
        }
    };

    // Everything needed to build the circuit again with some parts left out.
    struct Parts {
        std::size_t rows;
        std::vector<std::vector<V>> witness, publics, constant;
        std::vector<std::vector<bool>> selector;
        std::vector<V> enabled;    // value of an enabled selector; one if there is none
        std::vector<std::pair<std::size_t, std::vector<constraint>>> gates;
        std::vector<std::pair<std::size_t, std::vector<lookup_constraint>>> lookups;
        std::vector<std::pair<var, var>> copies;
        std::vector<std::shared_ptr<own_table>> tables;
        std::vector<std::string> reserved;    // table ids are positions + 1
        std::map<std::string, vp::snark::plonk_lookup_table<F>> dynamic;
    };

    struct Use {
        std::set<std::uint32_t> gates, lookups, copies, rows;
    };

    std::unique_ptr<vp::circuit_t<F>> circuit_of(const Parts &p, const Use *use) {
        auto bp = std::make_unique<vp::circuit_t<F>>();
        for (const auto &t : p.tables) {
            bp->register_lookup_table(t);
        }
        for (const auto &name : p.reserved) {
            if (p.dynamic.count(name)) {
                bp->reserve_dynamic_table(name);
                bp->define_dynamic_table(name, p.dynamic.at(name));
                bp->add_lookup_table(p.dynamic.at(name));
            } else {
                bp->reserve_table(name);
                bp->add_lookup_table(vp::snark::plonk_lookup_table<F>());
            }
        }
        for (std::size_t i = 0; i < p.gates.size(); i++) {
            if (!use || use->gates.count(i)) {
                bp->add_gate(p.gates[i].first, p.gates[i].second);
            }
        }
        for (std::size_t i = 0; i < p.lookups.size(); i++) {
            if (!use || use->lookups.count(i)) {
                bp->add_lookup_gate(p.lookups[i].first, p.lookups[i].second);
            }
        }
        for (std::size_t i = 0; i < p.copies.size(); i++) {
            if (!use || use->copies.count(i)) {
                bp->add_copy_constraint({p.copies[i].first, p.copies[i].second});
            }
        }
        return bp;
    }
    std::unique_ptr<vp::table_t<F>> table_of(const Parts &p, const Use *use) {
        auto t = std::make_unique<vp::table_t<F>>(p.witness.size(), p.publics.size(), p.constant.size(), p.selector.size());
        for (std::size_t r = 0; r < p.rows; r++) {
            for (std::size_t c = 0; c < p.witness.size(); c++) {
                t->witness(c, r) = p.witness[c][r];
            }
            for (std::size_t c = 0; c < p.publics.size(); c++) {
                t->public_input(c, r) = p.publics[c][r];
            }
            for (std::size_t c = 0; c < p.constant.size(); c++) {
                t->constant(c, r) = p.constant[c][r];
            }
        }
        for (std::size_t s = 0; s < p.selector.size(); s++) {
            const bool of_table = std::any_of(p.dynamic.begin(), p.dynamic.end(),
                                              [&](const auto &d) { return d.second.tag_index == s; });
            for (std::size_t r = 0; r < p.rows; r++) {
                if (p.selector[s][r] && (!use || of_table || use->rows.count(r))) {
                    if (s < p.enabled.size()) {
                        t->selector(s, r) = p.enabled[s];
                    } else {
                        t->enable_selector(s, r);
                    }
                }
            }
        }
        return t;
    }

    V small(pbt::Gen &g) {
        return g.chance(1, 4) ? vp::some_element<F>(g) : V(g.below(5));
    }
    std::vector<V> column(pbt::Gen &g, std::size_t rows) {
        std::vector<V> r;
        for (std::size_t i = 0; i < rows; i++) {
            r.push_back(small(g));
        }
        return r;
    }

    // A circuit which is satisfied.
    Parts make(pbt::Gen &g) {
        Parts p;
        p.rows = g.range(3, 12);
        const std::size_t base = g.range(1, 3), constants = g.range(1, 2);
        for (std::size_t i = 0; i < base; i++) {
            p.witness.push_back(column(g, p.rows));
        }
        for (std::size_t i = 0; i < constants; i++) {
            p.constant.push_back(column(g, p.rows));
        }
        p.publics.push_back(column(g, p.rows));
        auto at = [&](const var &v, std::size_t row) {
            return v.type == var::witness ? p.witness[v.index][row + v.rotation] : p.constant[v.index][row + v.rotation];
        };
        // rotations used by the current gate; its rows keep away from the ends of the table by as much
        int lowest = 0, highest = 0;
        auto choose_rotations = [&] {
            lowest = g.flag() ? -1 : 0;
            highest = g.flag() ? 1 : 0;
        };
        auto some_rotation = [&] { return lowest + int(g.below(highest - lowest + 1)); };
        auto some_var = [&] {
            const bool constant = g.chance(1, 4);
            return var(g.below(constant ? constants : base), some_rotation(), true,
                       constant ? var::constant : var::witness);
        };
        // an expression together with a function to compute it
        struct Expr {
            constraint e;
            std::vector<std::pair<V, std::vector<var>>> terms;
        };
        auto some_expr = [&] {
            Expr x;
            const std::size_t n = g.range(1, 3);
            for (std::size_t i = 0; i < n; i++) {
                const V c = small(g);
                std::vector<var> vs;
                constraint t = constraint(c);
                const std::size_t d = g.below(4);
                for (std::size_t j = 0; j < d; j++) {
                    vs.push_back(some_var());
                    t = t * vs.back();
                }
                x.e = i ? x.e + t : t;
                x.terms.emplace_back(c, vs);
            }
            return x;
        };
        auto value = [&](const Expr &x, std::size_t row) {
            V sum = V::zero();
            for (const auto &t : x.terms) {
                V v = t.first;
                for (const var &w : t.second) {
                    v *= at(w, row);
                }
                sum += v;
            }
            return sum;
        };
        auto some_rows = [&] {
            std::vector<bool> s(p.rows);
            const std::size_t n = g.below(p.rows);
            for (std::size_t i = 0; i < n; i++) {
                s[g.range(-lowest, p.rows - 1 - highest)] = true;
            }
            return s;
        };
        const std::size_t gates = g.below(4);
        for (std::size_t i = 0; i < gates; i++) {
            choose_rotations();
            const std::vector<bool> rows = some_rows();
            std::vector<constraint> cs;
            const std::size_t n = g.range(1, 3);
            for (std::size_t j = 0; j < n; j++) {
                const Expr x = some_expr();
                const int rotation = some_rotation();
                p.witness.push_back(column(g, p.rows));
                for (std::size_t r = 0; r < p.rows; r++) {
                    if (rows[r]) {
                        p.witness.back()[r + rotation] = value(x, r);
                    }
                }
                cs.push_back(x.e - var(p.witness.size() - 1, rotation));
            }
            p.gates.emplace_back(p.selector.size(), cs);
            p.selector.push_back(rows);
        }
        // lookups
        struct Sub {
            std::string name;
            std::vector<std::vector<V>> rows;
        };
        std::vector<Sub> subs;
        const std::size_t tables = g.below(3);
        for (std::size_t i = 0; i < tables; i++) {
            const std::size_t columns = g.chance(1, 10) ? g.range(4, 12) : g.range(1, 3), height = g.range(1, 8);
            std::vector<std::vector<V>> contents;
            for (std::size_t c = 0; c < columns; c++) {
                contents.push_back(column(g, height));
            }
            auto t = std::make_shared<own_table>("own" + std::to_string(i), contents);
            const std::size_t n = g.range(1, 3);
            for (std::size_t k = 0; k < n; k++) {
                vp::snark::lookup_subtable_definition d;
                const std::size_t used = g.range(1, columns), first = g.below(columns);
                for (std::size_t c = 0; c < used; c++) {
                    d.column_indices.push_back((first + c) % columns);
                }
                d.begin = g.below(height);
                d.end = g.range(d.begin, height - 1);
                if (g.flag()) {
                    d.begin = 0;
                    d.end = height - 1;
                }
                Sub s;
                s.name = t->table_name + "/part" + std::to_string(k);
                for (std::size_t r = d.begin; r <= d.end; r++) {
                    std::vector<V> row;
                    for (std::size_t c : d.column_indices) {
                        row.push_back(contents[c][r]);
                    }
                    s.rows.push_back(row);
                }
                t->subtables["part" + std::to_string(k)] = d;
                subs.push_back(s);
            }
            p.tables.push_back(t);
        }
        const std::size_t inside = g.flag() ? g.range(1, 2) : 0;
        for (std::size_t i = 0; i < inside; i++) {
            // rows of a table inside of the circuit itself
            Sub s;
            s.name = "inside" + std::to_string(i);
            choose_rotations();
            const std::vector<bool> rows = some_rows();
            std::vector<std::vector<constraint>> options;
            const std::size_t columns = g.range(1, 3), n = g.range(1, 2);
            for (std::size_t o = 0; o < n; o++) {
                std::vector<Expr> xs;
                for (std::size_t c = 0; c < columns; c++) {
                    xs.push_back(some_expr());
                }
                for (std::size_t r = 0; r < p.rows; r++) {
                    if (rows[r]) {
                        std::vector<V> row;
                        for (const Expr &x : xs) {
                            row.push_back(value(x, r));
                        }
                        s.rows.push_back(row);
                    }
                }
                std::vector<constraint> es;
                for (const Expr &x : xs) {
                    es.push_back(x.e);
                }
                options.push_back(es);
            }
            if (!s.rows.empty()) {
                vp::snark::plonk_lookup_table<F> d(columns, p.selector.size());
                for (const auto &o : options) {
                    d.append_option(o);
                }
                p.selector.push_back(rows);
                p.dynamic[s.name] = d;
                subs.push_back(s);
            }
        }
        for (std::size_t i = subs.size(); i > 1; i--) {
            std::swap(subs[i - 1], subs[g.below(i)]);
        }
        for (const auto &s : subs) {
            p.reserved.push_back(s.name);
        }
        const std::size_t lookups = subs.empty() ? 0 : g.below(4);
        for (std::size_t i = 0; i < lookups; i++) {
            choose_rotations();
            const std::vector<bool> rows = some_rows();
            std::vector<lookup_constraint> cs;
            const std::size_t n = g.range(1, 2);
            for (std::size_t j = 0; j < n; j++) {
                const std::size_t which = g.below(subs.size());
                lookup_constraint c;
                c.table_id = which + 1;
                const std::size_t first = p.witness.size(), width = subs[which].rows[0].size();
                std::vector<int> rotation;
                std::vector<V> offset;
                for (std::size_t k = 0; k < width; k++) {
                    p.witness.push_back(column(g, p.rows));
                    rotation.push_back(some_rotation());
                    offset.push_back(small(g));
                    c.lookup_input.push_back(constraint(var(first + k, rotation[k])) - offset[k]);
                }
                for (std::size_t r = 0; r < p.rows; r++) {
                    if (rows[r]) {
                        const auto &row = subs[which].rows[g.below(subs[which].rows.size())];
                        for (std::size_t k = 0; k < width; k++) {
                            p.witness[first + k][r + rotation[k]] = row[k] + offset[k];
                        }
                    }
                }
                cs.push_back(c);
            }
            p.lookups.emplace_back(p.selector.size(), cs);
            p.selector.push_back(rows);
        }
        // copies into a column of their own
        const std::size_t copies = g.below(4);
        if (copies) {
            p.witness.push_back(column(g, p.rows));
            const std::size_t own = p.witness.size() - 1;
            for (std::size_t i = 0; i < copies && i < p.rows; i++) {
                const std::size_t row = g.below(p.rows);
                var from;
                switch (g.below(3)) {
                    case 0:
                        from = var(g.below(own), row, false);
                        p.witness[own][i] = p.witness[from.index][row];
                        break;
                    case 1:
                        from = var(0, row, false, var::public_input);
                        p.witness[own][i] = p.publics[0][row];
                        break;
                    default:
                        from = var(g.below(constants), row, false, var::constant);
                        p.witness[own][i] = p.constant[from.index][row];
                }
                const var to(own, i, false);
                if (g.flag()) {
                    p.copies.emplace_back(from, to);
                } else {
                    p.copies.emplace_back(to, from);
                }
            }
        }
        if (p.selector.empty()) {
            p.selector.push_back(std::vector<bool>(p.rows));
        }
        if (g.chance(1, 6)) {
            for (std::size_t i = 0; i < p.selector.size(); i++) {
                const V v = small(g);
                p.enabled.push_back(v.is_zero() ? V::one() : v);
            }
        }
        return p;
    }

    std::string alter(pbt::Gen &g, Parts &p) {
        std::ostringstream os;
        const std::size_t row = g.below(p.rows);
        auto change = [&](V &x) {
            x = g.flag() ? x + V::one() : small(g);
        };
        switch (g.below(6)) {
            case 0: {
                const std::size_t c = g.below(p.constant.size());
                change(p.constant[c][row]);
                os << "constant " << c << " at row " << row;
                break;
            }
            case 1:
                change(p.publics[0][row]);
                os << "public input at row " << row;
                break;
            case 2: {
                const std::size_t s = g.below(p.selector.size()), r = 1 + g.below(p.rows - 2);
                p.selector[s][r] = !p.selector[s][r];
                os << "selector " << s << " at row " << r;
                break;
            }
            default: {
                const std::size_t c = g.below(p.witness.size());
                change(p.witness[c][row]);
                os << "witness " << c << " at row " << row;
            }
        }
        return os.str();
    }
    void describe(pbt::Gen &g, const Parts &p) {
        g.note() << p.rows << " rows, " << p.gates.size() << " gates, " << p.lookups.size() << " lookup gates in "
                 << p.reserved.size() << " tables, " << p.copies.size() << " copies";
    }
}    // namespace

PBT_TEST(whole, 40000, 600000) {
    Parts p = make(g);
    describe(g, p);
    {
        auto bp = circuit_of(p, nullptr);
        auto t = table_of(p, nullptr);
        const std::string problem = vp::System<F>(*bp, *t, 0, false).problem();
        if (!problem.empty()) {
            pbt::fail("generator: " + problem);
        }
        quiet q;
        const bool verdict = nil::blueprint::is_satisfied(*bp, *t);
        REQUIRE(verdict, "a satisfied circuit is refused");
    }
    const std::size_t n = g.range(1, 3);
    for (std::size_t i = 0; i < n; i++) {
        g.note() << ", " << alter(g, p);
        auto bp = circuit_of(p, nullptr);
        auto t = table_of(p, nullptr);
        const std::string problem = vp::System<F>(*bp, *t, 0, false).problem();
        quiet q;
        const bool verdict = nil::blueprint::is_satisfied(*bp, *t);
        REQUIRE(verdict == problem.empty(), (verdict ? "accepted although " + problem : std::string("refused although all constraints hold")));
        if (!verdict) {
            g.nontrivial(true);
            g.label("refused");
        } else {
            g.label("accepted after a change");
        }
        g.checked();
    }
    g.checked();
}

// Only some of the gates, lookup gates, copies and rows.
PBT_TEST(parts, 20000, 300000) {
    Parts p = make(g);
    describe(g, p);
    const std::size_t n = g.range(1, 3);
    for (std::size_t i = 0; i < n; i++) {
        g.note() << ", " << alter(g, p);
    }
    auto bp = circuit_of(p, nullptr);
    auto t = table_of(p, nullptr);
    for (std::size_t i = 0; i < 4; i++) {
        Use use;
        auto some = [&](std::set<std::uint32_t> &s, std::size_t n) {
            for (std::size_t k = 0; k < n; k++) {
                if (g.chance(2, 3)) {
                    s.insert(k);
                }
            }
        };
        some(use.gates, p.gates.size());
        some(use.lookups, p.lookups.size());
        some(use.copies, bp->copy_constraints().size());
        some(use.rows, p.rows);
        auto bp2 = circuit_of(p, &use);
        auto t2 = table_of(p, &use);
        const std::string problem = vp::System<F>(*bp2, *t2, 0, false).problem();
        quiet q;
        const bool verdict = nil::blueprint::is_satisfied(*bp, *t, use.gates, use.lookups, use.copies, use.rows);
        REQUIRE(verdict == problem.empty(), "of a part: " << (verdict ? "accepted although " + problem : std::string("refused although all constraints hold")));
        g.nontrivial(true);
        g.label(verdict ? "accepted" : "refused");
        g.checked();
    }
}

PBT_MAIN
