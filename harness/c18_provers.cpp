// One circuit and table used by several provers, against the same calls made directly.
#include "circuit.hpp"

#include <nil/crypto3/algebra/curves/pallas.hpp>

#include <nil/blueprint/blueprint/plonk/circuit_proxy.hpp>
#include <nil/blueprint/utils/satisfiability_check.hpp>
#include <nil/blueprint/blueprint/plonk/assignment_proxy.hpp>

using F = nil::crypto3::algebra::curves::pallas::base_field_type;
using V = F::value_type;
using var = vp::var_t<F>;
using constraint = vp::snark::plonk_constraint<F>;
using lookup_constraint = vp::snark::plonk_lookup_constraint<F>;
using lookup_table = vp::snark::plonk_lookup_table<F>;
using circuit_t = vp::circuit_t<F>;
using table_t = vp::table_t<F>;
using prover_circuit = nil::blueprint::circuit_proxy<vp::arithmetization<F>>;
using prover_table = nil::blueprint::assignment_proxy<vp::arithmetization<F>>;
using numbers = std::set<std::uint32_t>;

namespace {
    constexpr std::size_t witnesses = 4, constants = 2, selectors = 40, rows = 10;

    struct Small : vp::snark::lookup_table_definition<F> {
        explicit Small(const std::string &name) : vp::snark::lookup_table_definition<F>(name) {
            this->subtables["full"] = {{0}, 0, 3};
            this->subtables["half"] = {{0}, 2, 3};
        }
        void generate() override {
            this->_table = {{V(0u), V(1u), V(2u), V(3u)}};
        }
        std::size_t get_columns_number() override {
            return 1;
        }
        std::size_t get_rows_number() override {
            return 4;
        }
    };

    struct Expected {
        numbers gates, lookup_gates, copies, tables, rows, selector_rows;
    };
    struct Quiet {
        std::ostringstream sink;
        std::streambuf *old;
        Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
        ~Quiet() {
            std::cout.rdbuf(old);
        }
    };

    std::string text(const circuit_t &bp) {
        std::ostringstream os;
        for (const auto &gate : bp.gates()) {
            os << gate.selector_index << ":";
            for (const auto &c : gate.constraints) {
                os << " " << c;
            }
            os << "\n";
        }
        for (const auto &gate : bp.lookup_gates()) {
            os << "lookup " << gate.tag_index << ":";
            for (const auto &l : gate.constraints) {
                os << " " << l.table_id << "(";
                for (const auto &c : l.lookup_input) {
                    os << " " << c;
                }
                os << ")";
            }
            os << "\n";
        }
        for (const auto &c : bp.copy_constraints()) {
            os << "copy " << c.first << " " << c.second << "\n";
        }
        for (const auto &t : bp.get_reserved_indices()) {
            os << "table " << t.first << " " << t.second << "\n";
        }
        os << bp.num_gates() << " " << bp.num_lookup_gates() << " " << bp.get_next_selector_index() << " "
           << bp.lookup_tables().size();
        return os.str();
    }
    std::string text(const table_t &t) {
        std::ostringstream os;
        auto column = [&](const char *name, std::size_t i, std::size_t size, auto at) {
            os << name << i << ":";
            for (std::size_t r = 0; r < size; r++) {
                os << " " << at(i, r);
            }
            os << "\n";
        };
        for (std::size_t i = 0; i < t.witnesses_amount(); i++) {
            column("w", i, t.witness_column_size(i), [&](auto c, auto r) { return t.witness(c, r); });
            REQUIRE(t.witness(i).size() == t.witness_column_size(i), "column " << i << " has two sizes");
        }
        for (std::size_t i = 0; i < t.public_inputs_amount(); i++) {
            column("p", i, t.public_input_column_size(i), [&](auto c, auto r) { return t.public_input(c, r); });
        }
        for (std::size_t i = 0; i < t.constants_amount(); i++) {
            column("c", i, t.constant_column_size(i), [&](auto c, auto r) { return t.constant(c, r); });
        }
        for (std::size_t i = 0; i < t.selectors_amount(); i++) {
            column("s", i, t.selector_column_size(i), [&](auto c, auto r) { return t.selector(c, r); });
        }
        for (std::size_t i = 0; i < t.shareds_amount(); i++) {
            column("h", i, t.shared_column_size(i), [&](auto c, auto r) { return t.shared(c, r); });
        }
        column("private", 0, t.private_storage_size(), [&](auto, auto r) { return t.private_storage(r); });
        os << t.rows_amount() << " " << t.allocated_rows();
        for (const auto *l : {&t.get_lookup_constant_cols(), &t.get_lookup_selector_cols()}) {
            os << " /";
            for (auto i : *l) {
                os << " " << i;
            }
        }
        os << " / " << t.get_lookup_constant_amount() << " " << t.get_lookup_selector_amount();
        return os.str();
    }
    std::string text(const numbers &l) {
        std::ostringstream os;
        for (auto i : l) {
            os << i << " ";
        }
        return os.str();
    }

    numbers numbers_in(const std::string &s) {
        std::istringstream is(s);
        numbers l;
        std::uint32_t i;
        while (is >> i) {
            l.insert(i);
        }
        return l;
    }

    // The gates, copy constraints and tables of one prover, under the numbers they have in the common circuit.
    void check_listing(pbt::Gen &g, const prover_circuit &p, const circuit_t &bp, const Expected &e) {
        std::ostringstream os;
        {
            Quiet q;
            p.export_circuit(os);
        }
        std::istringstream is(os.str());
        std::string line;
        auto next = [&]() {
            // headings of sections and empty lines
            do {
                REQUIRE(bool(std::getline(is, line)), "the list of the circuit ends too early:\n" << os.str());
            } while (line.find_first_not_of(" \t") == std::string::npos || line == "lookup gates:" || line == "lookup tables:");
        };
        auto expect = [&](const std::string &want) {
            next();
            REQUIRE(line == want, "the list of the circuit has " << line << " instead of " << want);
            g.checked();
        };
        // the numbers of a line, whatever they are called
        auto expect_numbers = [&](const std::vector<std::size_t> &want) {
            next();
            std::vector<std::size_t> got;
            for (std::size_t i = 0; i < line.size();) {
                if (std::isdigit(line[i])) {
                    std::size_t end;
                    got.push_back(std::stoull(line.substr(i), &end));
                    i += end;
                } else {
                    i++;
                }
            }
            std::ostringstream l;
            for (auto i : want) {
                l << i << " ";
            }
            REQUIRE(got == want, "the list of the circuit has " << line << " instead of a line with " << l.str());
            g.checked();
        };
        auto shown = [](const auto &...x) {
            std::ostringstream o;
            (o << ... << x);
            return o.str();
        };
        expect_numbers({e.gates.size(), bp.gates().size(), e.copies.size(), bp.copy_constraints().size(), e.lookup_gates.size()});
        for (auto i : e.gates) {
            const auto &gate = bp.gates()[i];
            expect_numbers({i, gate.selector_index, gate.constraints.size()});
            for (const auto &c : gate.constraints) {
                expect(shown(c));
            }
        }
        for (auto i : e.copies) {
            const auto &c = bp.copy_constraints()[i];
            expect(shown(i, ": ", c.first, " ", c.second));
        }
        for (auto i : e.lookup_gates) {
            const auto &gate = bp.lookup_gates()[i];
            expect_numbers({i, gate.tag_index, gate.constraints.size()});
            for (const auto &l : gate.constraints) {
                expect_numbers({l.lookup_input.size()});
                expect_numbers({l.table_id});
                for (const auto &c : l.lookup_input) {
                    expect(shown(c));
                }
            }
        }
        for (auto i : e.tables) {
            std::string name;
            for (const auto &t : bp.get_reserved_indices()) {
                if (t.second == i + 1) {
                    name = t.first;
                }
            }
            expect(shown(i, ": ", name));
        }
        while (std::getline(is, line)) {
            REQUIRE(line.find_first_not_of(" \t") == std::string::npos || line == "lookup gates:" || line == "lookup tables:",
                    "the list of the circuit has the additional line " << line);
        }
    }

    // A prover which is told to check reports every value which belongs to a row of others.
    void check_reports(pbt::Gen &g, prover_table &p, const table_t &t, const Expected &e) {
        p.set_check(true);
        const prover_table &view = p;
        auto reported = [&](auto read) {
            Quiet q;
            try {
                read();
            } catch (const std::runtime_error &) {
                return true;
            }
            return !q.sink.str().empty();
        };
        auto expect = [&](const char *what, std::size_t c, std::size_t r, bool got, bool want) {
            REQUIRE(got == want, what << " " << c << "," << r << " is " << (got ? "" : "not ") << "reported as one of others");
            g.checked();
        };
        for (std::size_t k = 0; k < 6; k++) {
            const std::size_t w = g.below(t.witnesses_amount()), c = g.below(t.constants_amount()), s = g.below(t.selectors_amount());
            if (t.witness_column_size(w) > 0) {
                const std::size_t r = g.below(t.witness_column_size(w));
                expect("witness", w, r, reported([&]() { (void)view.witness(w, r); }), !e.rows.count(r));
            }
            if (t.constant_column_size(c) > 0) {
                const std::size_t r = g.below(t.constant_column_size(c));
                expect("constant", c, r, reported([&]() { (void)view.constant(c, r); }),
                       !e.rows.count(r) && !t.get_lookup_constant_cols().count(c));
            }
            if (t.selector_column_size(s) > 0) {
                const std::size_t r = g.below(t.selector_column_size(s));
                expect("selector", s, r, reported([&]() { (void)view.selector(s, r); }),
                       !e.selector_rows.count(r) && !t.get_lookup_selector_cols().count(s));
            }
            if (t.shared_column_size(0) > 0) {
                const std::size_t r = g.below(t.shared_column_size(0));
                expect("shared value", 0, r, reported([&]() { (void)view.shared(0, r); }), false);
            }
        }
        p.set_check(false);
        for (std::size_t w = 0; w < t.witnesses_amount(); w++) {
            for (std::size_t r = 0; r < t.witness_column_size(w); r++) {
                expect("witness", w, r, reported([&]() { (void)view.witness(w, r); }), false);
            }
        }
    }

    // The last section of the exported lines are the selectors; what a prover shows of the witnesses are its rows.
    void check_export(pbt::Gen &g, prover_table &p, const table_t &t, const Expected &e) {
        std::ostringstream os;
        p.export_table(os, g.flag());
        std::istringstream is(os.str());
        std::string line;
        std::size_t max = 0;
        const numbers *parts[5] = {nullptr, &e.rows, &e.selector_rows, &t.get_lookup_constant_cols(), &t.get_lookup_selector_cols()};
        for (std::size_t i = 0; i < 5; i++) {
            REQUIRE(bool(std::getline(is, line)), "the export ends after " << i << " lines");
            if (parts[i]) {
                const numbers listed = numbers_in(line.substr(line.find(':') + 1));
                REQUIRE(listed == *parts[i], "exported " << line << " instead of " << text(*parts[i]));
                g.checked();
            }
        }
        for (std::size_t i = 0; i < t.witnesses_amount(); i++) {
            max = std::max<std::size_t>(max, t.witness_column_size(i));
        }
        max = std::max<std::size_t>({max, t.max_public_inputs_size(), t.max_constants_size(), t.max_selectors_size()});
        auto number = [](const std::string &s) {
            V x = V::zero();
            for (char c : s) {
                x = x * V(16u) + V(unsigned(c <= '9' ? c - '0' : (c | 32) - 'a' + 10));
            }
            return x;
        };
        for (std::size_t r = 0; r < max; r++) {
            REQUIRE(bool(std::getline(is, line)), "row " << r << " is not exported");
            std::istringstream row(line);
            std::string word;
            row >> word;
            auto expect = [&](const char *what, std::size_t c, const V &x) {
                REQUIRE(bool(row >> word) && word != "|" && number(word) == x,
                        what << " " << c << " of row " << r << " is exported as " << word << " instead of " << x);
                g.checked();
            };
            auto bar = [&]() { REQUIRE(bool(row >> word) && word == "|", "row " << r << " is exported as " << line); };
            for (std::size_t i = 0; i < t.witnesses_amount(); i++) {
                expect("witness", i, r < t.witness_column_size(i) && e.rows.count(r) ? t.witness(i)[r] : V::zero());
            }
            bar();
            for (std::size_t i = 0; i < t.shareds_amount(); i++) {
                expect("shared value", i, r < t.shared_column_size(i) ? t.shared(i)[r] : V::zero());
            }
            bar();
            for (std::size_t i = 0; i < t.public_inputs_amount(); i++) {
                expect("public input", i, r < t.public_input_column_size(i) ? t.public_input(i)[r] : V::zero());
            }
            bar();
            for (std::size_t i = 0; i < t.constants_amount(); i++) {
                expect("constant", i, r < t.constant_column_size(i) ? t.constant(i)[r] : V::zero());
            }
            bar();
            for (std::size_t i = 0; i < t.selectors_amount(); i++) {
                expect("selector", i, r < t.selector_column_size(i) ? t.selector(i)[r] : V::zero());
            }
            REQUIRE(!(row >> word), "row " << r << " has too many values");
        }
    }
}    // namespace

PBT_TEST(histories, 20000, 200000) {
    auto bp = std::make_shared<circuit_t>();
    auto table = std::make_shared<table_t>(witnesses, 1, constants, selectors);
    circuit_t bp2;
    table_t table2(witnesses, 1, constants, selectors);
    const std::size_t n = g.range(1, 4);
    std::vector<prover_circuit> pc;
    std::vector<prover_table> pt;
    std::vector<Expected> want(n);
    for (std::size_t i = 0; i < n; i++) {
        pc.emplace_back(bp, i);
        pt.emplace_back(table, i);
        REQUIRE(pc[i].get_id() == i && pt[i].get_id() == i, "prover " << i << " has another number");
    }
    auto at_own_row = [](std::size_t row, numbers &l) { l.insert(row); };
    // Small gates over few cells, so that they are met again by other provers.
    auto some_cell = [&]() { return var(g.below(witnesses), int(g.below(3)) - 1); };
    auto some_constraint = [&]() {
        switch (g.below(3)) {
            case 0:
                return constraint(some_cell() - V(g.below(3)));
            case 1:
                return constraint(some_cell() - some_cell() + V(g.below(2)));
            default:
                return constraint(some_cell() * some_cell() - some_cell());
        }
    };
    // tables, all reserved before they are looked at
    std::vector<std::string> reserved;
    std::size_t defined = 0;
    for (std::size_t k = g.below(5); k > 0; k--) {
        const std::size_t i = g.below(n);
        if (g.chance(1, 3)) {
            const std::string name = "dynamic" + std::to_string(defined++);
            g.note() << i << " reserves " << name << "; ";
            pc[i].reserve_dynamic_table(name);
            bp2.reserve_dynamic_table(name);
            const std::size_t s = pc[i].get_dynamic_lookup_table_selector(), s2 = bp2.get_dynamic_lookup_table_selector();
            REQUIRE(s == s2, "selector " << s << " for a dynamic table instead of " << s2);
            lookup_table d(1, s);
            d.append_option({constraint(var(0, 0))});
            pc[i].define_dynamic_table(name, d);
            bp2.define_dynamic_table(name, d);
            reserved.push_back(name);
            REQUIRE(pc[g.below(n)].get_dynamic_table_definition(name)->lookup_table.tag_index == s,
                    "dynamic table is not the one defined");
        } else {
            const std::string table_name = g.flag() ? "binary_xor_table" : "small" + std::to_string(g.below(2));
            if (table_name[0] == 's') {
                pc[i].register_lookup_table(std::make_shared<Small>(table_name));
                bp2.register_lookup_table(std::make_shared<Small>(table_name));
            }
            const std::string name = table_name + (table_name[0] == 's' && g.flag() ? "/half" : "/full");
            g.note() << i << " reserves " << name << "; ";
            pc[i].reserve_table(name);
            bp2.reserve_table(name);
            reserved.push_back(name);
        }
        want[i].tables.insert(bp2.get_reserved_indices().at(reserved.back()) - 1);
    }
    auto some_lookup = [&]() {
        lookup_constraint l;
        l.table_id = reserved.empty() ? 1 : bp2.get_reserved_indices().at(reserved[g.below(reserved.size())]);
        for (std::size_t k = g.range(1, 3); k > 0; k--) {
            l.lookup_input.push_back(some_constraint());
        }
        return l;
    };
    auto gate_of = [&](std::size_t selector) {
        std::size_t i = 0;
        while (bp2.gates()[i].selector_index != selector) {
            i++;
        }
        return i;
    };
    auto lookup_gate_of = [&](std::size_t selector) {
        std::size_t i = 0;
        while (bp2.lookup_gates()[i].tag_index != selector) {
            i++;
        }
        return i;
    };
    bool lookups = false;
    const std::size_t steps = g.range(4, 40);
    for (std::size_t k = 0; k < steps; k++) {
        const std::size_t i = g.below(n);
        Expected &e = want[i];
        switch (g.below(14)) {
            case 0: {
                const constraint c = some_constraint();
                const std::size_t s = pc[i].add_gate(c), s2 = bp2.add_gate(c);
                REQUIRE(s == s2, "gate got selector " << s << " instead of " << s2);
                e.gates.insert(gate_of(s2));
                g.note() << i << " gate at " << s << "; ";
                break;
            }
            case 1: {
                std::vector<constraint> l;
                for (std::size_t j = g.range(1, 3); j > 0; j--) {
                    l.push_back(some_constraint());
                }
                const std::size_t s = pc[i].add_gate(l), s2 = bp2.add_gate(l);
                REQUIRE(s == s2, "gate got selector " << s << " instead of " << s2);
                e.gates.insert(gate_of(s2));
                g.note() << i << " gates at " << s << "; ";
                break;
            }
            case 2: {
                const constraint a = some_constraint(), b = some_constraint();
                const std::size_t s = pc[i].add_gate({a, b}), s2 = bp2.add_gate({a, b});
                REQUIRE(s == s2, "gate got selector " << s << " instead of " << s2);
                e.gates.insert(gate_of(s2));
                g.note() << i << " gates at " << s << "; ";
                break;
            }
            case 3: {
                if (bp2.num_gates() == 0) {
                    break;
                }
                // a further gate for a selector which is there already
                const std::size_t s = bp2.gates()[g.below(bp2.num_gates())].selector_index;
                const std::vector<constraint> l = {some_constraint()};
                REQUIRE(pc[i].add_gate(s, l) == s, "gate got another selector than the given one");
                bp2.add_gate(s, l);
                e.gates.insert(bp2.num_gates() - 1);
                g.note() << i << " further gate at " << s << "; ";
                break;
            }
            case 4: {
                const std::size_t form = g.below(4);
                const lookup_constraint a = some_lookup(), b = some_lookup();
                std::size_t s, s2;
                if (form == 0) {
                    s = pc[i].add_lookup_gate(a);
                    s2 = bp2.add_lookup_gate(a);
                } else if (form == 1) {
                    s = pc[i].add_lookup_gate({a, b});
                    s2 = bp2.add_lookup_gate({a, b});
                } else if (form == 2 || bp2.num_gates() == 0) {
                    const std::vector<lookup_constraint> l = {a, b};
                    s = pc[i].add_lookup_gate(l);
                    s2 = bp2.add_lookup_gate(l);
                } else {
                    const std::vector<lookup_constraint> l = {a};
                    s = s2 = bp2.gates()[g.below(bp2.num_gates())].selector_index;
                    REQUIRE(pc[i].add_lookup_gate(s, l) == s, "lookup gate got another selector than the given one");
                    bp2.add_lookup_gate(s, l);
                    e.lookup_gates.insert(bp2.num_lookup_gates() - 1);
                    lookups = true;
                    break;
                }
                REQUIRE(s == s2, "lookup gate got selector " << s << " instead of " << s2);
                e.lookup_gates.insert(lookup_gate_of(s2));
                g.note() << i << " lookup at " << s << "; ";
                lookups = true;
                break;
            }
            case 5:
            case 6: {
                auto cell = [&]() {
                    if (g.chance(1, 5)) {
                        return var(table_t::private_storage_index, g.below(3), false, var::public_input);
                    }
                    return var(g.below(2), g.below(3), false);
                };
                const var a = cell(), b = cell();
                pc[i].add_copy_constraint({a, b});
                const std::size_t before = bp2.copy_constraints().size();
                bp2.add_copy_constraint({a, b});
                if (bp2.copy_constraints().size() > before) {
                    e.copies.insert(before);
                }
                g.note() << i << " copy " << a << " " << b << "; ";
                break;
            }
            case 7: {
                const std::size_t c = g.below(witnesses), r = g.below(rows);
                const V x(g.below(3));
                pt[i].witness(c, r) = x;
                table2.witness(c, r) = x;
                at_own_row(r, e.rows);
                g.note() << i << " w" << c << "," << r << "=" << x << "; ";
                break;
            }
            case 8: {
                const std::size_t c = g.below(constants), r = g.below(rows);
                const V x(g.below(3));
                pt[i].constant(c, r) = x;
                table2.constant(c, r) = x;
                at_own_row(r, e.rows);
                g.note() << i << " c" << c << "," << r << "=" << x << "; ";
                break;
            }
            case 9: {
                const std::size_t c = g.below(6), r = g.range(1, rows - 2);
                const std::size_t form = g.below(3);
                const std::size_t end = std::min(r + g.below(4), rows - 2), step = g.range(1, 2);
                g.note() << i << " enables " << c << " from " << r << "; ";
                if (form == 0) {
                    pt[i].selector(c, r) = V::one();
                    table2.selector(c, r) = V::one();
                } else if (form == 1) {
                    pt[i].enable_selector(c, r);
                    table2.enable_selector(c, r);
                } else {
                    pt[i].enable_selector(c, r, end, step);
                    for (std::size_t j = r; j <= end; j += step) {
                        table2.enable_selector(c, j);
                    }
                }
                for (std::size_t j = r; j <= (form == 2 ? end : r); j += step) {
                    at_own_row(j, e.rows);
                    at_own_row(j, e.selector_rows);
                }
                break;
            }
            case 10: {
                const std::size_t r = g.below(rows);
                const V x(g.below(100));
                if (g.flag()) {
                    pt[i].public_input(0, r) = x;
                    table2.public_input(0, r) = x;
                } else {
                    pt[i].private_storage(r) = x;
                    table2.private_storage(r) = x;
                }
                break;
            }
            case 11: {
                // results handed on to other provers
                const std::size_t c = g.below(witnesses);
                if (table2.witness_column_size(c) == 0) {
                    break;
                }
                const var v(c, g.below(table2.witness_column_size(c)), false);
                const std::size_t before = table2.shared_column_size(0), amount = g.range(1, 2);
                std::vector<var> got;
                if (amount == 1) {
                    got.push_back(save_shared_var(pt[i], v));
                } else {
                    got = save_shared_var(pt[i], std::vector<var> {v, var(c, 0, false)});
                }
                REQUIRE(got.size() == amount, got.size() << " shared values instead of " << amount);
                for (std::size_t j = 0; j < amount; j++) {
                    const V x = var_value(table2, j == 0 ? v : var(c, 0, false));
                    table2.shared(0, before + j) = x;
                    REQUIRE(var_value(pt[g.below(n)], got[j]) == x, "shared value is " << var_value(pt[i], got[j]) << " instead of " << x);
                }
                g.note() << i << " shares " << v << "; ";
                break;
            }
            case 12: {
                vp::snark::plonk_column<F> l;
                for (std::size_t j = g.below(4); j > 0; j--) {
                    l.push_back(V(g.below(2)));
                }
                if (g.flag()) {
                    const std::size_t c = g.below(constants);
                    pt[i].fill_constant(c, l);
                    table2.fill_constant(c, l);
                } else {
                    const std::size_t c = selectors - 1 - g.below(3);
                    pt[i].fill_selector(c, l);
                    table2.fill_selector(c, l);
                }
                break;
            }
            default: {
                const std::size_t size = g.below(5);
                if (g.flag()) {
                    pt[i].resize_private_storage(size);
                    table2.resize_private_storage(size);
                } else {
                    pt[i].clear_private_storage();
                    table2.clear_private_storage();
                }
            }
        }
    }
    // the common circuit and table, and the views of all provers
    const std::string circuit_text = text(bp2), table_text = text(table2);
    REQUIRE(text(*bp) == circuit_text, "common circuit:\n" << text(*bp) << "\ninstead of:\n" << circuit_text);
    REQUIRE(text(*table) == table_text, "common table:\n" << text(*table) << "\ninstead of:\n" << table_text);
    Expected all;
    for (std::size_t i = 0; i < n; i++) {
        REQUIRE(text(pc[i]) == circuit_text, "prover " << i << " sees the circuit:\n" << text(pc[i]) << "\ninstead of:\n" << circuit_text);
        REQUIRE(text(pt[i]) == table_text, "prover " << i << " sees the table:\n" << text(pt[i]) << "\ninstead of:\n" << table_text);
        auto same = [&](const char *what, const numbers &got, const numbers &wanted, numbers &sum) {
            REQUIRE(got == wanted, "prover " << i << " uses " << what << " " << text(got) << "instead of " << text(wanted));
            sum.insert(got.begin(), got.end());
            g.checked();
        };
        same("gates", pc[i].get_used_gates(), want[i].gates, all.gates);
        same("lookup gates", pc[i].get_used_lookup_gates(), want[i].lookup_gates, all.lookup_gates);
        same("copy constraints", pc[i].get_used_copy_constraints(), want[i].copies, all.copies);
        same("tables", pc[i].get_used_lookup_tables(), want[i].tables, all.tables);
        same("rows", pt[i].get_used_rows(), want[i].rows, all.rows);
        same("rows of selectors", pt[i].get_used_selector_rows(), want[i].selector_rows, all.selector_rows);
    }
    for (std::size_t i = 0; i < n; i++) {
        check_export(g, pt[i], table2, want[i]);
        check_listing(g, pc[i], bp2, want[i]);
        check_reports(g, pt[i], table2, want[i]);
    }
    REQUIRE(all.gates.size() == bp2.num_gates() && all.lookup_gates.size() == bp2.num_lookup_gates() &&
                all.copies.size() == bp2.copy_constraints().size() && all.tables.size() == bp2.get_reserved_indices().size(),
            "a gate, copy constraint or table belongs to no prover");
    REQUIRE(bp->get_reserved_dynamic_tables().size() == bp2.get_reserved_dynamic_tables().size() &&
                pc[0].get_reserved_dynamic_tables().size() == bp2.get_reserved_dynamic_tables().size() &&
                pc[0].get_reserved_tables().size() == bp2.get_reserved_tables().size(),
            "a reserved table is missing");
    g.checked(4);
    g.nontrivial(n > 1 && all.gates.size() + all.copies.size() >= 2);
    // what each of them has to prove; cells no one has stored anything in are not looked at
    if (!lookups) {
        for (std::size_t c = 0; c < witnesses; c++) {
            if (table->witness_column_size(c) < rows) {
                (void)table->witness(c, rows - 1);
                (void)table2.witness(c, rows - 1);
            }
        }
        bool seen[2] = {false, false};
        for (std::size_t i = 0; i < n; i++) {
            bool wanted = true;
            for (auto k : want[i].gates) {
                const auto &gate = bp2.gates()[k];
                const auto &s = table2.selector(gate.selector_index);
                for (auto r : want[i].selector_rows) {
                    if (r < s.size() && !s[r].is_zero()) {
                        for (const auto &c : gate.constraints) {
                            wanted = wanted && c.evaluate(r, table2).is_zero();
                        }
                    }
                }
            }
            for (auto k : want[i].copies) {
                const auto &c = bp2.copy_constraints()[k];
                wanted = wanted && var_value(table2, c.first) == var_value(table2, c.second);
            }
            bool got;
            {
                Quiet q;
                got = nil::blueprint::is_satisfied(pc[i], pt[i]);
            }
            REQUIRE(got == wanted, "what prover " << i << " has to prove is reported as " << (got ? "" : "not ") << "satisfied");
            g.checked();
            seen[wanted] = true;
        }
        if (seen[0]) {
            g.label("unsatisfied prover");
        }
        if (seen[1]) {
            g.label("satisfied prover");
        }
    }
    // the common table can be enlarged by each of them
    const std::size_t i = g.below(n), more = g.range(1, 3);
    switch (g.below(4)) {
        case 0:
            pt[i].resize_witnesses(witnesses + more);
            REQUIRE(table->witnesses_amount() == witnesses + more, table->witnesses_amount() << " columns of witnesses");
            break;
        case 1:
            pt[i].resize_constants(constants + more);
            REQUIRE(table->constants_amount() == constants + more, table->constants_amount() << " columns of constants");
            break;
        case 2:
            pt[i].resize_selectors(selectors + more);
            REQUIRE(table->selectors_amount() == selectors + more, table->selectors_amount() << " columns of selectors");
            break;
        default:
            pt[i].resize_public_inputs(1 + more);
            REQUIRE(table->public_inputs_amount() == 1 + more, table->public_inputs_amount() << " columns of public inputs");
    }
    for (std::size_t j = 0; j < n; j++) {
        REQUIRE(pt[j].witnesses_amount() == table->witnesses_amount() && pt[j].constants_amount() == table->constants_amount() &&
                    pt[j].selectors_amount() == table->selectors_amount() &&
                    pt[j].public_inputs_amount() == table->public_inputs_amount(),
                "prover " << j << " sees a table of another width");
    }
}

PBT_MAIN
