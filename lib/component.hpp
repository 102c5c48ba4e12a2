// Building single components into circuits, and the four questions asked about every one of them:
//   .correct    the result is the one of an independent reference and no other filling of the table gives another one
//   .crossed    mixtures of fillings for different inputs give no other result
//   .resources  rows and gates are exactly those declared, nothing outside of them is touched
//   .placement  position, columns, neighbours and values have no influence
#pragma once

#include "circuit.hpp"

#include <functional>
#include <optional>
#include <tuple>

#include <nil/blueprint/component.hpp>
#include <nil/blueprint/component_stretcher.hpp>

namespace vp {
    namespace components = nil::blueprint::components;

    // names of templates, for argument dependent lookup
    template<typename>
    void generate_circuit();
    template<typename>
    void generate_assignments();
    template<typename>
    void generate_empty_assignments();

    // Which columns a component is given.
    struct Columns {
        std::size_t witness_columns = 0, constant_columns = 0;    // of the table
        std::vector<std::uint32_t> permutation;                   // empty: identity
        std::size_t shift = 0, constant_shift = 0;
        std::size_t public_shift = 0;                             // rows of the public input column to skip

        std::vector<std::uint32_t> w(std::size_t n) {
            std::vector<std::uint32_t> r;
            for (std::size_t i = 0; i < n; i++) {
                r.push_back(i);
            }
            if (shift || !permutation.empty()) {
                for (std::size_t i = 0; i < n; i++) {
                    // a rotation of the columns, reversed for odd keys
                    const std::size_t k = permutation.empty() ? 0 : permutation[0];
                    std::size_t j = (i + k / 2) % n;
                    r[i] = shift + (k & 1 ? n - 1 - j : j);
                }
            }
            witness_columns = std::max(witness_columns, n + 2 * shift);
            return r;
        }
        std::vector<std::uint32_t> c(std::size_t n) {
            std::vector<std::uint32_t> r;
            for (std::size_t i = 0; i < n; i++) {
                r.push_back(i + constant_shift);
            }
            constant_columns = std::max(constant_columns, n + constant_shift);
            return r;
        }
    };

    // Collects public inputs.
    template<typename F>
    struct Inputs {
        std::size_t first;
        std::vector<typename F::value_type> values;
        explicit Inputs(const Columns &c) : first(c.public_shift) {}
        var_t<F> operator()(const typename F::value_type &x) {
            values.push_back(x);
            return var_t<F>(0, first + values.size() - 1, false, var_t<F>::public_input);
        }
    };

    // Component together with its inputs and the values expected from it.
    template<typename F, typename C, typename... Args>
    struct Case {
        using field = F;
        using component = C;
        using V = typename F::value_type;
        C instance;
        typename C::input_type input;
        std::vector<V> publics;
        std::vector<V> expected;        // of result.all_vars()
        std::tuple<Args...> args;       // of the functions which declare rows and gates
        bool accepted = true;           // false: no filling of the table may satisfy the constraints
        std::size_t attempts = 40;      // of the search for other solutions
        bool crossing = true;           // false: fillings for other inputs are not mixed with this one
        std::size_t budget = 64;
        bool exact_rows = true;
        bool wider = false;             // true: may get more witness columns than it announces
        bool listed_inputs = true;      // false: reads more or less than the list of its inputs names
        bool short_filling = true;      // false: not to be tried with this component
        std::size_t constant_column = 0;
        // outputs which the constraints do not determine alone; not searched
        std::vector<std::size_t> free_outputs;
        std::map<std::string, std::shared_ptr<LookupTable<F>>> tables;
        // called with the values of the results instead of comparing with expected, also in the search
        std::function<std::string(const std::vector<V> &)> judge;
        // the same for the search alone
        std::function<std::string(const std::vector<V> &)> judge_other;
        // accepted is false, but a known finding says that these inputs are accepted
        std::string known_acceptance;
        // a known finding says that other results are accepted for these inputs
        std::string known_other;
        // cells which the search leaves alone: column, row inside of the component
        std::function<bool(std::size_t, std::size_t)> fixed;
        // values by which these cells are recognised; without them there is no search
        std::vector<std::tuple<std::size_t, std::size_t, V>> landmarks;
        // change a filled table, whose component starts at the row, into one which has to be refused
        // or to have the same results; may fail to do so
        std::vector<std::function<void(table_t<F> &, std::size_t)>> forgeries;
        // components for other parameters; what they fill in has to be refused or to have the same results
        std::vector<std::shared_ptr<C>> siblings;
        // further inputs; parts of what is filled in for them may not lead to other results
        std::vector<std::vector<V>> others;
    };

    template<typename F, typename C, typename = void>
    struct HasEmpty : std::false_type {};
    template<typename F, typename C>
    struct HasEmpty<F, C,
                    std::void_t<decltype(generate_empty_assignments<F>(
                                    std::declval<const C &>(), std::declval<table_t<F> &>(),
                                    std::declval<const typename C::input_type &>(), std::uint32_t(0))),
                                decltype(std::declval<const C &>().empty_rows_amount)>> : std::true_type {};

    template<typename F, typename C>
    struct Built {
        using V = typename F::value_type;
        circuit_t<F> bp;
        table_t<F> table;
        std::vector<typename C::result_type> result;
        std::size_t rows_after = 0;
        Built(std::size_t w, std::size_t p, std::size_t c, std::size_t s) : table(w, p, c, s) {}

        std::vector<var_t<F>> outputs(std::size_t i = 0) {
            std::vector<var_t<F>> r;
            for (auto v : result.at(i).all_vars()) {
                r.push_back(v.get());
            }
            return r;
        }
    };

    template<typename F, typename C>
    void reserve(Built<F, C> &b, const C &instance) {
        if constexpr (nil::blueprint::use_lookups<C>()) {
            C copy = instance;
            for (auto &t : copy.component_lookup_tables()) {
                if (t.second == 1) {
                    b.bp.reserve_dynamic_table(t.first);
                } else {
                    b.bp.reserve_table(t.first);
                }
            }
        }
    }

    constexpr std::size_t selectors_amount = 96;

    // Both generation functions, and the distribution of what they put off.
    template<typename F, typename C>
    void place(Built<F, C> &b, const C &instance, const typename C::input_type &input, std::size_t row) {
        generate_circuit<F>(instance, b.bp, b.table, input, row);
        b.result.push_back(generate_assignments<F>(instance, b.table, input, row));
        b.rows_after = std::max(b.rows_after, row + instance.rows_amount);
    }
    template<typename F, typename C>
    void finish(Built<F, C> &b, std::size_t start_row, std::size_t constant_column = 0) {
        b.rows_after = b.table.finalize_component_batches(b.bp, b.rows_after);
        if (b.table.constants_amount() > constant_column) {
            b.rows_after = std::max(b.rows_after, b.table.finalize_constant_batches(
                                                      b.bp, constant_column, std::max<std::size_t>(start_row, 1)));
        }
        for (auto &r : b.result) {
            for (auto v : r.all_vars()) {
                if (b.table.get_batch_variable_map().count(v.get())) {
                    v.get() = b.table.get_batch_variable_map().at(v.get());
                }
            }
        }
    }

    template<typename F, typename C>
    std::unique_ptr<Built<F, C>> build(const C &instance, const typename C::input_type &input,
                                       const std::vector<typename F::value_type> &publics, std::size_t start_row,
                                       const Columns &cols, std::size_t other_gates = 0,
                                       const std::function<void(table_t<F> &)> &before = {}) {
        auto b = std::make_unique<Built<F, C>>(cols.witness_columns, 1, std::max<std::size_t>(cols.constant_columns, 1),
                                               selectors_amount);
        reserve(*b, instance);
        if (start_row != 0) {
            b->table.witness(0, start_row - 1) = 0u;
        }
        for (std::size_t i = 0; i < publics.size(); i++) {
            b->table.public_input(0, i) = publics[i];
        }
        if (before) {
            before(b->table);
        }
        // of other components, used in no row
        for (std::size_t i = 0; i < other_gates; i++) {
            b->bp.add_gate({var_t<F>(0, 0) * var_t<F>(0, 0) - typename F::value_type(1000 + i)});
        }
        place(*b, instance, input, start_row);
        return b;
    }

    template<typename CaseType>
    std::string judge_outputs(CaseType &c, const std::vector<typename CaseType::V> &got) {
        std::ostringstream os;
        if (c.judge) {
            return c.judge(got);
        }
        if (got.size() != c.expected.size()) {
            os << got.size() << " results instead of " << c.expected.size();
            return os.str();
        }
        for (std::size_t i = 0; i < got.size(); i++) {
            if (got[i] != c.expected[i]) {
                os << "result " << i << " is " << got[i] << " instead of " << c.expected[i];
                return os.str();
            }
        }
        return "";
    }

    template<typename F, typename C>
    std::vector<typename F::value_type> values(Built<F, C> &b, const System<F> &s, std::size_t i = 0) {
        std::vector<typename F::value_type> r;
        for (const auto &v : b.outputs(i)) {
            r.push_back(s.at(v));
        }
        return r;
    }

    // Mixtures of the fillings for two inputs have to be refused unless they have the right results.
    template<typename Make>
    void check_crossed(pbt::Gen &g, const Make &make) {
        Columns cols, again;
        const std::uint64_t config = g.bits64(), first = g.bits64(), second = g.bits64();
        auto made = [&](Columns &to, std::uint64_t values) {
            pbt::Gen c(config, nullptr), v(values, nullptr);
            auto r = make(c, v, to);
            g.note() << "(" << c.notes.str() << v.notes.str() << ") ";
            return r;
        };
        auto c = made(cols, first);
        auto n = made(again, second);
        using F = typename decltype(c)::field;
        using V = typename F::value_type;
        if (!c.accepted || !c.crossing) {
            return;
        }
        if (n.accepted && n.publics.size() == c.publics.size()) {
            c.others.push_back(n.publics);
        }
        auto b = build<F>(c.instance, c.input, c.publics, 0, cols);
        finish(*b, 0, c.constant_column);
        System<F> s(b->bp, b->table, 0, true, c.tables);
        const std::string p = s.problem();
        REQUIRE(p.empty(), "honest filling is not accepted: " << p);
        s.prepare();
        const auto outs = b->outputs();
        for (std::size_t k = 0; k < c.others.size(); k++) {
            auto o = build<F>(c.instance, c.input, c.others[k], 0, cols);
            finish(*o, 0, c.constant_column);
            System<F> t(o->bp, o->table, s.rows, true, c.tables);
            if (o->bp.num_gates() != b->bp.num_gates() || t.rows != s.rows || !t.problem().empty()) {
                continue;
            }
            std::vector<std::size_t> different;
            for (const auto &v : outs) {
                if (!s.is_locked(v) && s.at(v) != t.at(v)) {
                    different.push_back(s.class_id(v));
                }
            }
            if (different.empty()) {
                continue;
            }
            g.nontrivial(true);
            Rng rng {g.bits64()};
            for (int i = 0; i < 6; i++) {
                const int mode = i < 3 ? i : 1;
                std::vector<std::size_t> start;
                for (std::size_t x : different) {
                    if (i == 0 || i == 2 || rng.below(2)) {
                        start.push_back(x);
                    }
                }
                if (start.empty()) {
                    start = {different[rng.below(different.size())]};
                }
                auto a = s.mixed(t, start, mode, rng);
                g.checked(1);
                if (!a.satisfied) {
                    continue;
                }
                std::vector<V> got;
                for (const auto &v : outs) {
                    auto it = a.changed.find(s.class_id(v));
                    got.push_back(it == a.changed.end() ? s.at(v) : it->second);
                }
                const std::string wrong = c.judge_other ? c.judge_other(got) : judge_outputs(c, got);
                if (!wrong.empty() && !c.known_other.empty() && pbt::known(g, c.known_other)) {
                    return;
                }
                REQUIRE(wrong.empty(), "all constraints hold in a mixture with what is filled in for the other inputs "
                                           << k << " (" << a.changed.size() << " cells), and " << wrong);
                g.label("mixture with the same results");
            }
        }
    }

    template<typename CaseType>
    void check_correct(pbt::Gen &g, CaseType &c, const Columns &cols) {
        using F = typename CaseType::field;
        const std::size_t start_row = g.chance(1, 2) ? g.below(5) : 0;
        const std::size_t other_gates = g.chance(1, 3) ? g.range(1, 3) : 0;
        auto b = build<F>(c.instance, c.input, c.publics, start_row, cols, other_gates);
        finish(*b, start_row, c.constant_column);
        System<F> s(b->bp, b->table, 0, true, c.tables);
        const std::string p = s.problem();
        g.checked(s.constraints_amount() + c.expected.size());
        std::vector<table_t<F>> similar;
        for (const auto &sibling : c.siblings) {
            if (sibling->rows_amount <= c.instance.rows_amount) {
                similar.push_back(b->table);
                generate_assignments<F>(*sibling, similar.back(), c.input, start_row);
            }
        }
        if (!c.accepted) {
            const bool honest = p.empty();
            bool other = honest || mended(s, g.bits64(), c.attempts, c.budget);
            for (std::size_t i = 0; i < similar.size() && !other; i++) {
                System<F> f(b->bp, similar[i], 0, true, c.tables);
                other = f.problem().empty() || mended(f, g.bits64(), 2 + c.attempts / 8, c.budget);
                g.checked(1);
            }
            if (other && !c.known_acceptance.empty() && pbt::known(g, c.known_acceptance)) {
                return;
            }
            REQUIRE(!honest, "the constraints hold for inputs which have to be rejected");
            REQUIRE(!other, "for inputs which have to be rejected there is a filling with which all constraints hold");
            g.checked(c.attempts);
            g.label("rejected");
            return;
        }
        REQUIRE(p.empty(), "honest filling is not accepted: " << p);
        const std::string wrong = judge_outputs(c, values(*b, s));
        REQUIRE(wrong.empty(), wrong);
        for (const auto &t : similar) {
            System<F> f(b->bp, t, 0, true, c.tables);
            if (f.problem().empty()) {
                const std::string different = c.judge_other ? c.judge_other(values(*b, f)) : judge_outputs(c, values(*b, f));
                if (!different.empty() && !c.known_other.empty() && pbt::known(g, c.known_other)) {
                    return;
                }
                REQUIRE(different.empty(), "all constraints also hold for what is filled in for other parameters, where " << different);
                g.label("filling for other parameters accepted");
            }
            g.checked(1);
        }
        for (std::size_t i = 0; i < c.forgeries.size(); i++) {
            auto forged = b->table;
            c.forgeries[i](forged, start_row);
            System<F> f(b->bp, forged, 0, true, c.tables);
            if (f.problem().empty()) {
                g.label("forgery accepted");
                const std::string different = judge_outputs(c, values(*b, f));
                REQUIRE(different.empty(), "all constraints also hold in forged table " << i << " where " << different);
            }
            g.checked(1);
        }
        for (const auto &l : c.landmarks) {
            const auto at = var_t<F>(std::get<0>(l), start_row + std::get<1>(l), false);
            if (s.at(at) != std::get<2>(l)) {
                g.label("other layout");
                return;
            }
        }
        if (c.attempts == 0) {
            return;
        }
        std::vector<var_t<F>> outs = b->outputs(), searched;
        for (std::size_t i = 0; i < outs.size(); i++) {
            if (std::find(c.free_outputs.begin(), c.free_outputs.end(), i) == c.free_outputs.end()) {
                searched.push_back(outs[i]);
            }
        }
        if (c.fixed) {
            s.prepare();
            s.lock_if([&](std::size_t col, std::size_t row) { return row >= start_row && c.fixed(col, row - start_row); });
        }
        std::size_t satisfied = 0;
        const std::string other = other_solution(s, searched, g.bits64(), c.attempts, &satisfied, c.budget,
                                                 c.judge_other ? c.judge_other : c.judge);
        g.checked(c.attempts);
        if (satisfied) {
            g.label("another filling with the same results");
        }
        if (!other.empty() && !c.known_other.empty() && pbt::known(g, c.known_other)) {
            return;
        }
        REQUIRE(other.empty(), other);
    }

    template<typename F>
    std::size_t used_rows(const table_t<F> &t) {
        std::size_t n = 0;
        for (std::size_t i = 0; i < t.witnesses_amount(); i++) {
            n = std::max<std::size_t>(n, t.witness(i).size());
        }
        for (std::size_t i = 0; i < t.constants_amount(); i++) {
            n = std::max<std::size_t>(n, t.constant(i).size());
        }
        for (std::size_t i = 0; i < t.selectors_amount(); i++) {
            n = std::max<std::size_t>(n, t.selector(i).size());
        }
        return n;
    }

    template<typename C, typename = void, typename... Args>
    struct HasManifest : std::false_type {};
    template<typename C, typename... Args>
    struct HasManifest<C, std::void_t<decltype(C::get_manifest(std::declval<Args &>()...))>, Args...> : std::true_type {};
    // what the component says about the columns it needs
    template<typename C, typename... Args>
    auto announced(Args &...a) {
        if constexpr (HasManifest<C, void, Args...>::value) {
            return C::get_manifest(a...);
        } else {
            return C::get_manifest();
        }
    }

    template<typename CaseType>
    void check_resources(pbt::Gen &g, CaseType &c, const Columns &cols) {
        using F = typename CaseType::field;
        using C = typename CaseType::component;
        using var = var_t<F>;
        const std::size_t start_row = g.below(4);
        auto b = build<F>(c.instance, c.input, c.publics, start_row, cols);
        const std::size_t declared = c.instance.rows_amount, used = used_rows<F>(b->table);
        if (c.exact_rows) {
            REQUIRE(used == start_row + declared,
                    "rows up to " << used << " are used by a component of " << declared << " rows at row " << start_row);
        }
        REQUIRE(used <= start_row + declared,
                "rows up to " << used << " are used by a component of " << declared << " rows at row " << start_row);
        const std::size_t gates = b->bp.num_gates() + b->bp.num_lookup_gates();
        std::apply(
            [&](auto... a) {
                const std::size_t rows = C::get_rows_amount(c.instance.witness_amount(), a...);
                REQUIRE(rows == declared, "declared rows " << rows << ", rows of the instance " << declared);
                const std::size_t g1 = C::get_gate_manifest(c.instance.witness_amount(), a...).get_gates_amount();
                REQUIRE(g1 == gates, "declared gates " << g1 << ", gates made " << gates);
                auto manifest = announced<C>(a...);
                const std::size_t columns = c.instance.witness_amount();
                if (!c.wider || columns <= manifest.witness_amount->max_value_if_sat()) {
                    REQUIRE(manifest.witness_amount->check_manifest_param(columns),
                            "the component takes " << columns
                                                   << " witness columns, an amount which it does not announce");
                }
                bool constants = false;
                for (std::size_t i = 0; i < b->table.constants_amount(); i++) {
                    constants = constants || b->table.constant(i).size() > 0;
                }
                REQUIRE(!constants || manifest.constant_required ==
                                          nil::blueprint::manifest_constant_type::type::REQUIRED,
                        "the component uses constants, which it does not announce");
                g.checked(2);
            },
            c.args);
        g.checked(3);
        if (c.listed_inputs) {
            std::set<var> listed;
            for (auto v : c.input.all_vars()) {
                listed.insert(v.get());
            }
            std::set<var> given;
            for (std::size_t i = 0; i < c.publics.size(); i++) {
                given.insert(var(0, cols.public_shift + i, false, var::public_input));
            }
            for (const var &v : given) {
                REQUIRE(listed.count(v), "the input " << v << " is missing in the list of inputs");
            }
            for (const var &v : listed) {
                REQUIRE(given.count(v), "the list of inputs names " << v << ", which is none of them");
            }
            g.checked(given.size());
        }
        // what constraints of enabled gates and copy constraints look at
        auto inside = [&](const var &v, std::int64_t row, const char *what) {
            if (v.type == var::public_input || v.index >= std::numeric_limits<std::size_t>::max() - 4) {
                return;
            }
            const std::int64_t r = v.relative ? row + v.rotation : v.rotation;
            REQUIRE(r >= std::int64_t(start_row) && r < std::int64_t(start_row + declared),
                    what << " looks at " << v << " from row " << row << ", the component has rows " << start_row << " to "
                         << start_row + declared - 1);
            g.checked();
        };
        auto over = [&](std::size_t selector, const auto &e, const char *what) {
            std::set<var> vars;
            nil::crypto3::math::expression_for_each_variable_visitor<var> visitor(
                [&](const var &v) { vars.insert(v); });
            visitor.visit(e);
            const auto &s = b->table.selector(selector);
            for (std::size_t r = 0; r < s.size(); r++) {
                if (!s[r].is_zero()) {
                    for (const var &v : vars) {
                        inside(v, r, what);
                    }
                }
            }
        };
        for (const auto &gate : b->bp.gates()) {
            for (const auto &e : gate.constraints) {
                over(gate.selector_index, e, "a gate");
            }
        }
        for (const auto &gate : b->bp.lookup_gates()) {
            for (const auto &l : gate.constraints) {
                for (const auto &e : l.lookup_input) {
                    over(gate.tag_index, e, "a lookup");
                }
            }
        }
        for (const auto &copy : b->bp.copy_constraints()) {
            inside(copy.first, 0, "a copy constraint");
            inside(copy.second, 0, "a copy constraint");
        }
    }

    // A readable form of everything which defines the circuit.
    template<typename F>
    std::string fingerprint(const circuit_t<F> &bp, const table_t<F> &t) {
        std::ostringstream os;
        for (const auto &g : bp.gates()) {
            os << "gate " << g.selector_index << "\n";
            for (const auto &c : g.constraints) {
                os << c << "\n";
            }
        }
        for (const auto &g : bp.lookup_gates()) {
            os << "lookup " << g.tag_index << "\n";
            for (const auto &c : g.constraints) {
                os << c.table_id;
                for (const auto &e : c.lookup_input) {
                    os << " " << e;
                }
                os << "\n";
            }
        }
        for (const auto &c : bp.copy_constraints()) {
            os << "copy " << c.first << " " << c.second << "\n";
        }
        for (std::size_t i = 0; i < t.constants_amount(); i++) {
            os << "constants " << i << ":";
            for (const auto &x : t.constant(i)) {
                os << " " << x;
            }
            os << "\n";
        }
        for (std::size_t i = 0; i < t.selectors_amount(); i++) {
            os << "selector " << i << ":";
            const auto &s = t.selector(i);
            for (std::size_t r = 0; r < s.size(); r++) {
                if (!s[r].is_zero()) {
                    os << " " << r;
                }
            }
            os << "\n";
        }
        return os.str();
    }
    inline std::string first_difference(const std::string &a, const std::string &b) {
        std::istringstream x(a), y(b);
        std::string p, q;
        for (;;) {
            const bool more_p = bool(std::getline(x, p)), more_q = bool(std::getline(y, q));
            if (!more_p && !more_q) {
                return "";
            }
            if (more_p != more_q || p != q) {
                return "'" + (more_p ? p.substr(0, 300) : "") + "' against '" + (more_q ? q.substr(0, 300) : "") + "'";
            }
        }
    }

    // make(configuration, values, columns) gives a case; equal configurations give equal components.
    template<typename Make>
    void check_placement(pbt::Gen &g, const Make &make) {
        Columns plain, moved;
        const std::size_t key = g.below(8);
        moved.permutation = {std::uint32_t(key)};
        moved.shift = g.below(3);
        moved.constant_shift = g.below(3);
        const std::uint64_t config = g.bits64(), first = g.bits64(), second = g.bits64();
        auto made = [&](Columns &cols, std::uint64_t values) {
            pbt::Gen c(config, nullptr), v(values, nullptr);
            auto r = make(c, v, cols);
            g.note() << "(" << c.notes.str() << v.notes.str() << ") ";
            return r;
        };
        auto a = made(plain, first);
        using CaseType = decltype(a);
        using F = typename CaseType::field;
        using C = typename CaseType::component;
        using V = typename F::value_type;
        if (!a.accepted) {
            return;
        }
        g.nontrivial(true);
        auto m = made(moved, first);
        Columns next = moved;
        next.public_shift = m.publics.size();
        auto n = made(next, second);
        const std::size_t start = 1 + g.below(9);
        g.note() << "moved to row " << start << ", columns " << moved.shift << "+" << key << ", constants "
                 << moved.constant_shift;
        auto empty = [&](const std::vector<V> &publics) {
            auto b = std::make_unique<Built<F, C>>(plain.witness_columns, 1,
                                                   std::max<std::size_t>(plain.constant_columns, 1), selectors_amount);
            reserve(*b, a.instance);
            for (std::size_t i = 0; i < publics.size(); i++) {
                b->table.public_input(0, i) = publics[i];
            }
            return b;
        };
        {
            // the circuit does not depend on the values
            std::vector<V> other = a.publics;
            for (std::size_t i = 0; i < other.size(); i++) {
                other[i] += V(i + 1);
            }
            auto z = empty(other), w = empty(a.publics);
            generate_circuit<F>(a.instance, z->bp, z->table, a.input, 0);
            generate_circuit<F>(a.instance, w->bp, w->table, a.input, 0);
            const std::string d = first_difference(fingerprint<F>(z->bp, z->table), fingerprint<F>(w->bp, w->table));
            REQUIRE(d.empty(), "the circuit depends on the values of the inputs: " << d);
            g.checked(2);
        }
        // at the top of the table, moved, and with a second copy directly below
        auto x = build<F>(a.instance, a.input, a.publics, 0, plain);
        std::vector<V> publics = m.publics;
        if (n.accepted) {
            publics.insert(publics.end(), n.publics.begin(), n.publics.end());
        }
        // values of others in the columns which the component is not given
        const std::size_t height = start + m.instance.rows_amount + n.instance.rows_amount + 2;
        auto other = [&](std::size_t column, std::size_t row) { return V(1000003 + 1009 * column + row); };
        auto others = [&](table_t<F> &t, const auto &use) {
            for (std::size_t r = 0; r < height; r++) {
                for (std::size_t i = 0; i < moved.shift; i++) {
                    use(t.witness(i, r), other(i, r), "witness", i, r);
                    const std::size_t last = moved.witness_columns - 1 - i;
                    use(t.witness(last, r), other(last, r), "witness", last, r);
                }
                for (std::size_t i = 0; i < moved.constant_shift && i < moved.constant_columns; i++) {
                    use(t.constant(i, r), other(100 + i, r), "constant", i, r);
                }
            }
        };
        auto y = build<F>(m.instance, m.input, publics, start, moved, 0, [&](table_t<F> &t) {
            others(t, [](V &to, const V &v, const char *, std::size_t, std::size_t) { to = v; });
        });
        if (n.accepted) {
            place(*y, n.instance, n.input, start + m.instance.rows_amount);
        }
        others(y->table, [&](V &is, const V &was, const char *kind, std::size_t column, std::size_t row) {
            REQUIRE(is == was, kind << " column " << column << ", which the component is not given, was changed in row " << row);
            g.checked();
        });
        REQUIRE(y->bp.num_gates() == x->bp.num_gates() && y->bp.num_lookup_gates() == x->bp.num_lookup_gates(),
                "a second copy of the component needs further gates: " << y->bp.num_gates() << " and "
                                                                       << y->bp.num_lookup_gates() << " instead of "
                                                                       << x->bp.num_gates() << " and "
                                                                       << x->bp.num_lookup_gates());
        finish(*x, 0, a.constant_column);
        finish(*y, start, m.constant_column);
        System<F> sx(x->bp, x->table, 0, true, a.tables), sy(y->bp, y->table, 0, true, a.tables);
        std::string p = sx.problem();
        REQUIRE(p.empty(), "not accepted at row 0: " << p);
        p = sy.problem();
        REQUIRE(p.empty(), "not accepted after moving: " << p);
        p = judge_outputs(m, values(*y, sy, 0));
        REQUIRE(p.empty(), "after moving " << p);
        if (n.accepted) {
            p = judge_outputs(n, values(*y, sy, 1));
            REQUIRE(p.empty(), "in the second copy " << p);
            g.label("two copies");
        }
        g.checked(sx.constraints_amount() + sy.constraints_amount());
        // the short filling of components whose constraints are not needed
        if constexpr (HasEmpty<F, C>::value) {
            if (!a.short_filling) {
                return;
            }
            auto e = empty(a.publics);
            const std::size_t row = g.below(4);
            auto r = generate_empty_assignments<F>(a.instance, e->table, a.input, row);
            const std::size_t used = used_rows<F>(e->table);
            REQUIRE(used <= row + a.instance.empty_rows_amount,
                    "the short filling at row " << row << " uses rows up to " << used);
            std::vector<V> got;
            for (auto v : r.all_vars()) {
                got.push_back(nil::blueprint::var_value(e->table, v.get()));
            }
            p = judge_outputs(a, got);
            REQUIRE(p.empty(), "after the short filling " << p);
            g.checked(got.size() + 1);
            g.label("short filling");
        }
    }

    // Cells of witness columns which enabled gates, lookups and copy constraints look at, and the numbers of classes which
    // copy constraints make of them.
    template<typename F>
    std::pair<std::size_t, std::size_t> constrained(const circuit_t<F> &bp, const table_t<F> &t, System<F> &s) {
        using var = var_t<F>;
        std::set<std::pair<std::size_t, std::size_t>> cells;
        auto over = [&](std::size_t selector, const auto &e) {
            std::set<var> vars;
            nil::crypto3::math::expression_for_each_variable_visitor<var> visitor([&](const var &v) { vars.insert(v); });
            visitor.visit(e);
            const auto &enabled = t.selector(selector);
            for (std::size_t r = 0; r < enabled.size(); r++) {
                for (const var &v : vars) {
                    if (!enabled[r].is_zero() && v.type == var::witness) {
                        cells.insert({v.index, r + v.rotation});
                    }
                }
            }
        };
        for (const auto &gate : bp.gates()) {
            for (const auto &e : gate.constraints) {
                over(gate.selector_index, e);
            }
        }
        for (const auto &gate : bp.lookup_gates()) {
            for (const auto &l : gate.constraints) {
                for (const auto &e : l.lookup_input) {
                    over(gate.tag_index, e);
                }
            }
        }
        for (const auto &copy : bp.copy_constraints()) {
            for (const var &v : {copy.first, copy.second}) {
                if (v.type == var::witness) {
                    cells.insert({v.index, v.rotation});
                }
            }
        }
        s.prepare();
        std::set<std::size_t> classes;
        for (const auto &c : cells) {
            classes.insert(s.class_id(var(c.first, c.second, false)));
        }
        return {cells.size(), classes.size()};
    }

    // The component spread over several groups of columns does the same.
    template<typename Make>
    void check_stretched(pbt::Gen &g, const Make &make) {
        Columns cols;
        cols.public_shift = g.below(4);
        auto c = make(g, g, cols);
        using CaseType = decltype(c);
        using F = typename CaseType::field;
        using C = typename CaseType::component;
        using V = typename F::value_type;
        if (!c.accepted) {
            return;
        }
        g.nontrivial(true);
        const std::size_t times = g.range(1, 3), start = g.below(4), width = c.instance.witness_amount();
        g.note() << ", stretched by " << times << " at row " << start;
        std::vector<V> publics;
        for (std::size_t i = 0; i < cols.public_shift; i++) {
            publics.push_back(V(1000 + i));
        }
        publics.insert(publics.end(), c.publics.begin(), c.publics.end());
        auto x = build<F>(c.instance, c.input, publics, 0, cols);
        finish(*x, 0, c.constant_column);
        components::component_stretcher<F, C> stretched(c.instance, width, width * times);
        Built<F, C> y(width * times, 1, std::max<std::size_t>(cols.constant_columns, 1), selectors_amount);
        reserve(y, c.instance);
        for (std::size_t i = 0; i < publics.size(); i++) {
            y.table.public_input(0, i) = publics[i];
        }
        auto of_circuit = generate_circuit<F>(stretched, y.bp, y.table, c.input, start);
        y.result.push_back(generate_assignments<F>(stretched, y.table, c.input, start));
        auto p = of_circuit.all_vars(), q = y.result[0].all_vars();
        REQUIRE(p.size() == q.size(), "circuit and filling have different numbers of results");
        for (std::size_t i = 0; i < p.size(); i++) {
            REQUIRE(p[i].get() == q[i].get(), "circuit and filling have different results " << i);
        }
        const std::size_t used = used_rows<F>(y.table);
        REQUIRE(used <= start + stretched.rows_amount,
                "rows up to " << used << " are used by a stretched component of " << stretched.rows_amount << " rows");
        REQUIRE(stretched.rows_amount <= c.instance.rows_amount, "there are more rows after stretching");
        g.label(stretched.rows_amount < c.instance.rows_amount ? "fewer rows" : "as many rows");
        finish(y, start, c.constant_column);
        System<F> sx(x->bp, x->table, 0, true, c.tables), sy(y.bp, y.table, 0, true, c.tables);
        std::string problem = sx.problem();
        REQUIRE(problem.empty(), "not accepted: " << problem);
        problem = sy.problem();
        REQUIRE(problem.empty(), "not accepted after stretching: " << problem);
        problem = judge_outputs(c, values(y, sy));
        REQUIRE(problem.empty(), "after stretching " << problem);
        const auto before = constrained<F>(x->bp, x->table, sx), after = constrained<F>(y.bp, y.table, sy);
        REQUIRE(before == after, before.first << " cells in " << before.second << " classes are constrained before and "
                                              << after.first << " in " << after.second << " after stretching");
        g.checked(sy.constraints_amount() + c.expected.size() + 2);
    }
}    // namespace vp

// VP_COMPONENT(name, quick cases, thorough cases) { ... return Case; } VP_REGISTER(name)
// with cfg (what determines the component), g (values) and cols in scope
#define VP_COMPONENT(NAME, QUICK, THOROUGH)                                              \
    static constexpr unsigned vp_quick_##NAME = QUICK, vp_thorough_##NAME = THOROUGH;    \
    static auto vp_make_##NAME(pbt::Gen &cfg, pbt::Gen &g, vp::Columns &cols)

#define VP_REGISTER(NAME)                                                                                       \
    static const vp::Registrar vp_registrar_##NAME(                                                             \
        #NAME, vp_quick_##NAME, vp_thorough_##NAME,                                                             \
        [](pbt::Gen &cfg, pbt::Gen &g, vp::Columns &cols) { return vp_make_##NAME(cfg, g, cols); });

// A component which can be stretched; times are those of the number of cases.
#define VP_STRETCHED(NAME, QUICK, THOROUGH)                                                                        \
    static const pbt::registrar vp_stretched_##NAME(#NAME ".stretched", QUICK, THOROUGH, 60, [](pbt::Gen &g) {     \
        vp::check_stretched(g, [](pbt::Gen &cfg, pbt::Gen &v, vp::Columns &cols) { return vp_make_##NAME(cfg, v, cols); }); \
    });

namespace vp {
    struct Registrar {
        template<typename Make>
        Registrar(const std::string &name, unsigned quick, unsigned thorough, const Make &make) {
            pbt::registry().push_back({name + ".correct", quick * 4, thorough * 4, 60, [make](pbt::Gen &g) {
                                           Columns cols;
                                           auto c = make(g, g, cols);
                                           check_correct(g, c, cols);
                                       }});
            pbt::registry().push_back({name + ".crossed", quick + 1, thorough + 1, 60,
                                       [make](pbt::Gen &g) { check_crossed(g, make); }});
            pbt::registry().push_back({name + ".resources", quick + 1, thorough + 1, 60, [make](pbt::Gen &g) {
                                           Columns cols;
                                           auto c = make(g, g, cols);
                                           check_resources(g, c, cols);
                                       }});
            pbt::registry().push_back({name + ".placement", quick + 1, thorough + 1, 60,
                                       [make](pbt::Gen &g) { check_placement(g, make); }});
        }
    };
}    // namespace vp
