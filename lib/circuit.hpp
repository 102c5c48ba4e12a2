// Independent evaluation of constraint systems and search for unintended solutions.
//
// System<F> takes a snapshot of a circuit and of its filled table. It decides by itself, without any of the code
// under test, whether all gates, lookups and copy constraints hold, and tries to find another filling of the
// witness columns which satisfies everything although the values of some given cells differ.
#pragma once

#include "pbt.hpp"

#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <nil/blueprint/blueprint/plonk/assignment.hpp>
#include <nil/blueprint/blueprint/plonk/circuit.hpp>

namespace vp {
    namespace snark = nil::crypto3::zk::snark;

    template<typename F>
    using arithmetization = snark::plonk_constraint_system<F>;
    template<typename F>
    using circuit_t = nil::blueprint::circuit<arithmetization<F>>;
    template<typename F>
    using table_t = nil::blueprint::assignment<arithmetization<F>>;
    template<typename F>
    using var_t = snark::plonk_variable<typename F::value_type>;

    struct Rng {
        std::uint64_t s;
        std::uint64_t next() {
            std::uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
            return z ^ (z >> 31);
        }
        std::uint64_t below(std::uint64_t n) {
            return n <= 1 ? 0 : next() % n;
        }
    };

    template<typename F, typename Source>
    typename F::value_type uniform_element(Source &&next) {
        typename F::extended_integral_type x;
        for (auto &l : x.backend().l) {
            l = next();
        }
        x.backend().normalize();
        return typename F::value_type(x);
    }

    // 0, 1, -1, small, close to a power of two, close to the modulus, uniform
    template<typename F>
    typename F::value_type some_element(pbt::Gen &g) {
        using V = typename F::value_type;
        switch (g.below(8)) {
            case 0:
                return V(g.below(3));
            case 1:
                return V(g.below(1000));
            case 2:
                return -V(g.below(3));
            case 3: {
                V x = V(2u).pow(g.below(F::modulus_bits + 1));
                return x + V(g.below(3)) - V(1u);
            }
            case 4:
                return -V(g.below(1000));
            case 5:
                return V(g.bits64());
            default:
                return uniform_element<F>([&] { return g.bits64(); });
        }
    }

    // an integer of at most the given number of bits, with the edges preferred
    template<typename F>
    typename F::integral_type some_bits(pbt::Gen &g, std::size_t bits) {
        using I = typename F::extended_integral_type;
        I one = 1u, all = (one << bits) - 1u, x = 0u;
        switch (g.below(6)) {
            case 0:
                x = I(g.below(3));
                break;
            case 1:
                x = all - I(g.below(3));
                break;
            case 2:
                x = (one << g.below(bits)) + I(g.below(3)) - one;
                break;
            default:
                for (auto &l : x.backend().l) {
                    l = g.bits64();
                }
                x.backend().normalize();
        }
        return typename F::integral_type(x & all);
    }

    // Values to look up in one (sub)table.
    template<typename F>
    struct LookupTable {
        using V = typename F::value_type;
        struct Hash {
            std::size_t operator()(const std::vector<V> &v) const {
                std::size_t h = 17;
                for (const auto &x : v) {
                    h = h * 1000003 + std::hash<V>()(x);
                }
                return h;
            }
        };
        std::vector<std::vector<V>> rows;
        std::unordered_set<std::vector<V>, Hash> set;
        // instead of rows
        std::function<bool(const std::vector<V> &)> rule;
        // rows by the values in the columns of the mask
        std::map<std::uint64_t, std::unordered_map<std::vector<V>, std::vector<std::size_t>, Hash>> index;

        bool contains(const std::vector<V> &v) const {
            return rule ? rule(v) : set.count(v) != 0;
        }
        const std::vector<std::size_t> *matching(const std::vector<V> &v, std::uint64_t mask) {
            auto &m = index[mask];
            if (m.empty()) {
                for (std::size_t r = 0; r < rows.size(); r++) {
                    m[project(rows[r], mask)].push_back(r);
                }
            }
            auto it = m.find(project(v, mask));
            return it == m.end() ? nullptr : &it->second;
        }
        static std::vector<V> project(const std::vector<V> &v, std::uint64_t mask) {
            std::vector<V> r;
            for (std::size_t i = 0; i < v.size(); i++) {
                if (mask >> i & 1) {
                    r.push_back(v[i]);
                }
            }
            return r;
        }
    };

    template<typename F>
    std::map<std::string, std::shared_ptr<LookupTable<F>>> &known_tables() {
        static std::map<std::string, std::shared_ptr<LookupTable<F>>> cache;
        return cache;
    }

    // The contents of a named table are taken once per process from the library itself.
    template<typename F>
    std::shared_ptr<LookupTable<F>> lookup_contents(const std::string &name,
                                                    const std::vector<std::vector<typename F::value_type>> &columns,
                                                    const snark::lookup_subtable_definition &sub, bool cached) {
        auto &cache = known_tables<F>();
        if (cached && cache.count(name)) {
            return cache[name];
        }
        auto t = std::make_shared<LookupTable<F>>();
        for (std::size_t r = sub.begin; r <= sub.end && r < columns.at(0).size(); r++) {
            std::vector<typename F::value_type> row;
            for (std::size_t c : sub.column_indices) {
                row.push_back(columns.at(c).at(r));
            }
            t->set.insert(row);
            t->rows.push_back(row);
        }
        if (cached) {
            cache[name] = t;
        }
        return t;
    }

    template<typename F>
    class System {
    public:
        using V = typename F::value_type;
        using var = var_t<F>;
        using expr = nil::crypto3::math::expression<var>;

        std::size_t witnesses, publics, constants, selectors, rows;
        std::vector<std::vector<V>> value;    // witness, public input and constant columns, all of the same height

    private:
        enum op : std::uint8_t { CONST, CELL, ADD, SUB, MUL, POW };
        struct instr {
            op code;
            std::uint32_t arg;       // constant, column or exponent
            std::int32_t rotation;
            bool relative;
        };
        struct program {
            std::vector<instr> code;
            std::vector<V> consts;
        };
        struct compiler : boost::static_visitor<void> {
            program &p;
            const System &s;
            compiler(program &p_, const System &s_) : p(p_), s(s_) {}
            void visit(const expr &e) {
                boost::apply_visitor(*this, e.get_expr());
            }
            void constant(const V &x) {
                p.consts.push_back(x);
                p.code.push_back({CONST, std::uint32_t(p.consts.size() - 1), 0, false});
            }
            void operator()(const nil::crypto3::math::term<var> &t) {
                bool first = true;
                if (t.get_vars().empty() || t.get_coeff() != V::one()) {
                    constant(t.get_coeff());
                    first = false;
                }
                for (const var &v : t.get_vars()) {
                    p.code.push_back({CELL, std::uint32_t(s.column(v)), v.rotation, v.relative});
                    if (!first) {
                        p.code.push_back({MUL, 0, 0, false});
                    }
                    first = false;
                }
            }
            void operator()(const nil::crypto3::math::pow_operation<var> &o) {
                visit(o.get_expr());
                p.code.push_back({POW, std::uint32_t(o.get_power()), 0, false});
            }
            void operator()(const nil::crypto3::math::binary_arithmetic_operation<var> &o) {
                using A = nil::crypto3::math::ArithmeticOperator;
                visit(o.get_expr_left());
                visit(o.get_expr_right());
                p.code.push_back({o.get_op() == A::ADD ? ADD : o.get_op() == A::SUB ? SUB : MUL, 0, 0, false});
            }
        };

        // one constraint at one row
        struct instance {
            std::uint32_t what;    // index into exprs or lookups
            bool lookup;
            std::uint32_t row;
        };
        struct lookup {
            std::vector<std::uint32_t> input;
            std::shared_ptr<LookupTable<F>> table;
            int dynamic = -1;    // index into dynamics
            std::string name;
        };
        struct dynamic_table {
            std::vector<std::vector<std::uint32_t>> options;
            std::vector<std::uint32_t> at;    // rows
        };

        std::vector<program> exprs;
        std::vector<std::string> expr_name;
        std::vector<lookup> lookups;
        std::vector<dynamic_table> dynamics;
        std::vector<instance> instances;
        std::string structure;    // problem met while taking the snapshot
        std::vector<std::pair<var, var>> copies;

        std::size_t cell(std::size_t col, std::size_t row) const {
            return col * rows + row;
        }
        std::uint32_t compile(const expr &e, const std::string &name) {
            program p;
            compiler(p, *this).visit(e);
            exprs.push_back(p);
            expr_name.push_back(name);
            return exprs.size() - 1;
        }

    public:
        std::size_t column(const var &v) const {
            std::size_t base = 0, n = witnesses;
            if (v.type == var::public_input) {
                base = witnesses;
                n = publics;
            } else if (v.type == var::constant) {
                base = witnesses + publics;
                n = constants;
            } else if (v.type == var::selector) {
                base = witnesses + publics + constants;
                n = selectors;
            } else if (v.type != var::witness) {
                pbt::fail("constraint on an uninitialized column");
            }
            if (v.index >= n) {
                std::ostringstream os;
                os << "variable " << v << " is outside of the table";
                pbt::fail(os.str());
            }
            return base + v.index;
        }

        System(const circuit_t<F> &bp, const table_t<F> &t, std::size_t min_rows = 0, bool cache_tables = true,
               const std::map<std::string, std::shared_ptr<LookupTable<F>>> &given = {}) {
            witnesses = t.witnesses_amount();
            publics = t.public_inputs_amount();
            constants = t.constants_amount();
            selectors = t.selectors_amount();
            const std::size_t used = std::max<std::size_t>(min_rows, t.rows_amount());
            rows = 8;
            while (rows < used) {
                rows *= 2;
            }
            for (std::size_t i = 0; i < witnesses; i++) {
                value.push_back(t.witness(i));
            }
            for (std::size_t i = 0; i < publics; i++) {
                value.push_back(t.public_input(i));
            }
            for (std::size_t i = 0; i < constants; i++) {
                value.push_back(t.constant(i));
            }
            for (std::size_t i = 0; i < selectors; i++) {
                value.push_back(t.selector(i));
            }
            for (auto &c : value) {
                c.resize(rows);
            }
            auto enabled = [&](std::size_t s) {
                std::vector<std::uint32_t> r;
                if (s >= t.selectors_amount()) {
                    pbt::fail("gate on selector " + std::to_string(s) + " but the table has only " +
                              std::to_string(t.selectors_amount()) + " selectors");
                }
                const auto &c = t.selector(s);
                for (std::size_t i = 0; i < c.size(); i++) {
                    if (!c[i].is_zero()) {
                        r.push_back(i);
                    }
                }
                return r;
            };
            std::size_t gi = 0;
            for (const auto &g : bp.gates()) {
                std::vector<std::uint32_t> at = enabled(g.selector_index);
                std::size_t ci = 0;
                for (const auto &c : g.constraints) {
                    const std::uint32_t e =
                        compile(c, "gate " + std::to_string(gi) + " constraint " + std::to_string(ci));
                    for (std::uint32_t r : at) {
                        instances.push_back({e, false, r});
                    }
                    ci++;
                }
                gi++;
            }
            if (!bp.lookup_gates().empty()) {
                std::map<std::size_t, std::string> names;
                for (const auto &e : bp.get_reserved_indices()) {
                    names[e.second] = e.first;
                }
                std::map<std::size_t, lookup> known;
                gi = 0;
                for (const auto &g : bp.lookup_gates()) {
                    std::vector<std::uint32_t> at = enabled(g.tag_index);
                    std::size_t ci = 0;
                    for (const auto &c : g.constraints) {
                        if (!names.count(c.table_id)) {
                            pbt::fail("lookup in a table which was not reserved, id " + std::to_string(c.table_id));
                        }
                        const std::string name = names[c.table_id];
                        if (!known.count(c.table_id)) {
                            lookup l;
                            l.name = name;
                            if (given.count(name)) {
                                l.table = given.at(name);
                            } else if (cache_tables && known_tables<F>().count(name)) {
                                l.table = known_tables<F>().at(name);
                            } else if (bp.get_reserved_dynamic_tables().count(name)) {
                                const auto &def = bp.get_reserved_dynamic_tables().at(name);
                                dynamic_table d;
                                for (const auto &o : def->lookup_table.lookup_options) {
                                    std::vector<std::uint32_t> columns;
                                    for (const auto &e : o) {
                                        columns.push_back(compile(e, "table " + name));
                                    }
                                    d.options.push_back(columns);
                                }
                                d.at = enabled(def->lookup_table.tag_index);
                                l.dynamic = dynamics.size();
                                dynamics.push_back(d);
                            } else {
                                const std::string table = name.substr(0, name.find("/")),
                                                  sub = name.substr(name.find("/") + 1);
                                const auto &def = bp.get_reserved_tables().at(table);
                                l.table = lookup_contents<F>(name, def->get_table(), def->subtables.at(sub), cache_tables);
                            }
                            known[c.table_id] = l;
                        }
                        lookup l = known[c.table_id];
                        for (const auto &e : c.lookup_input) {
                            l.input.push_back(compile(e, "lookup gate " + std::to_string(gi) + " constraint " +
                                                             std::to_string(ci) + " in " + name));
                        }
                        lookups.push_back(l);
                        for (std::uint32_t r : at) {
                            instances.push_back({std::uint32_t(lookups.size() - 1), true, r});
                        }
                        ci++;
                    }
                    gi++;
                }
            }
            for (const auto &c : bp.copy_constraints()) {
                for (const var &v : {c.first, c.second}) {
                    column(v);
                    if (v.relative || v.rotation < 0 || std::size_t(v.rotation) >= rows) {
                        std::ostringstream os;
                        os << "copy constraint between " << c.first << " and " << c.second
                           << " names no cell of the table";
                        pbt::fail(os.str());
                    }
                }
                copies.emplace_back(c.first, c.second);
            }
        }

        std::size_t constraints_amount() const {
            return instances.size() + copies.size();
        }
        V at(const var &v) const {
            return value[column(v)].at(v.rotation);
        }

        // empty if everything holds
        std::string problem() const {
            for (const auto &i : instances) {
                if (!holds(i, [&](std::size_t c, std::size_t r) -> const V & { return value[c][r]; })) {
                    return describe(i);
                }
            }
            for (const auto &c : copies) {
                if (at(c.first) != at(c.second)) {
                    std::ostringstream os;
                    os << "copy constraint between " << c.first << " = " << at(c.first) << " and " << c.second << " = "
                       << at(c.second);
                    return os.str();
                }
            }
            return "";
        }

        // --- search for another solution ---

        struct Solution {
            std::map<std::size_t, V> changed;    // class -> value
        };

        bool prepared = false;
        void prepare() {
            prepared = true;
            const std::size_t columns = value.size();
            parent.resize(columns * rows);
            for (std::size_t i = 0; i < parent.size(); i++) {
                parent[i] = i;
            }
            for (const auto &c : copies) {
                join(cell(column(c.first), c.first.rotation), cell(column(c.second), c.second.rotation));
            }
            class_of.resize(parent.size());
            for (std::size_t i = 0; i < parent.size(); i++) {
                class_of[i] = find(i);
            }
            current.resize(parent.size());
            locked.assign(parent.size(), false);
            for (std::size_t c = 0; c < columns; c++) {
                for (std::size_t r = 0; r < rows; r++) {
                    const std::size_t k = class_of[cell(c, r)];
                    current[k] = value[c][r];
                    if (c >= witnesses) {
                        locked[k] = true;
                    }
                }
            }
            touching.assign(parent.size(), {});
            members.assign(instances.size(), {});
            for (std::size_t i = 0; i < instances.size(); i++) {
                std::unordered_set<std::size_t> seen;
                auto add = [&](std::uint32_t e, std::uint32_t row) {
                    for (const auto &in : exprs[e].code) {
                        if (in.code == CELL) {
                            const std::size_t k = class_of[cell(in.arg, row_of(in, row))];
                            if (seen.insert(k).second) {
                                touching[k].push_back(i);
                                members[i].push_back(k);
                            }
                        }
                    }
                };
                if (instances[i].lookup) {
                    const lookup &l = lookups[instances[i].what];
                    for (std::uint32_t e : l.input) {
                        add(e, instances[i].row);
                    }
                    if (l.dynamic >= 0) {
                        for (const auto &o : dynamics[l.dynamic].options) {
                            for (std::uint32_t e : o) {
                                for (std::uint32_t r : dynamics[l.dynamic].at) {
                                    add(e, r);
                                }
                            }
                        }
                    }
                } else {
                    add(instances[i].what, instances[i].row);
                }
            }
            initially_broken.clear();
            for (std::size_t i = 0; i < instances.size(); i++) {
                if (!ok(i)) {
                    initially_broken.insert(i);
                }
            }
            used.clear();
            for (std::size_t k = 0; k < touching.size(); k++) {
                if (!touching[k].empty() && !locked[k]) {
                    used.push_back(k);
                }
            }
        }
        void lock(const var &v) {
            locked[class_of[cell(column(v), v.rotation)]] = true;
            used.erase(std::remove_if(used.begin(), used.end(), [&](std::size_t k) { return locked[k]; }), used.end());
        }
        // locks the witnesses for whose column and row the predicate holds
        template<typename P>
        void lock_if(const P &p) {
            for (std::size_t c = 0; c < witnesses; c++) {
                for (std::size_t r = 0; r < rows; r++) {
                    if (p(c, r)) {
                        locked[class_of[cell(c, r)]] = true;
                    }
                }
            }
            used.erase(std::remove_if(used.begin(), used.end(), [&](std::size_t k) { return locked[k]; }), used.end());
        }
        std::size_t class_id(const var &v) const {
            return class_of[cell(column(v), v.rotation)];
        }
        bool is_locked(const var &v) const {
            return locked[class_id(v)];
        }
        std::size_t free_classes() const {
            return used.size();
        }

        struct Attempt {
            bool satisfied = false;
            std::map<std::size_t, V> changed;
        };

        // Gives the class a new value and mends what it breaks by changing further classes.
        Attempt attempt(const std::map<std::size_t, V> &start, Rng &rng, std::size_t budget = 64) {
            Attempt a;
            std::vector<std::pair<std::size_t, V>> undo;
            std::set<std::size_t> broken = initially_broken;
            auto set = [&](std::size_t k, const V &x) {
                undo.emplace_back(k, current[k]);
                current[k] = x;
                a.changed[k] = x;
                for (std::size_t i : touching[k]) {
                    if (ok(i)) {
                        broken.erase(i);
                    } else {
                        broken.insert(i);
                    }
                }
            };
            for (const auto &s : start) {
                set(s.first, s.second);
            }
            std::size_t steps = 0;
            while (!broken.empty() && steps++ < budget) {
                // the constraint with the fewest ways out first, among a few
                std::size_t best = *broken.begin();
                std::vector<std::size_t> best_free = movable(best, a.changed);
                std::size_t looked = 0;
                for (std::size_t i : broken) {
                    if (++looked > 6 || best_free.empty()) {
                        break;
                    }
                    std::vector<std::size_t> f = movable(i, a.changed);
                    if (f.size() < best_free.size()) {
                        best = i;
                        best_free = f;
                    }
                }
                bool moved = false;
                while (!best_free.empty() && !moved) {
                    const std::size_t j = rng.below(best_free.size());
                    const std::size_t k = best_free[j];
                    best_free.erase(best_free.begin() + j);
                    std::vector<V> options = solve(best, k, rng);
                    if (!options.empty()) {
                        set(k, options[rng.below(options.size())]);
                        moved = true;
                    }
                }
                if (!moved) {
                    break;
                }
            }
            a.satisfied = broken.empty();
            for (std::size_t i = undo.size(); i > 0; i--) {
                current[undo[i - 1].first] = undo[i - 1].second;
            }
            return a;
        }

        // Mixes this filling with another one of the same circuit: the given classes get their values from the other
        // one, and so does what is needed to mend what this breaks. mode 0: everything in a broken constraint,
        // 1: one class at a time, 2: starting from the whole other filling and going back where it is broken.
        // Locked classes keep their values.
        Attempt mixed(const System &other, const std::vector<std::size_t> &start, int mode, Rng &rng) {
            Attempt a;
            std::vector<std::pair<std::size_t, V>> undo;
            std::set<std::size_t> broken = initially_broken, kept(start.begin(), start.end());
            auto of = [&](const System &s, std::size_t k) -> const V & { return s.value[k / rows][k % rows]; };
            auto set = [&](std::size_t k, const V &x) {
                undo.emplace_back(k, current[k]);
                current[k] = x;
                a.changed[k] = x;
                for (std::size_t i : touching[k]) {
                    if (ok(i)) {
                        broken.erase(i);
                    } else {
                        broken.insert(i);
                    }
                }
            };
            const System &target = mode == 2 ? *this : other;
            if (mode == 2) {
                for (std::size_t k : used) {
                    if (of(other, k) != current[k]) {
                        undo.emplace_back(k, current[k]);
                        current[k] = of(other, k);
                        a.changed[k] = current[k];
                    }
                }
                broken.clear();
                for (std::size_t i = 0; i < instances.size(); i++) {
                    if (!ok(i)) {
                        broken.insert(i);
                    }
                }
            } else {
                for (std::size_t k : start) {
                    set(k, of(other, k));
                }
            }
            while (!broken.empty()) {
                std::vector<std::size_t> options;
                const std::size_t i = *broken.begin();
                for (std::size_t k : members[i]) {
                    if (!locked[k] && (mode != 2 || !kept.count(k)) && current[k] != of(target, k)) {
                        options.push_back(k);
                    }
                }
                if (options.empty()) {
                    break;
                }
                if (mode == 1) {
                    options = {options[rng.below(options.size())]};
                }
                for (std::size_t k : options) {
                    set(k, of(target, k));
                }
            }
            a.satisfied = broken.empty();
            for (std::size_t i = undo.size(); i > 0; i--) {
                current[undo[i - 1].first] = undo[i - 1].second;
            }
            return a;
        }

        V perturbed(std::size_t k, Rng &rng) const {
            const V &x = current[k];
            V y = x;
            while (y == x) {
                switch (rng.below(10)) {
                    case 8:
                    case 9: {
                        // what its neighbours suggest
                        if (touching[k].empty()) {
                            break;
                        }
                        const auto &near = members[touching[k][rng.below(touching[k].size())]];
                        const V &a = current[near[rng.below(near.size())]], &b = current[near[rng.below(near.size())]];
                        const std::size_t how = rng.below(5);
                        y = how == 0 ? a : how == 1 ? a * b : how == 2 ? a + b : how == 3 ? a - b : a.is_zero() ? a : a.inversed();
                        break;
                    }
                    case 0:
                        y = x + V::one();
                        break;
                    case 1:
                        y = x - V::one();
                        break;
                    case 2:
                        y = V(rng.below(4));
                        break;
                    case 3:
                        y = -x;
                        break;
                    case 4:
                        y = V::one() - x;
                        break;
                    case 5:
                        y = x + V(2u).pow(rng.below(F::modulus_bits));
                        break;
                    default:
                        y = uniform_element<F>([&] { return rng.next(); });
                }
            }
            return y;
        }
        // copy constraints ask for the equality of different fixed values
        bool contradictory() const {
            std::unordered_map<std::size_t, std::pair<std::size_t, std::size_t>> seen;
            for (std::size_t c = witnesses; c < value.size(); c++) {
                for (std::size_t r = 0; r < rows; r++) {
                    auto p = seen.insert({class_of[cell(c, r)], {c, r}});
                    if (!p.second && value[p.first->second.first][p.first->second.second] != value[c][r]) {
                        return true;
                    }
                }
            }
            return false;
        }
        const std::vector<std::size_t> &free_list() const {
            return used;
        }
        const V &class_value(std::size_t k) const {
            return current[k];
        }

    private:
        std::vector<std::size_t> parent, class_of, used;
        std::set<std::size_t> initially_broken;
        std::vector<V> current;
        std::vector<bool> locked;
        std::vector<std::vector<std::size_t>> touching, members;

        std::size_t find(std::size_t i) {
            while (parent[i] != i) {
                parent[i] = parent[parent[i]];
                i = parent[i];
            }
            return i;
        }
        void join(std::size_t a, std::size_t b) {
            parent[find(a)] = find(b);
        }
        std::size_t row_of(const instr &in, std::uint32_t row) const {
            if (!in.relative) {
                return in.rotation;
            }
            return (std::int64_t(row) + in.rotation + std::int64_t(rows)) % std::int64_t(rows);
        }
        template<typename Get>
        V eval(std::uint32_t e, std::uint32_t row, const Get &get) const {
            static thread_local std::vector<V> stack;
            stack.clear();
            for (const auto &in : exprs[e].code) {
                switch (in.code) {
                    case CONST:
                        stack.push_back(exprs[e].consts[in.arg]);
                        break;
                    case CELL:
                        stack.push_back(get(in.arg, row_of(in, row)));
                        break;
                    case POW:
                        stack.back() = stack.back().pow(in.arg);
                        break;
                    default: {
                        V y = stack.back();
                        stack.pop_back();
                        if (in.code == ADD) {
                            stack.back() += y;
                        } else if (in.code == SUB) {
                            stack.back() -= y;
                        } else {
                            stack.back() *= y;
                        }
                    }
                }
            }
            return stack.back();
        }
        template<typename Get>
        std::vector<V> eval_input(const lookup &l, std::uint32_t row, const Get &get) const {
            std::vector<V> in;
            for (std::uint32_t e : l.input) {
                in.push_back(eval(e, row, get));
            }
            return in;
        }
        template<typename Get>
        bool holds(const instance &i, const Get &get) const {
            if (!i.lookup) {
                return eval(i.what, i.row, get).is_zero();
            }
            const lookup &l = lookups[i.what];
            const std::vector<V> in = eval_input(l, i.row, get);
            if (l.dynamic < 0) {
                return l.table->contains(in);
            }
            const dynamic_table &d = dynamics[l.dynamic];
            for (std::uint32_t r : d.at) {
                for (const auto &o : d.options) {
                    if (o.size() != in.size()) {
                        continue;
                    }
                    bool same = true;
                    for (std::size_t c = 0; same && c < o.size(); c++) {
                        same = eval(o[c], r, get) == in[c];
                    }
                    if (same) {
                        return true;
                    }
                }
            }
            return false;
        }
        std::string describe(const instance &i) const {
            auto get = [&](std::size_t c, std::size_t r) -> const V & { return value[c][r]; };
            std::ostringstream os;
            if (!i.lookup) {
                os << expr_name[i.what] << " at row " << i.row << " is " << eval(i.what, i.row, get);
            } else {
                const lookup &l = lookups[i.what];
                os << expr_name[l.input.at(0)] << " at row " << i.row << ":";
                for (const V &x : eval_input(l, i.row, get)) {
                    os << " " << x;
                }
            }
            return os.str();
        }
        bool ok(std::size_t i) const {
            return holds(instances[i],
                         [&](std::size_t c, std::size_t r) -> const V & { return current[class_of[cell(c, r)]]; });
        }
        std::vector<std::size_t> movable(std::size_t i, const std::map<std::size_t, V> &changed) const {
            std::vector<std::size_t> r;
            for (std::size_t k : members[i]) {
                if (!locked[k] && !changed.count(k)) {
                    r.push_back(k);
                }
            }
            return r;
        }

        // Roots of a polynomial known through its values at 0, 1, 2, 3; empty if its degree exceeds two.
        static std::vector<V> roots(const V &f0, const V &f1, const V &f2, const V &f3, bool &low_degree) {
            std::vector<V> r;
            const V two(2u), half = two.inversed();
            const V c2 = (f2 - two * f1 + f0) * half, c1 = f1 - f0 - c2;
            low_degree = f0 + V(3u) * c1 + V(9u) * c2 == f3;
            if (!low_degree) {
                return r;
            }
            if (c2.is_zero()) {
                if (!c1.is_zero()) {
                    r.push_back(-f0 * c1.inversed());
                }
                return r;
            }
            const V d = c1 * c1 - V(4u) * c2 * f0;
            if (d.is_square()) {
                const V s = d.sqrt(), q = (two * c2).inversed();
                r.push_back((-c1 + s) * q);
                r.push_back((-c1 - s) * q);
            }
            return r;
        }

        // Values of the class, other than the present one, with which the constraint holds.
        std::vector<V> solve(std::size_t i, std::size_t k, Rng &rng) {
            const instance &in = instances[i];
            const V old = current[k];
            auto get = [&](std::size_t c, std::size_t r) -> const V & { return current[class_of[cell(c, r)]]; };
            std::vector<V> found;
            auto value_with = [&](std::uint32_t e, std::uint32_t row, const V &x) {
                current[k] = x;
                V f = eval(e, row, get);
                current[k] = old;
                return f;
            };
            auto candidates = [&](std::uint32_t e, std::uint32_t row, const V &target) {
                std::vector<V> r;
                bool low;
                r = roots(value_with(e, row, V(0u)) - target, value_with(e, row, V(1u)) - target,
                          value_with(e, row, V(2u)) - target, value_with(e, row, V(3u)) - target, low);
                if (!low) {
                    for (int x = -2; x < 10; x++) {
                        if (value_with(e, row, V(x)) == target) {
                            r.push_back(V(x));
                        }
                    }
                }
                return r;
            };
            if (!in.lookup) {
                found = candidates(in.what, in.row, V::zero());
            } else {
                const lookup &l = lookups[in.what];
                if (l.dynamic >= 0) {
                    return found;
                }
                std::uint64_t fixed = 0;
                int depends = -1;
                const std::vector<V> input = eval_input(l, in.row, get);
                current[k] = old + V(1u);
                const std::vector<V> moved = eval_input(l, in.row, get);
                current[k] = old;
                for (std::size_t c = 0; c < input.size(); c++) {
                    if (input[c] == moved[c]) {
                        fixed |= std::uint64_t(1) << c;
                    } else {
                        depends = c;
                    }
                }
                if (depends < 0) {
                    return found;
                }
                std::vector<std::size_t> all;
                const std::vector<std::size_t> *m = nullptr;
                if (fixed) {
                    m = l.table->matching(input, fixed);
                    if (!m) {
                        return found;
                    }
                }
                const std::size_t n = m ? m->size() : l.table->rows.size();
                for (std::size_t tries = 0; tries < 4 && tries < n; tries++) {
                    const std::size_t row = m ? (*m)[rng.below(n)] : rng.below(n);
                    for (const V &x : candidates(l.input[depends], in.row, l.table->rows[row][depends])) {
                        found.push_back(x);
                    }
                }
            }
            std::vector<V> good;
            for (const V &x : found) {
                if (x == old) {
                    continue;
                }
                current[k] = x;
                if (ok(i)) {
                    good.push_back(x);
                }
                current[k] = old;
            }
            return good;
        }
    };

    // Looks for a filling of the witness columns with the same public inputs and constants in which one of the given
    // cells has another value, or, if judge is given, has values it objects to. Returns a description or an empty string.
    template<typename F>
    std::string other_solution(
        System<F> &s, const std::vector<var_t<F>> &outputs, std::uint64_t seed, std::size_t attempts,
        std::size_t *satisfied = nullptr, std::size_t budget = 64,
        const std::function<std::string(const std::vector<typename F::value_type> &)> &judge = nullptr) {
        using V = typename F::value_type;
        Rng rng {seed};
        if (!s.prepared) {
            s.prepare();
        }
        std::set<std::size_t> targets;
        for (const auto &v : outputs) {
            if (!s.is_locked(v)) {
                targets.insert(s.class_id(v));
            }
        }
        const std::vector<std::size_t> out(targets.begin(), targets.end());
        if (targets.empty() || s.free_classes() == 0) {
            return "";
        }
        for (std::size_t i = 0; i < attempts; i++) {
            const bool from_output = rng.below(2);
            const std::size_t k = from_output ? out[rng.below(out.size())] : s.free_list()[rng.below(s.free_classes())];
            auto a = s.attempt({{k, s.perturbed(k, rng)}}, rng, budget);
            if (!a.satisfied) {
                continue;
            }
            if (satisfied) {
                ++*satisfied;
            }
            if (judge) {
                std::vector<V> got;
                for (const auto &v : outputs) {
                    auto it = a.changed.find(s.class_id(v));
                    got.push_back(it == a.changed.end() ? s.class_value(s.class_id(v)) : it->second);
                }
                const std::string wrong = judge(got);
                if (!wrong.empty()) {
                    return "all constraints also hold in a table where " + wrong;
                }
                continue;
            }
            for (const auto &v : outputs) {
                auto it = a.changed.find(s.class_id(v));
                if (it != a.changed.end() && it->second != s.class_value(it->first)) {
                    std::ostringstream os;
                    os << "all constraints also hold with " << v << " = " << it->second << " instead of "
                       << s.class_value(it->first) << " (" << a.changed.size() << " cells changed)";
                    return os.str();
                }
            }
        }
        return "";
    }

    // For a system which has to be unsatisfiable with its public inputs: tries to mend the given filling.
    template<typename F>
    bool mended(System<F> &s, std::uint64_t seed, std::size_t attempts, std::size_t budget = 64) {
        Rng rng {seed};
        if (!s.prepared) {
            s.prepare();
        }
        if (s.contradictory()) {
            return false;
        }
        for (std::size_t i = 0; i < attempts; i++) {
            std::map<std::size_t, typename F::value_type> start;
            if (i > attempts / 4 && s.free_classes()) {
                const std::size_t k = s.free_list()[rng.below(s.free_classes())];
                start[k] = s.perturbed(k, rng);
            }
            if (s.attempt(start, rng, budget).satisfied) {
                return true;
            }
        }
        return false;
    }
}    // namespace vp
