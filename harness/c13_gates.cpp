// Gates are shared exactly when they are the same gate.
#include "circuit.hpp"

#include <nil/crypto3/algebra/curves/pallas.hpp>

using F = nil::crypto3::algebra::curves::pallas::base_field_type;
using V = F::value_type;
using var = vp::var_t<F>;
using constraint = vp::snark::plonk_constraint<F>;
using lookup_constraint = vp::snark::plonk_lookup_constraint<F>;

// A polynomial, by monomials.
struct key {
    int type;
    std::size_t index;
    int rotation;
    bool operator<(const key &o) const {
        return std::tie(type, index, rotation) < std::tie(o.type, o.index, o.rotation);
    }
    bool operator==(const key &o) const {
        return std::tie(type, index, rotation) == std::tie(o.type, o.index, o.rotation);
    }
};
using monomial = std::vector<key>;
using polynomial = std::map<monomial, int>;

static void trim(polynomial &p) {
    for (auto i = p.begin(); i != p.end();) {
        i = i->second == 0 ? p.erase(i) : std::next(i);
    }
}
static key some_key(pbt::Gen &g) {
    static const int types[] = {var::witness, var::witness, var::constant, var::selector};
    return {types[g.below(4)], g.chance(1, 12) ? 15 + g.below(80) : g.below(3), int(g.below(3)) - 1};
}
static polynomial some_polynomial(pbt::Gen &g, bool may_vanish = false) {
    polynomial p;
    const std::size_t n = may_vanish && g.chance(1, 5) ? 0 : g.range(1, 3);
    for (std::size_t i = 0; i < n; i++) {
        monomial m;
        const std::size_t d = g.below(4);
        for (std::size_t j = 0; j < d; j++) {
            m.push_back(some_key(g));
        }
        std::sort(m.begin(), m.end());
        p[m] += int(g.range(1, 3)) * (g.flag() ? 1 : -1);
    }
    trim(p);
    if (p.empty() && !may_vanish) {
        p[monomial {some_key(g)}] = 1;
    }
    return p;
}
// one step away from p
static polynomial neighbour(pbt::Gen &g, polynomial p) {
    if (p.empty()) {
        return some_polynomial(g);
    }
    auto it = std::next(p.begin(), g.below(p.size()));
    monomial m = it->first;
    const int c = it->second;
    switch (m.empty() ? 0 : g.below(5)) {
        case 0:
            p[m] = c + (g.flag() ? 1 : -1);
            break;
        case 1:
            p.erase(it);
            m[g.below(m.size())].index ^= 1;
            std::sort(m.begin(), m.end());
            p[m] += c;
            break;
        case 2: {
            p.erase(it);
            key &k = m[g.below(m.size())];
            k.rotation = k.rotation == 1 ? -1 : k.rotation + 1;
            std::sort(m.begin(), m.end());
            p[m] += c;
            break;
        }
        case 3: {
            p.erase(it);
            key &k = m[g.below(m.size())];
            k.type = k.type == var::witness ? var::constant : k.type == var::constant ? var::selector : var::witness;
            std::sort(m.begin(), m.end());
            p[m] += c;
            break;
        }
        default:
            p[monomial()] += 1;
    }
    trim(p);
    return p;
}
static constraint expression_of(const polynomial &p) {
    constraint e = constraint(V::zero());
    bool first = true;
    for (const auto &m : p) {
        constraint t = constraint(m.second < 0 ? -V(unsigned(-m.second)) : V(unsigned(m.second)));
        for (const key &k : m.first) {
            t = t * var(k.index, k.rotation, true, var::column_type(k.type));
        }
        e = first ? t : e + t;
        first = false;
    }
    return e;
}
static std::string text(const polynomial &p) {
    std::ostringstream os;
    os << (p.empty() ? "0" : "");
    for (const auto &m : p) {
        os << (m.second < 0 ? "-" : "+") << std::abs(m.second);
        for (const key &k : m.first) {
            os << "*" << "wpcs"[k.type] << k.index << (k.rotation < 0 ? "-" : k.rotation ? "+" : "");
        }
    }
    return os.str();
}

using ordinary = std::vector<polynomial>;                                           // of one gate
using lookups = std::vector<std::pair<std::size_t, std::vector<polynomial>>>;       // table, inputs

static lookup_constraint lookup_of(const lookups::value_type &l) {
    lookup_constraint c;
    c.table_id = l.first;
    for (const auto &p : l.second) {
        c.lookup_input.push_back(expression_of(p));
    }
    return c;
}

template<typename T>
static T sorted(T t) {
    std::sort(t.begin(), t.end());
    return t;
}

static ordinary some_gate(pbt::Gen &g, const std::vector<ordinary> &before) {
    if (!before.empty() && g.chance(3, 4)) {
        ordinary o = before[g.below(before.size())];
        switch (g.below(6)) {
            case 0:
            case 1:
                break;    // the same
            case 2:
                o[g.below(o.size())] = neighbour(g, o[g.below(o.size())]);
                break;
            case 3:
                o.push_back(o[g.below(o.size())]);
                break;
            case 4:
                if (o.size() > 1) {
                    o.erase(o.begin() + g.below(o.size()));
                }
                break;
            default: {
                polynomial &p = o[g.below(o.size())];
                for (auto &m : p) {
                    m.second = -m.second;
                }
            }
        }
        for (std::size_t i = o.size(); i > 1; i--) {
            std::swap(o[i - 1], o[g.below(i)]);
        }
        for (auto &p : o) {
            if (p.empty()) {
                p = some_polynomial(g);    // a constraint which holds always is no constraint
            }
        }
        return o;
    }
    ordinary o;
    const std::size_t n = g.chance(1, 20) ? g.range(18, 26) : g.range(1, 4);
    for (std::size_t i = 0; i < n; i++) {
        o.push_back(o.empty() || g.flag() ? some_polynomial(g) : o[g.below(o.size())]);
    }
    return o;
}
static lookups some_lookups(pbt::Gen &g, const std::vector<lookups> &before) {
    if (!before.empty() && g.chance(3, 4)) {
        lookups o = before[g.below(before.size())];
        auto &l = o[g.below(o.size())];
        switch (g.below(6)) {
            case 0:
            case 1:
                break;
            case 2: {
                polynomial &p = l.second[g.below(l.second.size())];
                p = neighbour(g, p);
                break;
            }
            case 3:
                l.first = 1 + (l.first - 1 + (std::size_t(1) << g.below(6))) % 60;
                break;
            case 4:
                std::swap(l.second.front(), l.second.back());
                break;
            default:
                o.push_back(l);
        }
        for (std::size_t i = o.size(); i > 1; i--) {
            std::swap(o[i - 1], o[g.below(i)]);
        }
        return o;
    }
    lookups o;
    const std::size_t n = g.chance(1, 30) ? g.range(18, 26) : g.range(1, 4);
    for (std::size_t i = 0; i < n; i++) {
        std::vector<polynomial> in;
        const std::size_t k = n < 5 && g.chance(1, 30) ? g.range(18, 26) : g.range(1, 4);
        for (std::size_t j = 0; j < k; j++) {
            in.push_back(some_polynomial(g, true));
        }
        o.emplace_back(g.chance(1, 8) ? g.range(1, 60) : g.range(1, 3), in);
    }
    return o;
}

// The inputs of a lookup in the same table have the same number of columns.
static bool comparable(const lookups &a, const std::vector<lookups> &all) {
    for (const auto &b : all) {
        for (const auto &x : a) {
            for (const auto &y : b) {
                if (x.first == y.first && x.second.size() != y.second.size()) {
                    return false;
                }
            }
        }
    }
    for (const auto &x : a) {
        for (const auto &y : a) {
            if (x.first == y.first && x.second.size() != y.second.size()) {
                return false;
            }
        }
    }
    return true;
}

PBT_TEST(adding, 30000, 400000) {
    vp::circuit_t<F> bp;
    std::map<ordinary, std::size_t> selector;
    std::map<lookups, std::size_t> lookup_selector;
    std::vector<ordinary> before;
    std::vector<lookups> lookups_before;
    std::vector<std::pair<std::size_t, ordinary>> made;
    std::vector<std::pair<std::size_t, lookups>> lookups_made;
    std::size_t next = 0, shared = 0;
    const std::size_t steps = g.range(1, 12);
    for (std::size_t s = 0; s < steps; s++) {
        const std::size_t kind = g.below(12);
        if (kind < 6) {
            const ordinary o = some_gate(g, before);
            std::vector<constraint> cs;
            g.note() << "gate {";
            for (const auto &p : o) {
                g.note() << " " << text(p);
                cs.push_back(expression_of(p));
            }
            g.note() << " }";
            before.push_back(o);
            std::size_t got;
            if (cs.size() == 1 && g.flag()) {
                g.note() << " given as one constraint";
                got = bp.add_gate(cs[0]);
            } else if (cs.size() == 2 && g.flag()) {
                g.note() << " given as list";
                got = bp.add_gate({cs[0], cs[1]});
            } else {
                got = bp.add_gate(cs);
            }
            const auto it = selector.find(sorted(o));
            const std::size_t want = it == selector.end() ? next : it->second;
            g.note() << " -> " << got << "; ";
            REQUIRE(got == want, "the gate gets selector " << got << " instead of " << want);
            if (it == selector.end()) {
                selector[sorted(o)] = next++;
                made.emplace_back(want, o);
            } else {
                shared++;
            }
        } else if (kind < 10) {
            const lookups o = some_lookups(g, lookups_before);
            if (!comparable(o, lookups_before)) {
                continue;
            }
            std::vector<lookup_constraint> cs;
            g.note() << "lookup gate {";
            for (const auto &l : o) {
                g.note() << " table " << l.first << ":";
                for (const auto &p : l.second) {
                    g.note() << " " << text(p);
                }
                cs.push_back(lookup_of(l));
            }
            g.note() << " }";
            lookups_before.push_back(o);
            std::size_t got;
            if (cs.size() == 1 && g.flag()) {
                g.note() << " given as one constraint";
                got = bp.add_lookup_gate(cs[0]);
            } else {
                got = bp.add_lookup_gate(cs);
            }
            const auto it = lookup_selector.find(sorted(o));
            const std::size_t want = it == lookup_selector.end() ? next : it->second;
            g.note() << " -> " << got << "; ";
            REQUIRE(got == want, "the lookup gate gets selector " << got << " instead of " << want);
            if (it == lookup_selector.end()) {
                lookup_selector[sorted(o)] = next++;
                lookups_made.emplace_back(want, o);
            } else {
                shared++;
            }
        } else if (kind == 10) {
            const std::size_t got = bp.get_dynamic_lookup_table_selector();
            g.note() << "selector of a table -> " << got << "; ";
            REQUIRE(got == next, "a table gets selector " << got << " instead of " << next);
            next++;
        } else if (next != 0) {
            // added to a selector on purpose
            const std::size_t to = g.below(next);
            const ordinary o = some_gate(g, {});
            std::vector<constraint> cs;
            g.note() << "gate of " << o.size() << " constraints to selector " << to << "; ";
            for (const auto &p : o) {
                cs.push_back(expression_of(p));
            }
            REQUIRE(bp.add_gate(to, cs) == to, "another selector is used than the given one");
            made.emplace_back(to, o);
        }
        g.checked();
    }
    g.nontrivial(shared != 0 && next > 1);
    REQUIRE(bp.get_next_selector_index() == next,
            "next selector is " << bp.get_next_selector_index() << " instead of " << next);
    REQUIRE(bp.num_gates() == made.size() && bp.gates().size() == made.size(),
            bp.num_gates() << " gates instead of " << made.size());
    REQUIRE(bp.num_lookup_gates() == lookups_made.size() && bp.lookup_gates().size() == lookups_made.size(),
            bp.num_lookup_gates() << " lookup gates instead of " << lookups_made.size());
    for (std::size_t i = 0; i < made.size(); i++) {
        const auto &gate = bp.gates()[i];
        REQUIRE(gate.selector_index == made[i].first, "gate " << i << " is on selector " << gate.selector_index);
        REQUIRE(gate.constraints.size() == made[i].second.size(),
                "gate " << i << " has " << gate.constraints.size() << " constraints");
        for (std::size_t j = 0; j < gate.constraints.size(); j++) {
            std::ostringstream a, b;
            a << gate.constraints[j];
            b << expression_of(made[i].second[j]);
            REQUIRE(a.str() == b.str(), "constraint " << j << " of gate " << i << " is " << a.str());
        }
    }
    for (std::size_t i = 0; i < lookups_made.size(); i++) {
        const auto &gate = bp.lookup_gates()[i];
        REQUIRE(gate.tag_index == lookups_made[i].first, "lookup gate " << i << " is on selector " << gate.tag_index);
        REQUIRE(gate.constraints.size() == lookups_made[i].second.size(),
                "lookup gate " << i << " has " << gate.constraints.size() << " constraints");
        for (std::size_t j = 0; j < gate.constraints.size(); j++) {
            const auto &want = lookups_made[i].second[j];
            REQUIRE(gate.constraints[j].table_id == want.first && gate.constraints[j].lookup_input.size() == want.second.size(),
                    "constraint " << j << " of lookup gate " << i << " is about table " << gate.constraints[j].table_id);
            for (std::size_t k = 0; k < want.second.size(); k++) {
                std::ostringstream a, b;
                a << gate.constraints[j].lookup_input[k];
                b << expression_of(want.second[k]);
                REQUIRE(a.str() == b.str(), "input " << k << " of lookup " << j << " of gate " << i << " is " << a.str());
            }
        }
    }
    g.checked(made.size() + lookups_made.size());
}

// The identities themselves.
PBT_TEST(identity, 20000, 200000) {
    std::vector<ordinary> os;
    std::vector<lookups> ls;
    for (std::size_t i = 0; i < 4; i++) {
        os.push_back(some_gate(g, os));
        const lookups l = some_lookups(g, ls);
        if (comparable(l, ls)) {
            ls.push_back(l);
        }
    }
    std::vector<nil::blueprint::gate_id<F>> a;
    std::vector<nil::blueprint::lookup_gate_id<F>> b;
    for (const auto &o : os) {
        std::vector<constraint> cs;
        g.note() << "gate {";
        for (const auto &p : o) {
            g.note() << " " << text(p);
            cs.push_back(expression_of(p));
        }
        g.note() << " } ";
        const std::size_t s = g.below(9);
        vp::snark::plonk_gate<F, constraint> gate(s, cs);
        if (g.flag()) {
            a.emplace_back(gate);
            REQUIRE(a.back().get_selector() == s, "the identity of a gate on selector " << s << " names "
                                                                                       << a.back().get_selector());
        } else {
            a.emplace_back(cs);
        }
    }
    for (const auto &l : ls) {
        std::vector<lookup_constraint> cs;
        for (const auto &c : l) {
            cs.push_back(lookup_of(c));
        }
        const std::size_t s = g.below(9);
        vp::snark::plonk_lookup_gate<F, lookup_constraint> gate(s, cs);
        if (g.flag()) {
            b.emplace_back(gate);
            REQUIRE(b.back().get_selector() == s, "the identity of a lookup gate on selector "
                                                      << s << " names " << b.back().get_selector());
        } else {
            b.emplace_back(cs);
        }
    }
    g.nontrivial(true);
    auto laws = [&](auto &ids, auto &gates, const char *what) {
        for (std::size_t i = 0; i < ids.size(); i++) {
            for (std::size_t j = 0; j < ids.size(); j++) {
                const bool same = sorted(gates[i]) == sorted(gates[j]);
                REQUIRE((ids[i] == ids[j]) == same, what << " " << i << " and " << j << " are " << (same ? "" : "not ")
                                                         << "the same, their identities say otherwise");
                REQUIRE((ids[i] != ids[j]) == !same, what << " " << i << " and " << j << ": != contradicts ==");
                REQUIRE((ids[i] < ids[j]) + (ids[j] < ids[i]) == !same, what << " " << i << " and " << j << " are not ordered");
                REQUIRE((ids[i].to_string() == ids[j].to_string()) == same, what << " " << i << " and " << j << " in text");
                for (std::size_t k = 0; k < ids.size(); k++) {
                    REQUIRE(!(ids[i] < ids[j] && ids[j] < ids[k]) || ids[i] < ids[k], what << " order is not transitive");
                }
                g.checked(4);
            }
            auto copy = ids[(i + 1) % ids.size()];
            copy = ids[i];
            REQUIRE(copy == ids[i] && copy.get_selector() == ids[i].get_selector(), what << ": assignment");
        }
    };
    laws(a, os, "gate");
    laws(b, ls, "lookup gate");
}

// Which copy constraints are kept.
PBT_TEST(copies, 1000, 10000) {
    vp::circuit_t<F> bp;
    std::vector<std::pair<var, var>> kept;
    const std::size_t n = g.range(1, 8);
    auto some = [&] {
        if (g.chance(1, 5)) {
            return var(vp::table_t<F>::private_storage_index, g.below(3), false, var::public_input);
        }
        static const var::column_type types[] = {var::witness, var::public_input, var::constant};
        return var(g.below(2), g.below(2), false, types[g.below(3)]);
    };
    bool dropped = false;
    for (std::size_t i = 0; i < n; i++) {
        const var a = some(), b = some();
        g.note() << a << "=" << b << " ";
        bp.add_copy_constraint({a, b});
        const auto hidden = vp::table_t<F>::private_storage_index;
        if (!(a == b) && a.index != hidden && b.index != hidden) {
            kept.emplace_back(a, b);
        } else {
            dropped = true;
        }
    }
    g.nontrivial(dropped && !kept.empty());
    REQUIRE(bp.copy_constraints().size() == kept.size(),
            bp.copy_constraints().size() << " copy constraints are kept instead of " << kept.size());
    for (std::size_t i = 0; i < kept.size(); i++) {
        const auto &c = bp.copy_constraints()[i];
        REQUIRE(c.first == kept[i].first && c.second == kept[i].second,
                "copy constraint " << i << " is " << c.first << "=" << c.second);
        g.checked();
    }
}

PBT_MAIN
