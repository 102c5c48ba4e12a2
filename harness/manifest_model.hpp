// Reference model of column-count requirements: a finite set of integers.
#pragma once
#include <cstdint>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <nil/blueprint/manifest.hpp>
#include "pbt.hpp"

namespace model {
    using namespace nil::blueprint;
    using ptr = std::shared_ptr<manifest_param>;
    using iset = std::set<std::uint32_t>;

    enum kind { UNSAT, VALUE, RANGE, SET };

    struct req {
        ptr p;
        iset s;
        kind k;
        std::string text;
    };

    inline std::string show(const iset &s) {
        std::ostringstream os;
        os << "{";
        bool first = true;
        for (auto x : s) {
            os << (first ? "" : ",") << x;
            first = false;
        }
        os << "}";
        return os.str();
    }

    inline std::string show(const ptr &p) {
        std::ostringstream os;
        os << *p;
        return os.str();
    }

    inline req make_value(std::uint32_t v) {
        return {ptr(new manifest_single_value_param(v)), {v}, VALUE, "VALUE(" + std::to_string(v) + ")"};
    }
    inline req make_set(const iset &s) {
        if (s.size() % 2 == 0) {
            return {ptr(new manifest_set_param(s)), s, SET, "SET" + show(s)};
        }
        // sets of odd size are made value by value
        auto p = new manifest_set_param(iset());
        for (auto v : s) {
            p->add_value(v);
        }
        return {ptr(p), s, SET, "SET" + show(s)};
    }
    inline req make_range(std::int32_t a, std::int32_t b, std::uint32_t step) {
        iset s;
        for (std::int64_t x = a; x < b; x += step) {
            s.insert(std::uint32_t(x));
        }
        return {ptr(new manifest_range_param(a, b, step)), s, RANGE,
                "RANGE(" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(step) + ")"};
    }
    inline req make_unsat() {
        return {ptr(new manifest_unsat_param()), {}, UNSAT, "UNSAT"};
    }

    // bound on generated values: small most of the time, so that collisions and boundaries are frequent
    inline std::uint32_t limit(pbt::Gen &g) {
        if (g.chance(1, 60)) {
            return g.chance(1, 10) ? 70000u : 1500u;
        }
        return g.pick({12u, 12u, 24u, 40u, 120u, 300u});
    }

    inline req gen_value(pbt::Gen &g, std::uint32_t lim) {
        return make_value(std::uint32_t(g.below(lim)));
    }
    inline req gen_set(pbt::Gen &g, std::uint32_t lim) {
        iset s;
        std::uint64_t n = g.below(9);
        for (std::uint64_t i = 0; i < n; i++) {
            s.insert(std::uint32_t(g.below(lim)));
        }
        return make_set(s);
    }
    inline req gen_range(pbt::Gen &g, std::uint32_t lim, std::uint32_t fixed_step = 0) {
        std::int32_t a = std::int32_t(g.below(lim));
        std::int32_t len = std::int32_t(g.below(lim));
        std::uint32_t step = fixed_step ? fixed_step : std::uint32_t(1 + g.below(g.chance(1, 4) ? (lim < 2000 && g.chance(1, 4) ? 100 : 30) : 6));
        std::int32_t b = g.chance(1, 12) ? std::int32_t(g.below(a + 1)) : a + len;    // sometimes finish <= start
        if (g.chance(1, 4)) {
            a -= a % std::int32_t(step);    // aligned starts are what the components of the library use
        }
        return make_range(a, b, step);
    }
    inline req gen_req(pbt::Gen &g, std::uint32_t lim) {
        switch (g.below(10)) {
            case 0:
                return g.chance(1, 2) ? make_unsat() : gen_value(g, lim);
            case 1:
            case 2:
                return gen_value(g, lim);
            case 3:
            case 4:
            case 5:
                return gen_set(g, lim);
            default:
                return gen_range(g, lim);
        }
    }

    // Compares a requirement with the set of integers it must describe.
    inline void compare(pbt::Gen &g, const ptr &p, const iset &expected, const std::string &what) {
        bool sat = p->is_satisfiable();
        REQUIRE(sat == !expected.empty(),
                what << ": reported satisfiable=" << sat << " but admits " << show(expected) << " (" << show(p) << ")");
        std::uint32_t top = expected.empty() ? 20 : *expected.rbegin() + 20;
        for (std::uint32_t v = 0; v <= top; v++) {
            bool m = p->check_manifest_param(v);
            REQUIRE(m == (expected.count(v) == 1),
                    what << ": membership of " << v << " is " << m << ", expected admissible counts " << show(expected)
                         << " (" << show(p) << ")");
        }
        g.checked(top + 2);
        std::vector<std::uint32_t> it;
        for (auto v : *p) {
            it.push_back(v);
            if (it.size() > expected.size() + 4) {
                break;
            }
        }
        REQUIRE(std::vector<std::uint32_t>(expected.begin(), expected.end()) == it,
                what << ": iteration gives " << it.size() << " values starting with " << (it.empty() ? -1 : int(it[0]))
                     << ", expected " << show(expected) << " (" << show(p) << ")");
        // post-increment and explicit iterators walk the same sequence
        if (!expected.empty()) {
            auto i = p->begin();
            auto e = p->end();
            for (auto x : expected) {
                REQUIRE(i != e && !(i == e), what << ": iterator ends before " << x << " (" << show(p) << ")");
                auto old = i++;
                REQUIRE(*old == x, what << ": iterator gives " << *old << " instead of " << x);
            }
            REQUIRE(i == e && !(i != e), what << ": iterator does not reach the end (" << show(p) << ")");
            REQUIRE(p->max_value_if_sat() == *expected.rbegin(),
                    what << ": maximum " << p->max_value_if_sat() << ", expected " << *expected.rbegin() << " ("
                         << show(p) << ")");
        }
    }

    // Minimal check for arbitrary derived results (membership, satisfiability, iteration, maximum).
    inline iset members(const ptr &p, std::uint32_t top) {
        iset r;
        for (std::uint32_t v = 0; v <= top; v++) {
            if (p->check_manifest_param(v)) {
                r.insert(v);
            }
        }
        return r;
    }

    inline iset inter(const iset &a, const iset &b) {
        iset r;
        for (auto x : a) {
            if (b.count(x)) {
                r.insert(x);
            }
        }
        return r;
    }
    inline iset minus(const iset &a, const iset &b) {
        iset r;
        for (auto x : a) {
            if (!b.count(x)) {
                r.insert(x);
            }
        }
        return r;
    }
}    // namespace model
