// C03: a component is accepted exactly when its column budget is met.
#include "manifest_model.hpp"
using namespace model;

struct mock_field { };

namespace nil { namespace blueprint { namespace components {
    template<>
    class plonk_component<mock_field> {
        std::uint32_t w, c;

    public:
        plonk_component(std::uint32_t w, std::uint32_t c) : w(w), c(c) {}
        std::uint32_t witness_amount() const { return w; }
        std::uint32_t constant_amount() const { return c; }
    };
}}}

static bool enough(const iset &s, std::uint32_t w) {
    return !s.empty() && *s.begin() <= w;
}

PBT_TEST(at_least_mode, 90000, 360000) {
    std::uint32_t lim = limit(g);
    req a = gen_req(g, lim);
    unsigned ct = g.below(3);
    manifest_constant_type t = ct == 0 ? manifest_constant_type::type::NONE :
                               ct == 1 ? manifest_constant_type::type::REQUIRED :
                                         manifest_constant_type::type::UNSAT;
    plonk_component_manifest m(a.p, t);
    g.note() << a.text << " constants " << t;
    g.nontrivial(a.s.size() >= 2);
    std::uint32_t top = a.s.empty() ? 30 : *a.s.rbegin() + 30;
    for (std::uint32_t w = 0; w <= top; w++) {
        REQUIRE(a.p->check_manifest_param(w, false) == enough(a.s, w),
                a.text << ": " << w << " columns reported as " << a.p->check_manifest_param(w, false));
        REQUIRE(a.p->check_manifest_param(w, true) == (a.s.count(w) == 1), a.text << ": strict check of " << w);
        for (std::uint32_t c = 0; c < 3; c++) {
            bool cons = ct == 0 || (ct == 1 && c > 0);
            bool e = enough(a.s, w) && cons;
            REQUIRE(m.check_manifest(w, c) == e, a.text << " constants " << t << ": check of " << w << " columns and " << c
                                                        << " constants gives " << !e);
            REQUIRE(m.check_manifest(w, c, false) == e, "explicit non-strict check of " << w << "/" << c);
            bool es = a.s.count(w) && cons;
            REQUIRE(m.check_manifest(w, c, true) == es, "strict check of " << w << "/" << c << " gives " << !es);
            nil::blueprint::components::plonk_component<mock_field> comp(w, c);
            REQUIRE(m.check_manifest(comp) == e, "check of a component with " << w << "/" << c << " gives " << !e);
            g.checked(4);
        }
    }
    REQUIRE(m.is_satisfiable() == (!a.s.empty() && ct != 2), "satisfiability of " << a.text << " constants " << t);
}

PBT_TEST(compiler_budget, 90000, 360000) {
    std::uint32_t lim = limit(g);
    req a = gen_req(g, lim);
    std::uint32_t max = std::uint32_t(g.below(lim * 2 + 1));
    bool has = g.flag();
    compiler_manifest cm(max, has);
    g.note() << a.text << " within " << max << (has ? " with" : " without") << " constants";
    std::uint64_t changes = g.below(3);
    for (std::uint64_t i = 0; i < changes; i++) {
        max = std::uint32_t(g.below(lim * 2 + 1));
        cm.set_max_witness_amount(max);
        g.note() << ", then " << max;
    }
    if (g.chance(1, 4)) {
        has = !has;
        cm.has_constant = has;
    }
    unsigned ct = g.below(3);
    manifest_constant_type t = ct == 0 ? manifest_constant_type::type::NONE :
                               ct == 1 ? manifest_constant_type::type::REQUIRED :
                                         manifest_constant_type::type::UNSAT;
    g.note() << "; component constants " << t;
    plonk_component_manifest m = cm.intersect(plonk_component_manifest(a.p, t));
    iset e(a.s.begin(), a.s.upper_bound(max));
    g.nontrivial(!e.empty() && e.size() < a.s.size());
    g.label(changes ? "budget_changed" : "budget_constructed");
    REQUIRE(cm.get_max_witness_amount() == max, "reported budget " << cm.get_max_witness_amount());
    compare(g, m.witness_amount, e, a.text + " within " + std::to_string(max));
    bool cons = ct == 0 || (ct == 1 && has);
    REQUIRE(m.is_satisfiable() == (!e.empty() && cons),
            a.text << " within " << max << ": satisfiable=" << m.is_satisfiable() << " admits " << show(e)
                   << " constants available=" << has << " required " << t);
    for (std::uint32_t w = 0; w < lim * 2 + 5; w++) {
        for (std::uint32_t c = 0; c < 2; c++) {
            bool ok = e.count(w) && (ct == 0 || (ct == 1 && has && c > 0));
            REQUIRE(m.check_manifest(w, c, true) == ok, "strict check of " << w << "/" << c << " gives " << !ok);
        }
    }
    if (cons) {
        REQUIRE(m.constant_required ==
                    (ct == 1 ? manifest_constant_type::type::REQUIRED : manifest_constant_type::type::NONE),
                "constants requirement changed to " << m.constant_required);
    }
    // copies keep the budget
    compiler_manifest copy = cm;
    compare(g, copy.intersect(plonk_component_manifest(a.p, t)).witness_amount, e, "copied budget");
}

PBT_MAIN
