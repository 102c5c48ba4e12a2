// C02: merging requirements.
#include "manifest_model.hpp"
using namespace model;

// Exact result where the statement fixes it, bounds otherwise.
static void check_merge(pbt::Gen &g, const req &a, const req &b) {
    std::string what = a.text + " merged with " + b.text;
    ptr r = a.p->merge_with(b.p);
    bool sat = !a.s.empty() && !b.s.empty();
    if (!sat) {
        compare(g, r, {}, what);
        return;
    }
    std::uint32_t mina = *a.s.begin(), minb = *b.s.begin();
    std::uint32_t top = std::max(*a.s.rbegin(), *b.s.rbegin());
    iset exact;
    bool has_exact = false;
    if (a.k == VALUE || b.k == VALUE) {
        const iset &v = a.k == VALUE ? a.s : b.s;
        const iset &o = a.k == VALUE ? b.s : a.s;
        exact = iset(o.lower_bound(*v.begin()), o.end());
        if (exact.empty()) {
            exact = v;
        }
        has_exact = true;
    } else if (a.k == b.k) {
        std::uint32_t m = std::max(mina, minb);
        exact.insert(a.s.lower_bound(m), a.s.end());
        exact.insert(b.s.lower_bound(m), b.s.end());
        has_exact = true;
    }
    if (has_exact) {
        compare(g, r, exact, what);
        return;
    }
    iset got = members(r, top + 20);
    iset upper, both = inter(a.s, b.s);
    std::uint32_t m = std::max(mina, minb);
    upper.insert(a.s.lower_bound(m), a.s.end());
    upper.insert(b.s.lower_bound(m), b.s.end());
    for (auto x : got) {
        REQUIRE(upper.count(x), what << ": admits " << x << ", which is in neither operand or below a minimum; result "
                                     << show(r));
    }
    for (auto x : both) {
        REQUIRE(got.count(x), what << ": drops " << x << ", which both operands admit; result " << show(r));
    }
    REQUIRE(got.count(top), what << ": drops the largest count " << top << "; result " << show(r));
    compare(g, r, got, what);
}

static void both_ways(pbt::Gen &g, const req &a, const req &b) {
    g.note() << a.text << " merged with " << b.text;
    check_merge(g, a, b);
    check_merge(g, b, a);
    std::uint32_t top = 700;
    iset ab = members(a.p->merge_with(b.p), top), ba = members(b.p->merge_with(a.p), top);
    REQUIRE(ab == ba, a.text << " and " << b.text << " merge to " << show(ab) << " or " << show(ba)
                             << " depending on the order");
    compare(g, a.p, a.s, a.text + " after merge");
    compare(g, b.p, b.s, b.text + " after merge");
}

PBT_TEST(merge, 90000, 360000) {
    std::uint32_t lim = limit(g);
    req a = gen_req(g, lim), b = gen_req(g, lim);
    g.nontrivial(a.s.size() >= 2 && b.s.size() >= 2);
    g.label(std::to_string(a.k) + std::to_string(b.k));
    both_ways(g, a, b);
}

PBT_TEST(value_range, 60000, 240000) {
    std::uint32_t lim = limit(g);
    req a = gen_value(g, lim), b = gen_range(g, lim);
    g.nontrivial(b.s.size() >= 2 && *a.s.begin() > *b.s.begin());
    both_ways(g, a, b);
}

PBT_TEST(range_range, 60000, 240000) {
    std::uint32_t lim = limit(g);
    std::uint32_t s1 = std::uint32_t(1 + g.below(8));
    std::uint32_t s2 = g.flag() ? s1 : std::uint32_t(1 + g.below(8));
    req a = gen_range(g, lim, s1), b = gen_range(g, lim, s2);
    g.nontrivial(a.s.size() >= 2 && b.s.size() >= 2 && s1 > 1);
    both_ways(g, a, b);
}

PBT_TEST(set_range, 60000, 240000) {
    std::uint32_t lim = limit(g);
    req a = gen_set(g, lim), b = gen_range(g, lim);
    g.nontrivial(a.s.size() >= 2 && b.s.size() >= 2);
    both_ways(g, a, b);
}

// whole manifests: the witness part merges like the parameters, constants are required as soon as one side requires them
PBT_TEST(manifest, 30000, 120000) {
    std::uint32_t lim = limit(g);
    req a = gen_req(g, lim), b = gen_req(g, lim);
    bool ca = g.flag(), cb = g.flag();
    g.note() << a.text << "/" << ca << " merged with " << b.text << "/" << cb;
    plonk_component_manifest ma(a.p, ca), mb(b.p, cb);
    plonk_component_manifest m = ma.merge_with(mb);
    g.nontrivial(a.s.size() >= 2 && b.s.size() >= 2);
    REQUIRE(m.is_satisfiable() == (!a.s.empty() && !b.s.empty()), "satisfiability of the merged manifest");
    iset want = members(a.p->merge_with(b.p), 700);
    for (std::uint32_t w = 0; w < 700; w++) {
        for (std::uint32_t c = 0; c < 2; c++) {
            bool e = want.count(w) && (c || !(ca || cb));
            REQUIRE(m.check_manifest(w, c, true) == e, "strict check of " << w << " columns, " << c << " constants");
        }
    }
    plonk_component_manifest copy(m);
    REQUIRE(members(copy.witness_amount, 700) == want && copy.constant_required == m.constant_required, "copy differs");
}

// merging a list of requirements one after another stays within the bounds of all of them
PBT_TEST(chain, 30000, 120000) {
    std::uint32_t lim = limit(g);
    std::vector<req> rs;
    std::uint64_t n = 2 + g.below(4);
    for (std::uint64_t i = 0; i < n; i++) {
        rs.push_back(gen_req(g, lim));
        g.note() << rs.back().text << " ";
    }
    ptr cur = rs[0].p;
    bool sat = !rs[0].s.empty();
    for (std::uint64_t i = 1; i < n; i++) {
        cur = cur->merge_with(rs[i].p);
        sat = sat && !rs[i].s.empty();
    }
    REQUIRE(cur->is_satisfiable() == sat, "satisfiable=" << cur->is_satisfiable() << " expected " << sat);
    if (!sat) {
        return;
    }
    iset all, common = rs[0].s;
    std::uint32_t m = 0, top = 0;
    for (auto &r : rs) {
        all.insert(r.s.begin(), r.s.end());
        common = inter(common, r.s);
        m = std::max(m, *r.s.begin());
        top = std::max(top, *r.s.rbegin());
    }
    g.nontrivial();
    iset got = members(cur, top + 20);
    for (auto x : got) {
        REQUIRE(x >= m && all.count(x), "merged requirement admits " << x << ": " << show(cur));
    }
    for (auto x : common) {
        REQUIRE(got.count(x), "merged requirement drops common count " << x << ": " << show(cur));
    }
    REQUIRE(got.count(top), "merged requirement drops the largest count " << top << ": " << show(cur));
    compare(g, cur, got, "merged chain");
}

PBT_MAIN
