// C01: requirements behave as sets of integers.
#include "manifest_model.hpp"
using namespace model;

static void unchanged(pbt::Gen &g, const req &a, const std::string &op) {
    compare(g, a.p, a.s, a.text + " after " + op);
}

PBT_TEST(basic, 36000, 144000) {
    req a = gen_req(g, limit(g));
    g.note() << a.text;
    g.nontrivial(a.s.size() >= 2);
    compare(g, a.p, a.s, a.text);
}

template<typename P>
static bool same(const ptr &a, const ptr &b) {
    return *std::static_pointer_cast<P>(a) == *std::static_pointer_cast<P>(b);
}

// requirements of one representation are told apart at least if their integers differ
PBT_TEST(equality, 36000, 144000) {
    std::uint32_t lim = limit(g);
    req a, b;
    std::uint64_t k = g.below(4);
    auto made = [&]() {
        return k == 0 ? gen_value(g, g.chance(1, 2) ? 3 : lim) : k == 1 ? gen_set(g, g.chance(1, 2) ? 4 : lim) : gen_range(g, lim);
    };
    a = made();
    if (k >= 2 && g.chance(2, 3)) {
        // differing in one of the three numbers
        std::int32_t start = std::int32_t(g.below(lim)), finish = start + 1 + std::int32_t(g.below(lim));
        std::uint32_t step = 1 + std::uint32_t(g.below(6));
        a = make_range(start, finish, step);
        std::uint64_t which = g.below(4), by = 1 + g.below(5);
        b = make_range(start + (which == 0 ? std::int32_t(by) : 0), finish + (which == 1 ? std::int32_t(by) : 0),
                       step + (which == 2 ? std::uint32_t(by) : 0));
    } else {
        b = g.chance(1, 3) ? (k == 0 ? make_value(*a.s.begin()) : k == 1 ? make_set(a.s) : a) : made();
    }
    g.note() << a.text << " and " << b.text;
    g.nontrivial(a.s != b.s && !a.s.empty() && !b.s.empty());
    const bool ab = k == 0 ? same<manifest_single_value_param>(a.p, b.p) :
                    k == 1 ? same<manifest_set_param>(a.p, b.p) :
                             same<manifest_range_param>(a.p, b.p),
               ba = k == 0 ? same<manifest_single_value_param>(b.p, a.p) :
                    k == 1 ? same<manifest_set_param>(b.p, a.p) :
                             same<manifest_range_param>(b.p, a.p);
    REQUIRE(ab == ba, "equality depends on the order");
    REQUIRE(!ab || a.s == b.s, "requirements with different integers are equal");
    REQUIRE(ab || a.text != b.text, "requirements made alike are different");
    g.checked(3);
    REQUIRE(*std::make_shared<manifest_unsat_param>() == manifest_unsat_param(), "unsatisfiable requirements are different");
}

PBT_TEST(intersect, 120000, 480000) {
    std::uint32_t lim = limit(g);
    req a = gen_req(g, lim), b = gen_req(g, lim);
    g.note() << a.text << " intersect " << b.text;
    iset e = inter(a.s, b.s);
    g.label(e.empty() ? "empty" : "common");
    g.nontrivial(a.s.size() >= 2 && b.s.size() >= 2);
    compare(g, a.p->intersect(b.p), e, a.text + " intersect " + b.text);
    compare(g, b.p->intersect(a.p), e, b.text + " intersect " + a.text);
    unchanged(g, a, "intersect");
    unchanged(g, b, "intersect");
}

// two ranges, all relations of steps and offsets
PBT_TEST(intersect_ranges, 120000, 480000) {
    std::uint32_t lim = limit(g);
    std::uint32_t s1 = std::uint32_t(1 + g.below(12));
    std::uint32_t s2 = g.chance(1, 3) ? s1 : std::uint32_t(1 + g.below(12));
    req a = gen_range(g, lim, s1), b = gen_range(g, lim, s2);
    g.note() << a.text << " intersect " << b.text;
    iset e = inter(a.s, b.s);
    g.nontrivial(!e.empty() && s1 > 1);
    g.label(s1 == s2 ? "equal_steps" : "different_steps");
    compare(g, a.p->intersect(b.p), e, a.text + " intersect " + b.text);
    compare(g, b.p->intersect(a.p), e, b.text + " intersect " + a.text);
}

static iset gen_subtrahend(pbt::Gen &g, const req &a, std::uint32_t lim) {
    iset v;
    std::uint64_t mode = g.below(5);
    std::vector<std::uint32_t> els(a.s.begin(), a.s.end());
    if (!els.empty() && mode <= 2) {
        std::size_t n = g.below(els.size() + 1);
        if (mode == 0) {    // first n
            v.insert(els.begin(), els.begin() + n);
        } else if (mode == 1) {    // last n
            v.insert(els.end() - n, els.end());
        } else {    // some
            for (auto x : els) {
                if (g.flag()) {
                    v.insert(x);
                }
            }
        }
    }
    std::uint64_t extra = g.below(4);
    for (std::uint64_t i = 0; i < extra; i++) {
        v.insert(std::uint32_t(g.below(lim + 10)));
    }
    return v;
}

PBT_TEST(subtract, 120000, 480000) {
    std::uint32_t lim = limit(g);
    req a = gen_req(g, lim);
    iset v = gen_subtrahend(g, a, lim);
    g.note() << a.text << " minus " << show(v);
    iset e = minus(a.s, v);
    g.nontrivial(!e.empty() && e.size() != a.s.size());
    compare(g, a.p->subtract(v), e, a.text + " minus " + show(v));
    unchanged(g, a, "subtract");
}

// chains of operations against the model
PBT_TEST(chain, 48000, 192000) {
    std::uint32_t lim = limit(g);
    req cur = gen_req(g, lim);
    std::string text = cur.text;
    std::uint64_t n = 1 + g.below(6);
    std::size_t effective = 0;
    for (std::uint64_t i = 0; i < n; i++) {
        if (g.flag()) {
            iset v = gen_subtrahend(g, cur, lim);
            text += " minus " + show(v);
            iset e = minus(cur.s, v);
            effective += e.size() != cur.s.size();
            cur.p = cur.p->subtract(v);
            cur.s = e;
        } else {
            req b = gen_range(g, lim * 2, std::uint32_t(1 + g.below(3)));
            text += " intersect " + b.text;
            iset e = inter(cur.s, b.s);
            effective += e.size() != cur.s.size();
            cur.p = g.flag() ? cur.p->intersect(b.p) : b.p->intersect(cur.p);
            cur.s = e;
        }
        g.notes.str("");
        g.note() << text;
        compare(g, cur.p, cur.s, text);
    }
    g.nontrivial(effective >= 2);
}

// all pairs of small ranges: exhaustive over start < 8, length < 9, step < 6
static void small_ranges(pbt::Gen &g) {
    std::uint64_t i = g.bits64();
    auto dec = [&](std::uint64_t n) {
        std::uint64_t r = i % n;
        i /= n;
        return r;
    };
    std::int32_t a1 = dec(7), l1 = dec(8), a2 = dec(7), l2 = dec(8);
    std::uint32_t s1 = 1 + dec(5), s2 = 1 + dec(5);
    req a = make_range(a1, a1 + l1, s1), b = make_range(a2, a2 + l2, s2);
    g.note() << a.text << " intersect " << b.text;
    g.nontrivial(!a.s.empty() && !b.s.empty());
    compare(g, a.p->intersect(b.p), inter(a.s, b.s), a.text + " intersect " + b.text);
    compare(g, a.p->subtract(b.s), minus(a.s, b.s), a.text + " minus " + show(b.s));
}
static int reg_small = [] {
    pbt::registry().push_back({"small_ranges_exhaustive", 7 * 8 * 7 * 8 * 5 * 5, 7 * 8 * 7 * 8 * 5 * 5, 60, small_ranges, true});
    return 0;
}();

PBT_MAIN
