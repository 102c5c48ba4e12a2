// C06: balancing of tasks.
#include <cstddef>
#include <list>
#include <unordered_map>
#include <utility>
#include <vector>
#include <algorithm>
#include <nil/blueprint/detail/huang_lu.hpp>
#include "pbt.hpp"

using tasks = std::list<std::pair<std::size_t, std::size_t>>;
using assignment = std::unordered_map<std::size_t, std::size_t>;

static std::uint64_t check(pbt::Gen &g, const tasks &ts, std::size_t agents) {
    tasks copy = ts;
    assignment a = nil::blueprint::components::detail::huang_lu(copy, agents);
    REQUIRE(a.size() == ts.size(), a.size() << " tasks assigned out of " << ts.size());
    std::map<std::size_t, std::uint64_t> load;
    std::uint64_t best = 0;
    for (auto &t : ts) {
        auto it = a.find(t.first);
        REQUIRE(it != a.end(), "task " << t.first << " is not assigned");
        REQUIRE(it->second < agents, "task " << t.first << " is assigned to agent " << it->second << " of " << agents);
        load[it->second] += t.second;
        best = std::max(best, load[it->second]);
    }
    g.checked(ts.size() + 1);
    tasks copy2 = ts;
    assignment again = nil::blueprint::components::detail::huang_lu(copy2, agents);
    REQUIRE(a == again, "two runs on the same tasks differ");
    return best;
}

// branch and bound optimum, for small instances
static void opt_rec(const std::vector<std::uint64_t> &s, std::size_t i, std::vector<std::uint64_t> &load, std::uint64_t &best) {
    std::uint64_t cur = *std::max_element(load.begin(), load.end());
    if (cur >= best) {
        return;
    }
    if (i == s.size()) {
        best = cur;
        return;
    }
    for (std::size_t j = 0; j < load.size(); j++) {
        bool dup = false;
        for (std::size_t k = 0; k < j; k++) {
            dup = dup || load[k] == load[j];
        }
        if (dup) {
            continue;
        }
        load[j] += s[i];
        opt_rec(s, i + 1, load, best);
        load[j] -= s[i];
    }
}
static std::uint64_t optimum(const tasks &ts, std::size_t agents) {
    std::vector<std::uint64_t> s;
    std::uint64_t sum = 0;
    for (auto &t : ts) {
        s.push_back(t.second);
        sum += t.second;
    }
    std::sort(s.rbegin(), s.rend());
    std::vector<std::uint64_t> load(agents, 0);
    std::uint64_t best = sum + 1;
    opt_rec(s, 0, load, best);
    return best;
}

static void number(pbt::Gen &g, std::vector<std::uint64_t> &sizes, tasks &ts) {
    // identifiers: consecutive, sparse or large, in an order unrelated to the sizes
    std::uint64_t mode = g.below(3);
    std::size_t id = mode == 0 ? 0 : g.below(1000);
    for (std::size_t i = sizes.size(); i > 1; i--) {
        std::swap(sizes[i - 1], sizes[g.below(i)]);
    }
    for (auto s : sizes) {
        ts.push_back({id, s});
        id += mode == 2 ? 1 + g.below(1000000) : 1;
    }
}

static void describe(pbt::Gen &g, const tasks &ts, std::size_t agents) {
    g.note() << agents << " agents, tasks";
    for (auto &t : ts) {
        g.note() << " " << t.first << ":" << t.second;
    }
}

PBT_TEST(small_vs_optimum, 60000, 240000) {
    std::size_t n = g.below(10), agents = 1 + g.below(5);
    std::uint64_t m = g.pick({3ull, 6ull, 20ull, 50ull, 100ull, 1000ull, 1ull << 40});
    std::vector<std::uint64_t> sizes;
    bool zeros = g.chance(1, 4);
    for (std::size_t i = 0; i < n; i++) {
        sizes.push_back(zeros && g.flag() ? 0 : g.below(m + 1));
    }
    tasks ts;
    number(g, sizes, ts);
    describe(g, ts, agents);
    g.nontrivial(n > agents && agents > 1);
    std::uint64_t got = check(g, ts, agents), opt = optimum(ts, agents);
    REQUIRE(9 * __uint128_t(got) <= 11 * __uint128_t(opt), "load " << got << " with optimum " << opt);
}

// instances with a known perfect partition
PBT_TEST(planted_optimum, 30000, 120000) {
    std::size_t agents = 1 + g.below(g.chance(1, 4) ? 40 : 8);
    std::uint64_t t = g.pick({6ull, 20ull, 33ull, 60ull, 100ull, 660ull, 100000ull, 1ull << 45});
    std::vector<std::uint64_t> sizes;
    std::uint64_t style = g.below(3);
    for (std::size_t i = 0; i < agents; i++) {
        std::uint64_t rest = t;
        std::uint64_t parts = 1 + g.below(6);
        while (parts > 1 && rest > 1) {
            std::uint64_t p = style == 0 ? 1 + g.below(rest) :
                              style == 1 ? std::max<std::uint64_t>(1, rest / parts) :
                                           std::max<std::uint64_t>(1, std::min(rest, t / 5 + g.below(t / 4 + 1)));
            p = std::min(p, rest);
            sizes.push_back(p);
            rest -= p;
            parts--;
        }
        if (rest) {
            sizes.push_back(rest);
        }
    }
    std::uint64_t z = g.below(3);
    for (std::uint64_t i = 0; i < z; i++) {
        sizes.push_back(0);
    }
    tasks ts;
    number(g, sizes, ts);
    describe(g, ts, agents);
    g.nontrivial(agents > 1);
    std::uint64_t got = check(g, ts, agents);
    REQUIRE(9 * __uint128_t(got) <= 11 * __uint128_t(t), "load " << got << " with optimum " << t);
}

// only the totality part: many agents, no tasks, all zero sizes, equal sizes
PBT_TEST(extremes, 20000, 80000) {
    std::size_t n = g.below(60), agents = 1 + g.below(g.flag() ? 4 : 100);
    std::uint64_t v = g.pick({0ull, 0ull, 1ull, 2ull, 7ull, 1000ull, 1ull << 50});
    std::vector<std::uint64_t> sizes;
    for (std::size_t i = 0; i < n; i++) {
        sizes.push_back(g.chance(1, 8) ? g.below(3) : v);
    }
    tasks ts;
    number(g, sizes, ts);
    describe(g, ts, agents);
    g.label(v == 0 ? "zeros" : agents > n ? "more_agents" : "more_tasks");
    g.nontrivial(n >= 2);
    std::uint64_t got = check(g, ts, agents);
    std::uint64_t sum = 0, big = 0;
    for (auto s : sizes) {
        sum += s;
        big = std::max<std::uint64_t>(big, s);
    }
    // an optimum is at least max(largest, average); first-fit within twice of that always succeeds
    std::uint64_t lb = std::max<std::uint64_t>(big, (sum + agents - 1) / agents);
    REQUIRE(got <= 2 * lb, "load " << got << " while " << lb << " bounds the optimum from below");
}

PBT_MAIN
