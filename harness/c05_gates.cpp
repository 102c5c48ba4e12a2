// C05: gate totals count every distinct gate family exactly once.
#include "manifest_model.hpp"
using namespace nil::blueprint;

// A family without parameters: all instances are equivalent.
template<int N, unsigned Amount>
struct plain_family : component_gate_manifest {
    std::uint32_t gates_amount() const override { return Amount; }
};

// A family with one parameter.
template<int N>
struct keyed_family : component_gate_manifest {
    std::uint32_t key;
    keyed_family(std::uint32_t k) : key(k) {}
    bool operator<(const component_gate_manifest *other) const override {
        return key < dynamic_cast<const keyed_family *>(other)->key;
    }
    std::uint32_t gates_amount() const override { return (key * 7 + N) % 5 + 1; }
};

// A family with two parameters of which only one takes part in the identity for some keys.
struct pair_family : component_gate_manifest {
    std::uint32_t a, b;
    pair_family(std::uint32_t a, std::uint32_t b) : a(a), b(b) {}
    bool operator<(const component_gate_manifest *other) const override {
        auto o = dynamic_cast<const pair_family *>(other);
        return a != o->a ? a < o->a : b < o->b;
    }
    std::uint32_t gates_amount() const override { return a + 3 * b + 1; }
};

using key = std::pair<int, std::uint32_t>;
using families = std::map<key, std::uint32_t>;

static key fam(pbt::Gen &g) {
    int c = int(g.below(6));
    return {c, c < 2 ? 0 : std::uint32_t(g.below(5))};
}
static std::uint32_t amount(key k) {
    switch (k.first) {
        case 0: return plain_family<0, 3>().gates_amount();
        case 1: return plain_family<1, 1>().gates_amount();
        case 2: return keyed_family<2>(k.second).gates_amount();
        case 3: return keyed_family<3>(k.second).gates_amount();
        case 4: return pair_family(k.second, 1).gates_amount();
        default: return pair_family(1, k.second).gates_amount();
    }
}
static key canon(key k) {
    // families 4 and 5 overlap: (x, 1) and (1, y) are the same pair when x == y == 1
    if (k.first == 5 && k.second == 1) return {4, 1};
    return k;
}
static void add(gate_manifest &m, key k) {
    switch (k.first) {
        case 0: m.add(plain_family<0, 3>()); break;
        case 1: m.add(plain_family<1, 1>()); break;
        case 2: m.add(keyed_family<2>(k.second)); break;
        case 3: m.add(keyed_family<3>(k.second)); break;
        case 4: m.add(pair_family(k.second, 1)); break;
        default: m.add(pair_family(1, k.second)); break;
    }
}
static gate_manifest single(key k) {
    switch (k.first) {
        case 0: return gate_manifest(plain_family<0, 3>());
        case 1: return gate_manifest(plain_family<1, 1>());
        case 2: return gate_manifest(keyed_family<2>(k.second));
        case 3: return gate_manifest(keyed_family<3>(k.second));
        case 4: return gate_manifest(pair_family(k.second, 1));
        default: return gate_manifest(pair_family(1, k.second));
    }
}
static std::uint32_t total(const families &f) {
    std::uint32_t r = 0;
    for (auto &p : f) {
        r += p.second;
    }
    return r;
}
static void same(const gate_manifest &m, const families &f, const char *what) {
    REQUIRE(m.get_gates_amount() == total(f),
            what << ": " << m.get_gates_amount() << " gates, expected " << total(f) << " from " << f.size() << " families");
}

PBT_TEST(history, 40000, 160000) {
    std::vector<gate_manifest> ms(3);
    std::vector<families> fs(3);
    std::uint64_t n = 1 + g.below(25);
    std::size_t merges = 0;
    for (std::uint64_t i = 0; i < n; i++) {
        std::size_t t = g.below(3), o = g.below(3);
        switch (g.below(6)) {
            case 0: {
                // merging in
                g.note() << "m" << t << ".merge(m" << o << ") ";
                merges += fs[o].size() > 0 && t != o;
                gate_manifest &r = ms[t].merge_with(ms[o]);
                REQUIRE(&r == &ms[t], "merge returns another manifest");
                families add_ = fs[o];
                fs[t].insert(add_.begin(), add_.end());
                break;
            }
            case 1: {
                g.note() << "m" << t << "=copy(m" << o << ") ";
                gate_manifest c(ms[o]);
                same(c, fs[o], "copy");
                ms[t] = c;
                fs[t] = fs[o];
                break;
            }
            case 2: {
                key k = fam(g);
                g.note() << "m" << t << "=single(" << k.first << "," << k.second << ") ";
                ms[t] = single(k);
                fs[t].clear();
                fs[t][canon(k)] = amount(k);
                break;
            }
            default: {
                key k = fam(g);
                g.note() << "m" << t << ".add(" << k.first << "," << k.second << ") ";
                add(ms[t], k);
                fs[t][canon(k)] = amount(k);
            }
        }
        for (std::size_t j = 0; j < 3; j++) {
            same(ms[j], fs[j], "after a step");
            g.checked();
        }
    }
    g.nontrivial(merges >= 1);
}

// the same families in any order and grouping
PBT_TEST(order, 20000, 80000) {
    std::vector<key> ks;
    std::uint64_t n = 1 + g.below(12);
    families f;
    for (std::uint64_t i = 0; i < n; i++) {
        ks.push_back(fam(g));
        f[canon(ks.back())] = amount(ks.back());
        g.note() << ks.back().first << "," << ks.back().second << " ";
    }
    gate_manifest one;
    for (auto k : ks) {
        add(one, k);
    }
    same(one, f, "in order");
    for (std::size_t i = ks.size(); i > 1; i--) {
        std::swap(ks[i - 1], ks[g.below(i)]);
    }
    std::vector<gate_manifest> parts(1 + g.below(4));
    for (auto k : ks) {
        add(parts[g.below(parts.size())], k);
    }
    gate_manifest acc;
    while (!parts.empty()) {
        std::size_t i = g.below(parts.size());
        if (g.flag() || parts.size() == 1) {
            acc.merge_with(parts[i]);
        } else {
            parts[i == 0 ? 1 : 0].merge_with(parts[i]);
        }
        parts.erase(parts.begin() + i);
    }
    g.nontrivial(n >= 3);
    same(acc, f, "regrouped");
}

PBT_MAIN
