// Tables of the lookup library against the relations they stand for.
#include "circuit.hpp"

#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/pallas.hpp>

#include <nil/blueprint/lookup_library.hpp>

#include <fstream>
#include <unistd.h>

using F = nil::crypto3::algebra::curves::pallas::base_field_type;
using V = F::value_type;
using tuple_t = std::vector<std::uint64_t>;
using columns_t = std::vector<std::vector<V>>;

namespace {
    // digits of n in some base, lowest first
    std::vector<unsigned> digits(std::uint64_t n, unsigned base, std::size_t amount) {
        std::vector<unsigned> d;
        for (std::size_t i = 0; i < amount; i++) {
            d.push_back(n % base);
            n /= base;
        }
        return d;
    }
    std::uint64_t number(const std::vector<unsigned> &d, unsigned base) {
        std::uint64_t n = 0;
        for (std::size_t i = d.size(); i > 0; i--) {
            n = n * base + d[i - 1];
        }
        return n;
    }
    template<typename G>
    std::vector<unsigned> each(std::vector<unsigned> d, G f) {
        for (auto &x : d) {
            x = f(x);
        }
        return d;
    }

    std::string shown(const tuple_t &t) {
        std::string s;
        for (auto x : t) {
            s += std::to_string(x) + " ";
        }
        return s;
    }

    // A relation, its size and the tuple of every number below it.
    struct Relation {
        const char *name;
        std::uint64_t size;
        std::size_t columns;
        tuple_t (*tuple)(std::uint64_t);
        bool (*holds)(const tuple_t &);
    };

    tuple_t sparse(std::uint64_t n, unsigned base) {
        return {n, number(digits(n, 2, 14), base)};
    }
    bool in_base(std::uint64_t n, unsigned base, std::size_t amount, unsigned below) {
        for (unsigned d : digits(n, base, amount)) {
            if (d >= below) {
                return false;
            }
        }
        for (std::size_t i = 0; i < amount; i++) {
            n /= base;
        }
        return n == 0;
    }
    // three rotations by 6, 11 and 25 added up: digits 5 apart share a bit
    bool sums(const std::vector<unsigned> &d) {
        for (std::size_t i = 0; i < 3; i++) {
            if (d[i] + d[i + 5] == 3 && (d[i] == 0 || d[i] == 3)) {
                return false;
            }
        }
        return true;
    }
    const std::vector<std::uint64_t> &sums7() {
        static std::vector<std::uint64_t> l;
        if (l.empty()) {
            for (std::uint64_t n = 0; n < 65536; n++) {
                if (sums(digits(n, 4, 8))) {
                    l.push_back(number(digits(n, 4, 8), 7));
                }
            }
        }
        return l;
    }
    bool is_opcode(std::uint64_t n) {
        const std::pair<unsigned, unsigned> known[] = {{0x00, 0x0b}, {0x10, 0x1d}, {0x20, 0x20}, {0x30, 0x4a},
                                                       {0x50, 0xa4}, {0xf0, 0xf5}, {0xfa, 0xfa}, {0xfd, 0xff}};
        for (const auto &[a, b] : known) {
            if (n >= a && n <= b) {
                return true;
            }
        }
        return false;
    }
    std::uint64_t pushed(std::uint64_t n) {
        return n >= 0x60 && n <= 0x7f ? n - 0x5f : 0;
    }
    tuple_t opcode(std::uint64_t n) {
        if (n == 149) {
            return {0, 0, 0};
        }
        for (std::uint64_t op = 0;; op++) {
            if (is_opcode(op) && n-- == 0) {
                return {op, pushed(op), 1};
            }
        }
    }
    unsigned parity(unsigned d) {
        return d & 1;
    }
    unsigned majority(unsigned d) {
        return d >= 2;
    }
    // e + 2 f + 3 g
    unsigned choice(unsigned d) {
        return d == 3 || d >= 5;
    }

    const Relation relations[] = {
        {"byte_range_table", 256, 1, [](std::uint64_t n) { return tuple_t {n}; },
         [](const tuple_t &t) { return t[0] < 256; }},
        {"chunk_16_bits", 65536, 1, [](std::uint64_t n) { return tuple_t {n}; },
         [](const tuple_t &t) { return t[0] < 65536; }},
        {"binary_xor_table", 4, 3, [](std::uint64_t n) { return tuple_t {n >> 1, n & 1, (n >> 1) ^ (n & 1)}; },
         [](const tuple_t &t) { return t[0] < 2 && t[1] < 2 && t[2] == (t[0] ^ t[1]); }},
        {"binary_and_table", 4, 3, [](std::uint64_t n) { return tuple_t {n >> 1, n & 1, (n >> 1) & (n & 1)}; },
         [](const tuple_t &t) { return t[0] < 2 && t[1] < 2 && t[2] == (t[0] & t[1]); }},
        {"sha256_sparse_base4", 16384, 2, [](std::uint64_t n) { return sparse(n, 4); },
         [](const tuple_t &t) { return t[0] < 16384 && t == sparse(t[0], 4); }},
        {"sha256_sparse_base7", 16384, 2, [](std::uint64_t n) { return sparse(n, 7); },
         [](const tuple_t &t) { return t[0] < 16384 && t == sparse(t[0], 7); }},
        {"sha256_reverse_sparse_base4", 65536, 2,
         [](std::uint64_t n) { return tuple_t {number(each(digits(n, 4, 8), parity), 2), n}; },
         [](const tuple_t &t) { return t[1] < 65536 && t[0] == number(each(digits(t[1], 4, 8), parity), 2); }},
        {"sha256_reverse_sparse_base7", 43904, 2,
         [](std::uint64_t n) {
             const std::uint64_t x = sums7().at(n);
             return tuple_t {number(each(digits(x, 7, 8), parity), 2), x};
         },
         [](const tuple_t &t) {
             return in_base(t[1], 7, 8, 4) && sums(digits(t[1], 7, 8)) &&
                    t[0] == number(each(digits(t[1], 7, 8), parity), 2);
         }},
        {"sha256_maj", 65536, 2, [](std::uint64_t n) { return tuple_t {number(each(digits(n, 4, 8), majority), 2), n}; },
         [](const tuple_t &t) { return t[1] < 65536 && t[0] == number(each(digits(t[1], 4, 8), majority), 2); }},
        {"zkevm_opcodes", 150, 3, opcode,
         [](const tuple_t &t) {
             return (t[2] == 1 && is_opcode(t[0]) && t[1] == pushed(t[0])) || (t[0] == 0 && t[1] == 0 && t[2] == 0);
         }},
        // last, made only by the test which needs it
        {"sha256_ch", 5764801, 2, [](std::uint64_t n) { return tuple_t {number(each(digits(n, 7, 8), choice), 2), n}; },
         [](const tuple_t &t) { return t[1] < 5764801 && t[0] == number(each(digits(t[1], 7, 8), choice), 2); }},
    };
    constexpr std::size_t small_relations = sizeof(relations) / sizeof(relations[0]) - 1;

    struct Part {
        const char *name;
        std::vector<std::size_t> columns;
    };
    std::vector<Part> parts(const Relation &r) {
        const std::string name = r.name;
        std::vector<Part> l;
        l.push_back({"full", {}});
        for (std::size_t i = 0; i < r.columns; i++) {
            l[0].columns.push_back(i);
        }
        if (name == "zkevm_opcodes") {
            l.push_back({"opcodes_only", {0}});
        } else if (name == "sha256_sparse_base4" || name == "sha256_sparse_base7" || name == "sha256_maj" || name == "sha256_ch") {
            l.push_back({"first_column", {0}});
            if (name == "sha256_sparse_base7") {
                l.push_back({"second_column", {1}});
            }
        }
        return l;
    }

    std::uint64_t small(const V &x, const std::string &where) {
        const auto n = F::integral_type(x.data);
        REQUIRE(n < F::integral_type(std::uint64_t(1) << 60), where << " holds " << x);
        return static_cast<std::uint64_t>(n);
    }

    template<typename Sub>
    std::set<tuple_t> contents(const columns_t &table, const Sub &sub, const std::string &where) {
        std::set<tuple_t> l;
        for (std::size_t c : sub.column_indices) {
            REQUIRE(c < table.size() && sub.end < table[c].size(), where << " reaches beyond the table");
        }
        for (std::size_t i = sub.begin; i <= sub.end; i++) {
            tuple_t t;
            for (std::size_t c : sub.column_indices) {
                t.push_back(small(table[c][i], where));
            }
            l.insert(t);
        }
        return l;
    }

    void check_whole(pbt::Gen &g, const Relation &r) {
        vp::circuit_t<F> bp;
        for (const auto &part : parts(r)) {
            bp.reserve_table(r.name + std::string("/") + part.name);
        }
        const auto &definition = bp.get_reserved_tables().at(r.name);
        const columns_t &table = definition->get_table();
        REQUIRE(table.size() == r.columns, r.name << " has " << table.size() << " columns instead of " << r.columns);
        for (const auto &part : parts(r)) {
            const std::string where = r.name + std::string("/") + part.name;
            const auto &sub = definition->subtables.at(part.name);
            REQUIRE(sub.column_indices.size() == part.columns.size(), where << " has " << sub.column_indices.size() << " columns");
            const std::set<tuple_t> got = contents(table, sub, where);
            std::set<tuple_t> expected;
            for (std::uint64_t i = 0; i < r.size; i++) {
                const tuple_t all = r.tuple(i);
                REQUIRE(i % 1000 != 0 || r.holds(all), "the check contradicts itself about " << where);
                tuple_t t;
                for (std::size_t c : part.columns) {
                    t.push_back(all[c]);
                }
                REQUIRE(got.count(t), where << " misses " << shown(t));
                expected.insert(t);
            }
            REQUIRE(got.size() == expected.size(), where << " holds " << got.size() << " rows instead of " << expected.size());
            g.checked(expected.size());
        }
    }
}    // namespace

// Every table of the library but the largest one, completely.
PBT_TEST(whole, 1, 1) {
    for (std::size_t i = 0; i < small_relations; i++) {
        g.note() << relations[i].name << " ";
        g.label(relations[i].name);
        check_whole(g, relations[i]);
    }
    g.nontrivial(true);
}

PBT_TEST(largest, 1, 1) {
    const Relation &r = relations[small_relations];
    g.note() << r.name;
    vp::circuit_t<F> bp;
    bp.reserve_table(std::string(r.name) + "/full");
    bp.reserve_table(std::string(r.name) + "/first_column");
    const auto &definition = bp.get_reserved_tables().at(r.name);
    const columns_t &table = definition->get_table();
    std::vector<bool> seen(r.size, false), first(256, false);
    for (const auto &part : parts(r)) {
        const auto &sub = definition->subtables.at(part.name);
        REQUIRE(sub.column_indices == part.columns && sub.end < table[0].size() && sub.end < table[1].size(),
                part.name << " reaches beyond the table");
        for (std::size_t i = sub.begin; i <= sub.end; i++) {
            const std::uint64_t a = small(table[0][i], part.name);
            if (part.columns.size() == 1) {
                REQUIRE(a < 256, part.name << " holds " << a);
                first[a] = true;
                continue;
            }
            const std::uint64_t b = small(table[1][i], part.name);
            REQUIRE(r.holds({a, b}), part.name << " holds " << a << ", " << b);
            seen[b] = true;
        }
    }
    for (std::uint64_t i = 0; i < r.size; i++) {
        REQUIRE(seen[i], "the tuple for " << i << " is missing");
    }
    for (std::uint64_t i = 0; i < 256; i++) {
        REQUIRE(first[i], i << " is missing");
    }
    g.checked(r.size);
    g.nontrivial(true);
}

// Which tables a circuit gets for the names it asks for.
PBT_TEST(reserved, 4000, 40000) {
    const std::size_t cheap[] = {0, 2, 3, 9};    // indices of small tables
    vp::circuit_t<F> bp;
    std::vector<std::string> order;
    std::map<std::string, std::set<std::string>> by_table;
    std::set<std::string> dynamic;
    for (std::size_t k = g.range(1, 10); k > 0; k--) {
        if (g.chance(1, 5)) {
            const std::string name = "dynamic" + std::to_string(dynamic.size());
            g.note() << name << " ";
            bp.reserve_dynamic_table(name);
            order.push_back(name);
            dynamic.insert(name);
            vp::snark::plonk_lookup_table<F> t(1, bp.get_dynamic_lookup_table_selector());
            t.append_option({vp::snark::plonk_constraint<F>(vp::var_t<F>(0, 0))});
            bp.define_dynamic_table(name, t);
        } else {
            const Relation &r = relations[cheap[g.below(4)]];
            const auto l = parts(r);
            const std::string part = l[g.below(l.size())].name, name = r.name + std::string("/") + part;
            g.note() << name << " ";
            bp.reserve_table(name);
            if (by_table[r.name].insert(part).second) {
                order.push_back(name);
            }
        }
    }
    const auto &indices = bp.get_reserved_indices();
    REQUIRE(indices.size() == order.size(), indices.size() << " tables reserved instead of " << order.size());
    for (std::size_t i = 0; i < order.size(); i++) {
        REQUIRE(indices.at(order[i]) == i + 1, order[i] << " has number " << indices.at(order[i]) << " instead of " << i + 1);
        REQUIRE(bp.get_reserved_indices_right().at(i + 1) == order[i], "number " << i + 1 << " is not " << order[i]);
        g.checked(2);
    }
    const auto &tables = bp.get_reserved_tables();
    REQUIRE(tables.size() == by_table.size(), tables.size() << " tables instead of " << by_table.size());
    for (const auto &[name, l] : by_table) {
        REQUIRE(tables.count(name), name << " is missing");
        std::set<std::string> got;
        for (const auto &s : tables.at(name)->subtables) {
            got.insert(s.first);
        }
        REQUIRE(got == l, name << " has other parts than those asked for");
        g.checked();
    }
    const auto &dynamic_tables = bp.get_reserved_dynamic_tables();
    REQUIRE(dynamic_tables.size() == dynamic.size(), dynamic_tables.size() << " dynamic tables instead of " << dynamic.size());
    for (const auto &name : dynamic) {
        REQUIRE(dynamic_tables.count(name) && dynamic_tables.at(name)->is_defined(), name << " is missing or not defined");
    }
    g.nontrivial(order.size() >= 3);
}

// Tables read from text.
PBT_TEST(text, 2000, 20000) {
    const std::size_t columns = g.range(1, 4), rows = g.below(20);
    columns_t expected(columns, std::vector<V>(rows));
    std::vector<std::string> lines = {std::to_string(rows)};
    for (std::size_t i = 0; i < rows; i++) {
        std::ostringstream os;
        for (std::size_t c = 0; c < columns; c++) {
            expected[c][i] = vp::some_element<F>(g);
            os << (c ? " " : "") << std::string(g.chance(1, 4) ? g.below(3) : 0, ' ') << std::hex
               << F::integral_type(expected[c][i].data);
        }
        lines.push_back(os.str());
    }
    // 0 as it is, 1 a line is missing, 2 a number is missing, 3 not a number, 4 no number of rows
    std::size_t damage = g.flag() ? g.below(5) : 0;
    if (rows == 0 && damage != 4) {
        damage = 0;
    }
    const std::size_t where = rows == 0 ? 0 : g.range(1, rows);
    if (damage == 1) {
        lines.pop_back();
    } else if (damage == 2) {
        lines[where] = lines[where].substr(0, lines[where].rfind(' ') == std::string::npos ? 0 : lines[where].rfind(' '));
    } else if (damage == 3) {
        lines[where] = "x" + lines[where];
    } else if (damage == 4) {
        lines[0] = "x";
    }
    std::string text;
    for (std::size_t i = 0; i < lines.size(); i++) {
        text += lines[i] + "\n";
    }
    g.note() << columns << " columns, damage " << damage << ": " << text;
    namespace detail = nil::blueprint::components::detail;
    columns_t got;
    std::istringstream is(text);
    bool ok;
    if (g.flag()) {
        ok = detail::parse_lookup_table<F>(is, columns, got);
    } else {
        char name[] = "/tmp/vp-table-XXXXXX";
        const int fd = mkstemp(name);
        REQUIRE(fd >= 0, "no scratch file");
        close(fd);
        {
            std::ofstream out(name);
            out << text;
        }
        std::set<std::string> candidates = {name};
        if (g.flag()) {
            candidates.insert(std::string(name) + "-missing");
            candidates.insert("/tmp/vp-missing/table");
        }
        ok = detail::load_lookup_table<F>(candidates, columns, got);
        unlink(name);
    }
    REQUIRE(ok == (damage == 0), "reading the table " << (ok ? "succeeds" : "fails"));
    if (ok) {
        REQUIRE(got == expected, "another table is read");
    }
    g.checked();
    g.nontrivial(rows >= 2);
}

PBT_MAIN
