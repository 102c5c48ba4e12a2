// C07: SHA-2 lookup tables and their loaders.
#include <array>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <sys/stat.h>
#include "mock_fields.hpp"
#include <nil/blueprint/detail/lookup_table_loaders.hpp>
#include "pbt.hpp"

using namespace nil::blueprint::components::detail;

// All digit strings (8 digits, least significant first) which occur in a byte of rotr(x,a)+rotr(x,b)+rotr(x,c).
static std::set<std::uint64_t> sums(unsigned a, unsigned b, unsigned c, unsigned base) {
    std::set<std::uint64_t> r;
    // bits of x taking part in the byte starting at bit 0 (all bytes are rotations of each other)
    std::vector<unsigned> bits;
    unsigned rot[3] = {a, b, c};
    for (unsigned p = 0; p < 8; p++) {
        for (unsigned q : rot) {
            unsigned k = (p + q) % 32;
            if (std::find(bits.begin(), bits.end(), k) == bits.end()) {
                bits.push_back(k);
            }
        }
    }
    for (std::uint32_t m = 0; m < (1u << bits.size()); m++) {
        std::uint32_t x = 0;
        for (std::size_t i = 0; i < bits.size(); i++) {
            x |= std::uint32_t((m >> i) & 1) << bits[i];
        }
        std::uint64_t v = 0;
        for (int p = 7; p >= 0; p--) {
            unsigned d = 0;
            for (unsigned q : rot) {
                d += (x >> ((p + q) % 32)) & 1;
            }
            v = v * base + d;
        }
        r.insert(v);
    }
    return r;
}

template<typename F>
static void check_builtin(pbt::Gen &g, const std::string &name, unsigned base) {
    std::vector<std::vector<typename F::value_type>> t;
    bool ok = load_lookup_table_from_bin<F>(name, t);
    REQUIRE(ok, name << " cannot be loaded");
    REQUIRE(t.size() == 2, name << " has " << t.size() << " columns");
    REQUIRE(t[0].size() == t[1].size(), name << " has columns of different sizes");
    std::set<std::uint64_t> allowed;
    if (base == 4) {
        for (std::uint64_t v = 0; v < 65536; v++) {
            allowed.insert(v);
        }
    } else {
        allowed = sums(6, 11, 25, 7);
    }
    std::set<std::uint64_t> seen;
    for (std::size_t i = 0; i < t[0].size(); i++) {
        std::uint64_t v = static_cast<std::uint64_t>(t[0][i].data), s = static_cast<std::uint64_t>(t[1][i].data);
        REQUIRE(allowed.count(s), name << " row " << i << ": sparse value " << s << " cannot occur");
        REQUIRE(seen.insert(s).second, name << " row " << i << ": sparse value " << s << " is repeated");
        std::uint64_t x = s, p = 0;
        for (unsigned k = 0; k < 8; k++) {
            p |= ((x % base) & 1) << k;
            x /= base;
        }
        REQUIRE(p == v && t[0][i].data < 256, name << " row " << i << ": byte " << v << " for sparse value " << s << ", expected " << p);
        g.checked(3);
    }
    REQUIRE(seen == allowed, name << " has " << seen.size() << " rows instead of " << allowed.size());
}

PBT_TEST(builtin, 4, 4) {
    bool four = g.flag();
    bool wide = g.flag();
    g.note() << (four ? "8_split_4" : "8_split_7");
    g.nontrivial();
    if (wide) {
        check_builtin<mock::field<255>>(g, four ? "8_split_4" : "8_split_7", four ? 4 : 7);
    } else {
        check_builtin<mock::field<381>>(g, four ? "8_split_4" : "8_split_7", four ? 4 : 7);
    }
    // the result may hold the rows of a previous table
    std::vector<std::vector<mock::field<255>::value_type>> t(3, std::vector<mock::field<255>::value_type>(70000, 5));
    REQUIRE(load_lookup_table_from_bin<mock::field<255>>("8_split_7", t) && t.size() == 2 && t[0].size() == t[1].size() && t[0].size() < 70000,
            "loading into a used result");
}

PBT_TEST(unknown_names, 900, 3600) {
    std::string name = g.pick({"", "8_split", "8_split_", "8_split_5", "7_split_4", "8_SPLIT_4", "8_split_44", " 8_split_4", "x"});
    if (g.flag()) {
        name += char('a' + g.below(26));
    }
    g.note() << "'" << name << "'";
    g.nontrivial();
    std::vector<std::vector<mock::field<255>::value_type>> t;
    REQUIRE(!load_lookup_table_from_bin<mock::field<255>>(name, t), "table '" << name << "' is found");
}

template<typename F>
using table = std::vector<std::vector<typename F::integral_type>>;

template<typename F>
static typename F::integral_type element(pbt::Gen &g) {
    using I = typename F::integral_type;
    unsigned bits = unsigned(g.pick({1u, 4u, 8u, 16u, 40u, 60u, 64u, 65u, 68u, 100u, 128u, 200u, unsigned(F::modulus_bits)}));
    bits = std::min<unsigned>(bits, F::modulus_bits);
    I v = 0;
    for (unsigned i = 0; i < bits; i += 64) {
        v = (v << 64) | I(g.bits64());
    }
    v &= (I(1) << bits) - 1;
    if (g.flag()) {
        v |= I(1) << (bits - 1);
    }
    return v;
}

template<typename I>
static std::string hex(pbt::Gen &g, const I &v, bool plain) {
    std::ostringstream os;
    os << std::hex << v;
    std::string s = os.str();
    if (!plain && g.flag()) {
        for (auto &c : s) {
            c = char(std::toupper(c));
        }
    }
    return s;
}

template<typename F>
static std::string write(pbt::Gen &g, const table<F> &rows) {
    std::ostringstream os;
    bool plain = g.flag();
    os << rows.size() << "\n";
    for (std::size_t i = 0; i < rows.size(); i++) {
        for (std::size_t j = 0; j < rows[i].size(); j++) {
            os << (j ? " " : (!plain && g.flag() ? "  " : "")) << hex(g, rows[i][j], plain);
            if (!plain && g.chance(1, 6)) {
                os << (g.flag() ? " " : "\t");
            }
        }
        if (i + 1 < rows.size() || g.flag()) {
            os << "\n";
        }
    }
    return os.str();
}

template<typename F>
static table<F> gen_table(pbt::Gen &g, std::size_t width) {
    table<F> rows(g.below(g.chance(1, 8) ? 60 : 8));
    for (auto &r : rows) {
        for (std::size_t j = 0; j < width; j++) {
            r.push_back(element<F>(g));
        }
    }
    return rows;
}

template<typename F>
static void same(const std::vector<std::vector<typename F::value_type>> &t, const table<F> &rows, std::size_t width) {
    REQUIRE(t.size() == width, t.size() << " columns instead of " << width);
    for (std::size_t j = 0; j < width; j++) {
        REQUIRE(t[j].size() == rows.size(), "column " << j << " has " << t[j].size() << " rows instead of " << rows.size());
        for (std::size_t i = 0; i < rows.size(); i++) {
            REQUIRE(t[j][i].data == rows[i][j], "row " << i << " column " << j << " is " << std::hex << t[j][i].data << " instead of "
                                                      << rows[i][j]);
        }
    }
}

template<typename F>
static void round_trip(pbt::Gen &g) {
    std::size_t width = 1 + g.below(4);
    table<F> rows = gen_table<F>(g, width);
    std::string text = write<F>(g, rows);
    g.note() << F::modulus_bits << " bits, width " << width << ": " << text;
    std::istringstream is(text);
    std::vector<std::vector<typename F::value_type>> t;
    if (g.flag()) {
        // left over from another table
        t.assign(g.below(6), std::vector<typename F::value_type>(g.below(80), 7));
    }
    bool ok = parse_lookup_table<F>(is, width, t);
    REQUIRE(ok, "a well-formed table is refused");
    same<F>(t, rows, width);
    g.checked(rows.size() * width + 1);
    g.nontrivial(rows.size() >= 2);
}

PBT_TEST(parse_round_trip, 12000, 60000) {
    switch (g.below(4)) {
        case 0: round_trip<mock::field<255>>(g); break;
        case 1: round_trip<mock::field<254>>(g); break;
        case 2: round_trip<mock::field<381>>(g); break;
        default: round_trip<mock::field<64>>(g);
    }
}

using F = mock::field<255>;

enum damage { NO_DAMAGE, TRUNCATED, SHORT_ROW, BAD_CHARACTER, BAD_HEADER, EMPTY, DAMAGES };
static const char *damage_names[] = {"none", "truncated", "short_row", "bad_character", "bad_header", "empty"};

static std::string damaged(pbt::Gen &g, const table<F> &rows, std::size_t width, damage d) {
    std::ostringstream os;
    if (d == EMPTY) {
        return "";
    }
    if (d == BAD_HEADER) {
        os << g.pick({"x", "", " ", "table", "-", "g12"}) << "\n";
    } else {
        os << rows.size() << "\n";
    }
    std::size_t at = g.below(rows.size());
    for (std::size_t i = 0; i < rows.size(); i++) {
        if (d == TRUNCATED && i == at) {
            break;
        }
        std::size_t n = d == SHORT_ROW && i == at ? g.below(width) : width;
        std::size_t bad = d == BAD_CHARACTER && i == at ? g.below(width) : width + 1;
        for (std::size_t j = 0; j < n; j++) {
            os << (j ? " " : "");
            if (j == bad) {
                os << g.pick({"g", "-", "x1", "#", "zz"});
            } else {
                os << std::hex << rows[i][j] << std::dec;
            }
        }
        os << "\n";
    }
    return os.str();
}

static bool parse_fails(const std::string &text, std::size_t width) {
    std::istringstream is(text);
    std::vector<std::vector<F::value_type>> t;
    try {
        return !parse_lookup_table<F>(is, width, t);
    } catch (const std::exception &) {
        return true;
    }
}

PBT_TEST(parse_damaged, 12000, 60000) {
    std::size_t width = 1 + g.below(4);
    table<F> rows = gen_table<F>(g, width);
    if (rows.empty()) {
        rows.push_back(std::vector<F::integral_type>(width, 1));
    }
    damage d = damage(1 + g.below(DAMAGES - 1));
    std::string text = damaged(g, rows, width, d);
    g.note() << damage_names[d] << " width " << width << ": " << text;
    g.label(damage_names[d]);
    g.nontrivial(rows.size() >= 2);
    REQUIRE(parse_fails(text, width), "a table damaged by " << damage_names[d] << " is accepted");
}

// several candidate files, in the order of their names: missing, damaged or good
PBT_TEST(load_candidates, 4500, 18000) {
    char dir[] = "/tmp/verif-c07-XXXXXX";
    REQUIRE(mkdtemp(dir) != nullptr, "scratch directory");
    std::size_t width = 1 + g.below(3);
    std::size_t n = 1 + g.below(4);
    std::set<std::string> paths;
    std::vector<std::string> created;
    table<F> expected;
    bool found = false;
    for (std::size_t i = 0; i < n; i++) {
        std::string path = std::string(dir) + "/" + char('a' + i);
        paths.insert(path);
        unsigned kind = unsigned(g.below(4));
        if (kind == 0) {
            g.note() << "missing ";
            continue;
        }
        table<F> rows = gen_table<F>(g, width);
        if (rows.empty()) {
            rows.push_back(std::vector<F::integral_type>(width, 3));
        }
        damage d = kind == 1 ? damage(1 + g.below(DAMAGES - 1)) : NO_DAMAGE;
        g.note() << damage_names[d] << " ";
        std::ofstream(path) << damaged(g, rows, width, d);
        created.push_back(path);
        if (d == NO_DAMAGE && !found) {
            found = true;
            expected = rows;
        }
    }
    std::vector<std::vector<F::value_type>> t;
    std::string error;
    bool ok = false;
    try {
        ok = load_lookup_table<F>(paths, width, t);
    } catch (const std::exception &e) {
        error = e.what();
    }
    for (auto &p : created) {
        unlink(p.c_str());
    }
    rmdir(dir);
    g.label(found ? "found" : "none");
    g.nontrivial(n >= 2);
    if (found) {
        REQUIRE(ok, "a readable candidate is not used " << error);
        same<F>(t, expected, width);
    } else {
        REQUIRE(!ok, "a table is reported although no candidate is readable");
    }
}

PBT_MAIN
