// Traces of zkEVM instructions against arithmetic on 256-bit words.
#include "circuit.hpp"

#include <nil/crypto3/algebra/curves/alt_bn128.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/alt_bn128.hpp>

#include <nil/blueprint/zkevm/zkevm_circuit.hpp>

#include <boost/multiprecision/cpp_int.hpp>

#include <array>
#include <mutex>

using namespace nil::blueprint;
using F = nil::crypto3::algebra::curves::alt_bn128<254>::base_field_type;
using V = F::value_type;
using var = vp::var_t<F>;
using big = boost::multiprecision::cpp_int;

namespace {
    const big two_256 = big(1) << 256;

    struct Instruction {
        zkevm_opcode code;
        const char *name;
        std::size_t operands;
        big (*result)(const big &, const big &);
    };
    const std::array<Instruction, 5> instructions = {{
        {zkevm_opcode::ISZERO, "ISZERO", 1, [](const big &a, const big &) { return big(a == 0 ? 1 : 0); }},
        {zkevm_opcode::ADD, "ADD", 2, [](const big &a, const big &b) { return big((a + b) % two_256); }},
        {zkevm_opcode::SUB, "SUB", 2, [](const big &a, const big &b) { return big((a + two_256 - b) % two_256); }},
        {zkevm_opcode::MUL, "MUL", 2, [](const big &a, const big &b) { return big((a * b) % two_256); }},
        {zkevm_opcode::DIV, "DIV", 2, [](const big &a, const big &b) { return b == 0 ? big(0) : big(a / b); }},
    }};
    big remainder(const big &a, const big &b) {
        return b == 0 ? a : big(a % b);
    }

    zkevm_word_type word_of(const big &x) {
        zkevm_word_type w = 0u;
        for (int i = 15; i >= 0; i--) {
            w = w * zkevm_word_type(65536u) + zkevm_word_type(unsigned((x >> (16 * i)) & 0xffff));
        }
        return w;
    }
    V element_of(const big &x) {
        V v(0u);
        for (int i = 15; i >= 0; i--) {
            v = v * V(65536u) + V(unsigned((x >> (16 * i)) & 0xffff));
        }
        return v;
    }
    // the element as a number if it is below 2^64
    bool small_number(const V &v, std::uint64_t &out) {
        std::ostringstream os;
        os << v.data;
        const big x(os.str());
        if (x >> 64 != 0) {
            return false;
        }
        out = static_cast<std::uint64_t>(x);
        return true;
    }

    struct Step {
        std::size_t what;
        big a, b;
        std::size_t row = 0, rows = 0;
    };
    struct Trace {
        vp::table_t<F> table {0, 0, 0, 0};
        vp::circuit_t<F> bp;
        std::unique_ptr<zkevm_circuit<F>> circuit;

        explicit Trace(std::vector<Step> &program, std::size_t start = 1) {
            circuit = std::make_unique<zkevm_circuit<F>>(table, bp, start);
            zkevm_machine_interface machine;
            for (auto &s : program) {
                machine.stack.push(word_of(s.b));
                machine.stack.push(word_of(s.a));
                s.row = circuit->get_current_row();
                circuit->assign_opcode(instructions[s.what].code, machine);
                s.rows = circuit->get_current_row() - s.row;
            }
            circuit->finalize_test();
        }
        V cell(std::size_t column, std::size_t row) const {
            const auto &c = table.witness(column);
            return row < c.size() ? c[row] : V::zero();
        }
    };

    // Where a word is kept: its pieces lie in neighbouring columns of one row.
    struct Place {
        std::size_t row, column, bits;
        bool rising;    // lowest piece first
        bool operator<(const Place &o) const {
            return std::tie(row, column, bits, rising) < std::tie(o.row, o.column, o.bits, o.rising);
        }
        std::vector<std::pair<std::size_t, std::size_t>> cells(const Step &s) const {
            std::vector<std::pair<std::size_t, std::size_t>> r;
            const std::size_t n = 256 / bits;
            for (std::size_t i = 0; i < n; i++) {
                r.emplace_back(column + (rising ? i : n - 1 - i), s.row + row);
            }
            return r;    // lowest piece first
        }
    };
    V piece(const big &w, std::size_t bits, std::size_t i) {
        return element_of((w >> (bits * i)) & ((big(1) << bits) - 1));
    }
    bool holds(const Trace &t, const Step &s, const Place &p, const big &w) {
        const auto cells = p.cells(s);
        for (std::size_t i = 0; i < cells.size(); i++) {
            if (t.cell(cells[i].first, cells[i].second) != piece(w, p.bits, i)) {
                return false;
            }
        }
        return true;
    }
    std::set<Place> places(const Trace &t, const Step &s, const big &w) {
        std::set<Place> r;
        for (std::size_t bits : {8, 16, 32, 64, 128}) {
            const std::size_t n = 256 / bits;
            std::vector<V> pieces;
            for (std::size_t i = 0; i < n; i++) {
                pieces.push_back(piece(w, bits, i));
            }
            for (std::size_t row = 0; row < s.rows; row++) {
                for (std::size_t c = 0; c + n <= t.table.witnesses_amount(); c++) {
                    for (bool rising : {true, false}) {
                        bool same = true;
                        for (std::size_t i = 0; same && i < n; i++) {
                            same = t.cell(c + (rising ? i : n - 1 - i), s.row + row) == pieces[i];
                        }
                        if (same) {
                            r.insert({row, c, bits, rising});
                        }
                    }
                }
            }
        }
        return r;
    }

    // What is known of the layout of an instruction from a few of its traces.
    struct Layout {
        bool known = false;
        std::string wrong;
        std::set<Place> a, b, result, rest;
        // tiny numbers; numbers below 2^16 (or only zeros); anything
        enum kind { NONE, CARRY, PIECE, FREE };
        std::map<std::pair<std::size_t, std::size_t>, kind> kinds;    // column and row of the instruction
    };
    Layout learn(std::size_t what) {
        Layout l;
        vp::Rng rng {std::uint64_t(7001 + what)};
        auto random_word = [&]() {
            big x = 0;
            for (int i = 0; i < 4; i++) {
                x = (x << 64) | big(rng.next());
            }
            return x;
        };
        auto keep = [](std::set<Place> &had, const std::set<Place> &now, bool first) {
            if (first) {
                had = now;
                return;
            }
            std::set<Place> both;
            for (const auto &p : had) {
                if (now.count(p)) {
                    both.insert(p);
                }
            }
            had = both;
        };
        for (int i = 0; i < 14; i++) {
            big a = random_word(), b = random_word();
            if (instructions[what].operands == 1) {
                a = i % 2 ? big(0) : a;
            } else if (i % 2) {
                b >>= i < 8 ? 128 + 16 * i : 128;
            }
            std::vector<Step> program = {{what, a, b}};
            Trace t(program);
            const Step &s = program[0];
            keep(l.a, places(t, s, a), i == 0);
            if (instructions[what].operands == 2) {
                keep(l.b, places(t, s, b), i == 0);
                keep(l.rest, places(t, s, remainder(a, b)), i == 0);
            }
            keep(l.result, places(t, s, instructions[what].result(a, b)), i == 0);
            for (std::size_t c : t.circuit->get_opcode_cols()) {
                for (std::size_t r = 0; r < s.rows; r++) {
                    std::uint64_t n;
                    const Layout::kind k = !small_number(t.cell(c, s.row + r), n) || n >> 16 ? Layout::FREE :
                                           n > 3                                              ? Layout::PIECE :
                                           n                                                  ? Layout::CARRY :
                                                                                                Layout::NONE;
                    auto &have = l.kinds[{c, r}];
                    have = std::max(have, k);
                }
            }
        }
        for (auto &k : l.kinds) {
            if (k.second == Layout::NONE) {
                k.second = Layout::PIECE;
            }
        }
        l.known = !l.a.empty() && (instructions[what].operands == 1 || !l.b.empty());
        if (l.known && l.result.empty()) {
            l.wrong = "no place in the trace holds the results of the instruction";
        }
        return l;
    }
    const Layout &layout(std::size_t what) {
        static std::map<std::size_t, Layout> all;
        auto it = all.find(what);
        if (it == all.end()) {
            it = all.emplace(what, learn(what)).first;
        }
        return it->second;
    }

    big some_word(pbt::Gen &g) {
        switch (g.below(7)) {
            case 0:
                return g.below(4);
            case 1:
                return two_256 - 1 - g.below(4);
            case 2: {
                const big x = (big(1) << g.below(256)) + int(g.below(3)) - 1;
                return x < 0 ? big(0) : x;
            }
            case 3: {    // pieces of 16 bits which are empty, full or anything
                big x = 0;
                for (int i = 0; i < 16; i++) {
                    const unsigned kind = g.below(4);
                    x = (x << 16) | (kind == 0 ? 0u : kind == 1 ? 0xffffu : kind == 2 ? 1u : unsigned(g.below(65536)));
                }
                return x;
            }
            case 4: {    // the same with 64 bits
                big x = 0;
                for (int i = 0; i < 4; i++) {
                    const unsigned kind = g.below(4);
                    x = (x << 64) | big(kind == 0 ? 0 : kind == 1 ? ~std::uint64_t(0) : kind == 2 ? 1 : g.bits64());
                }
                return x;
            }
            case 5:
                return big(g.bits64()) >> g.below(64);
            default: {
                big x = 0;
                for (int i = 0; i < 4; i++) {
                    x = (x << 64) | big(g.bits64());
                }
                return x >> (g.flag() ? 0 : g.below(256));
            }
        }
    }
    Step some_step(pbt::Gen &g) {
        Step s;
        s.what = g.below(instructions.size());
        s.a = some_word(g);
        s.b = some_word(g);
        switch (g.below(6)) {
            case 0:
                s.b = s.a;
                break;
            case 1:
                s.b = (two_256 - s.a) % two_256;
                break;
            case 2:
                s.a = (s.a * s.b) % two_256;
                break;
            case 3:
                s.b = (s.a + g.below(3)) % two_256;
                break;
        }
        return s;
    }
    std::string shown(const Step &s) {
        std::ostringstream os;
        os << instructions[s.what].name << " of " << std::hex << s.a << " and " << s.b;
        return os.str();
    }
    std::vector<Step> some_program(pbt::Gen &g, std::size_t most) {
        std::vector<Step> p(g.range(1, most));
        for (auto &s : p) {
            s = some_step(g);
            g.note() << shown(s) << "; ";
            g.label(instructions[s.what].name);
        }
        return p;
    }
    void check_words(const Trace &t, const Step &s) {
        const Layout &l = layout(s.what);
        if (!l.known) {
            return;
        }
        REQUIRE(l.wrong.empty(), instructions[s.what].name << ": " << l.wrong);
        for (const auto &p : l.a) {
            REQUIRE(holds(t, s, p, s.a), shown(s) << ": the first operand is not in the trace");
        }
        for (const auto &p : l.b) {
            REQUIRE(holds(t, s, p, s.b), shown(s) << ": the second operand is not in the trace");
        }
        for (const auto &p : l.result) {
            REQUIRE(holds(t, s, p, instructions[s.what].result(s.a, s.b)),
                    shown(s) << ": the trace does not hold the result " << std::hex
                             << instructions[s.what].result(s.a, s.b));
        }
    }
}    // namespace

PBT_TEST(programs, 2500, 40000) {
    auto program = some_program(g, 6);
    const std::size_t start = g.range(1, 4);
    Trace t(program, start);
    for (const auto &s : program) {
        check_words(t, s);
    }
    vp::System<F> sys(t.bp, t.table, t.circuit->get_current_row() + 1);
    const std::string problem = sys.problem();
    REQUIRE(problem.empty(), "the generated trace is not accepted: " << problem);
    g.nontrivial();
    // any piece of any word matters: one of them changed alone has to be noticed
    const Step &s = program[g.below(program.size())];
    const Layout &l = layout(s.what);
    if (!l.known) {
        return;
    }
    std::set<std::pair<std::size_t, std::size_t>> cells;
    for (const auto *set : {&l.a, &l.b, &l.result}) {
        for (const auto &p : *set) {
            for (const auto &c : p.cells(s)) {
                cells.insert(c);
            }
        }
    }
    auto it = cells.begin();
    std::advance(it, g.below(cells.size()));
    const V old = sys.value[it->first][it->second];
    const V now = V(unsigned(g.below(65536)));
    if (old == now) {
        return;
    }
    // an operand may stand for other operands with the same result
    bool operand = false;
    for (const auto *set : {&l.a, &l.b}) {
        for (const auto &p : *set) {
            for (const auto &c : p.cells(s)) {
                operand |= c == *it;
            }
        }
    }
    if (operand && instructions[s.what].code != zkevm_opcode::ADD && instructions[s.what].code != zkevm_opcode::SUB) {
        return;
    }
    if (instructions[s.what].code == zkevm_opcode::DIV) {
        return;    // see below
    }
    sys.value[it->first][it->second] = now;
    g.checked();
    REQUIRE(!sys.problem().empty(), "the trace is also accepted with " << now << " instead of " << old << " at column "
                                                                       << it->first << ", row " << it->second << " of "
                                                                       << shown(s));
}

// Puts another word in the place of the result and tries to mend the rest of the instruction.
PBT_TEST(results, 4000, 80000) {
    auto program = some_program(g, 2);
    const std::size_t at = g.below(program.size());
    Trace t(program);
    const Step &s = program[at];
    const Layout &l = layout(s.what);
    const bool division = instructions[s.what].code == zkevm_opcode::DIV;
    if (!l.known || l.result.empty()) {
        return;
    }
    vp::System<F> sys(t.bp, t.table, t.circuit->get_current_row() + 1);
    if (!sys.problem().empty()) {
        pbt::fail("the generated trace is not accepted");
    }
    sys.prepare();
    // all but the cells of this instruction are left alone, and so are its operands
    std::set<std::pair<std::size_t, std::size_t>> inside, fixed;
    for (const auto &k : l.kinds) {
        inside.insert({k.first.first, s.row + k.first.second});
    }
    for (const auto *set : {&l.a, &l.b}) {
        for (const auto &p : *set) {
            for (const auto &c : p.cells(s)) {
                fixed.insert(c);
            }
        }
    }
    const bool carries_only = g.chance(1, 3);
    sys.lock_if([&](std::size_t c, std::size_t r) {
        return !inside.count({c, r}) || fixed.count({c, r}) ||
               (carries_only && l.kinds.at({c, r - s.row}) == Layout::PIECE);
    });
    const big right = instructions[s.what].result(s.a, s.b), rest = remainder(s.a, s.b);
    big wrong = right, wrong_rest = rest;
    bool pair = false;
    switch (g.below(division ? 9 : 7)) {
        case 0:
            wrong = (right + 1) % two_256;
            break;
        case 1:
            wrong = (right + two_256 - 1) % two_256;
            break;
        case 2:
            wrong = right ^ (big(1) << g.below(256));
            break;
        case 3: {
            const unsigned i = 16 * g.below(16);
            wrong = (right & ~(big(0xffff) << i)) | (big(g.below(65536)) << i);
            break;
        }
        case 4: {
            const unsigned i = 64 * g.below(4);
            wrong = right + (big(g.range(1, 65535)) << (i + g.below(49)));
            wrong %= two_256;
            break;
        }
        case 5:
            wrong = some_word(g);
            break;
        case 6: {    // the same modulo the prime of the circuit, for carries which can be anything
            std::ostringstream os;
            os << F::modulus;
            const big w = right + big(os.str()) * g.range(-4, 4) + two_256 * g.range(-1, 1);
            if (w >= 0 && w < two_256) {
                wrong = w;
            }
            break;
        }
        default:    // a remainder which is too large
            if (right > 0) {
                const big k = right < 4 ? big(1) : big(g.flag() ? 1 + g.below(3) : 1 + g.bits64() % 1000000);
                if (k <= right && (rest + k * s.b) < two_256) {
                    wrong = right - k;
                    wrong_rest = rest + k * s.b;
                    pair = true;
                }
            }
    }
    if (wrong == right) {
        return;
    }
    std::ostringstream what;
    what << "result " << std::hex << wrong << " instead of " << right;
    g.note() << what.str();
    g.nontrivial();
    std::map<std::size_t, V> start;
    auto put = [&](const std::set<Place> &set, const big &w) {
        for (const auto &p : set) {
            const auto cells = p.cells(s);
            for (std::size_t i = 0; i < cells.size(); i++) {
                start[sys.class_id(var(cells[i].first, cells[i].second, false))] = piece(w, p.bits, i);
            }
        }
    };
    put(l.result, wrong);
    if (pair) {
        put(l.rest, wrong_rest);
    }
    vp::Rng rng {g.bits64()};
    std::map<std::size_t, std::pair<std::size_t, std::size_t>> where;    // class to cell
    for (const auto &c : inside) {
        where[sys.class_id(var(c.first, c.second, false))] = c;
    }
    auto kind_of = [&](std::size_t k) {
        const auto &c = where.at(k);
        return l.kinds.at({c.first, c.second - s.row});
    };
    for (int i = 0; i < 24; i++) {
        auto from = start;
        for (const auto &k : l.kinds) {    // other carries
            const std::pair<std::size_t, std::size_t> c {k.first.first, s.row + k.first.second};
            const std::size_t id = sys.class_id(var(c.first, c.second, false));
            if (i % 2 && k.second == Layout::CARRY && !fixed.count(c) && !from.count(id) && rng.below(8) == 0) {
                from[id] = V(unsigned(rng.below(3)));
            }
        }
        auto a = sys.attempt(from, rng, 200);
        g.checked();
        if (!a.satisfied) {
            continue;
        }
        // pieces have to be below 2^16; four of them in a row may stand for the same number below 2^64
        auto value_at = [&](std::size_t c, std::size_t r) {
            const std::size_t k = sys.class_id(var(c, r, false));
            auto it = a.changed.find(k);
            return it == a.changed.end() ? sys.class_value(k) : it->second;
        };
        for (const auto &k : std::map<std::size_t, V>(a.changed)) {
            std::uint64_t n;
            if (kind_of(k.first) != Layout::PIECE || (small_number(k.second, n) && n >> 16 == 0)) {
                continue;
            }
            const auto c = where.at(k.first);
            for (std::size_t low = c.first < 3 ? 0 : c.first - 3; low <= c.first; low++) {
                V sum(0u), unit(1u);
                bool pieces = true;
                for (std::size_t j = 0; j < 4; j++, unit *= V(65536u)) {
                    auto kind = l.kinds.find({low + j, c.second - s.row});
                    pieces &= kind != l.kinds.end() && kind->second == Layout::PIECE && !fixed.count({low + j, c.second}) &&
                              !start.count(sys.class_id(var(low + j, c.second, false)));
                    if (pieces) {
                        sum += unit * value_at(low + j, c.second);
                    }
                }
                if (!pieces || !small_number(sum, n)) {
                    continue;
                }
                for (std::size_t j = 0; j < 4; j++) {
                    a.changed[sys.class_id(var(low + j, c.second, false))] = V(unsigned((n >> (16 * j)) & 0xffff));
                }
                break;
            }
        }
        bool in_range = true;
        for (const auto &k : a.changed) {
            std::uint64_t n;
            in_range &= kind_of(k.first) != Layout::PIECE || (small_number(k.second, n) && n >> 16 == 0);
        }
        if (!in_range || !sys.attempt(a.changed, rng, 0).satisfied) {
            g.label("only with pieces out of range");
            continue;
        }
        if (division && s.b != 0 && !l.rest.empty()) {
            // the remainder is only known to differ from the divisor, and the product may exceed 256 bits
            const Place p = *l.rest.begin();
            const auto cells = p.cells(s);
            big q = 0;
            for (std::size_t j = cells.size(); j > 0; j--) {
                std::ostringstream os;
                os << value_at(cells[j - 1].first, cells[j - 1].second).data;
                q = (q << p.bits) + big(os.str());
            }
            if ((wrong * s.b + q) % two_256 == s.a && q != s.b && pbt::known(g, "div_remainder")) {
                return;
            }
        }
        std::ostringstream cells;
        for (const auto &k : a.changed) {
            cells << " (" << where.at(k.first).first << "," << where.at(k.first).second - s.row << ")=" << k.second.data;
        }
        REQUIRE(false, shown(s) << ": a trace with the " << what.str() << " is accepted; changed cells" << cells.str());
    }
}

PBT_MAIN
