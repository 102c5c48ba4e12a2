// Tables as storage, against maps; exports read back.
#include "circuit.hpp"

#include <nil/crypto3/algebra/curves/pallas.hpp>

using F = nil::crypto3::algebra::curves::pallas::base_field_type;
using V = F::value_type;
using I = F::integral_type;
using var = vp::var_t<F>;
using constraint = vp::snark::plonk_constraint<F>;
using table_t = vp::table_t<F>;
using column_t = vp::snark::plonk_column<F>;
using ranges = std::vector<std::pair<std::size_t, std::size_t>>;

namespace {
    enum { WITNESS, PUBLIC, CONSTANT, SELECTOR, SHARED, PRIVATE, kinds };
    const char *const names[] = {"witness", "public input", "constant", "selector", "shared", "private"};

    V &cell(table_t &t, int kind, std::size_t c, std::size_t r) {
        switch (kind) {
            case WITNESS:
                return t.witness(c, r);
            case PUBLIC:
                return t.public_input(c, r);
            case CONSTANT:
                return t.constant(c, r);
            case SELECTOR:
                return t.selector(c, r);
            case SHARED:
                return t.shared(c, r);
            default:
                return t.private_storage(r);
        }
    }
    V read(const table_t &t, int kind, std::size_t c, std::size_t r) {
        switch (kind) {
            case WITNESS:
                return t.witness(c, r);
            case PUBLIC:
                return t.public_input(c, r);
            case CONSTANT:
                return t.constant(c, r);
            case SELECTOR:
                return t.selector(c, r);
            case SHARED:
                return t.shared(c, r);
            default:
                return t.private_storage(r);
        }
    }
    std::size_t size(const table_t &t, int kind, std::size_t c) {
        switch (kind) {
            case WITNESS:
                return t.witness_column_size(c);
            case PUBLIC:
                return t.public_input_column_size(c);
            case CONSTANT:
                return t.constant_column_size(c);
            case SELECTOR:
                return t.selector_column_size(c);
            case SHARED:
                return t.shared_column_size(c);
            default:
                return t.private_storage_size();
        }
    }

    struct Model {
        // values of every column of every kind, zeros between what was stored
        std::vector<std::vector<V>> columns[kinds];
        std::size_t allocated = 0, allocated_at_most = 0;
        std::set<std::uint32_t> filled_constants, filled_selectors;

        void store(int kind, std::size_t c, std::size_t r, const V &x) {
            auto &l = columns[kind][c];
            if (l.size() <= r) {
                l.resize(r + 1, V::zero());
            }
            l[r] = x;
            if (kind == WITNESS || kind == CONSTANT) {
                allocate(r + 1);
            }
        }
        void allocate(std::size_t n) {
            allocated = std::max(allocated, n);
            allocated_at_most = std::max(allocated_at_most, n);
        }
        std::size_t longest(int kind) const {
            std::size_t n = 0;
            for (const auto &c : columns[kind]) {
                n = std::max(n, c.size());
            }
            return n;
        }
        std::size_t rows() const {
            return std::max({longest(WITNESS), longest(PUBLIC), longest(CONSTANT), longest(SELECTOR)});
        }
        V at(int kind, std::size_t c, std::size_t r) const {
            return r < columns[kind][c].size() ? columns[kind][c][r] : V::zero();
        }
    };

    void compare(pbt::Gen &g, const table_t &t, const Model &m) {
        for (int k = 0; k < kinds; k++) {
            for (std::size_t c = 0; c < m.columns[k].size(); c++) {
                REQUIRE(size(t, k, c) == m.columns[k][c].size(), names[k] << " column " << c << " has " << size(t, k, c)
                                                                          << " rows instead of " << m.columns[k][c].size());
                for (std::size_t r = 0; r < m.columns[k][c].size(); r++) {
                    const V x = read(t, k, c, r);
                    REQUIRE(x == m.columns[k][c][r],
                            names[k] << " " << c << " of row " << r << " is " << x << " instead of " << m.columns[k][c][r]);
                    g.checked();
                }
            }
        }
        REQUIRE(t.allocated_rows() >= m.allocated && t.allocated_rows() <= m.allocated_at_most,
                t.allocated_rows() << " allocated rows, " << m.allocated << " are in use");
        REQUIRE(t.get_lookup_constant_cols() == m.filled_constants && t.get_lookup_constant_amount() == m.filled_constants.size(),
                "columns of constants filled for lookups are not those given");
        REQUIRE(t.get_lookup_selector_cols() == m.filled_selectors && t.get_lookup_selector_amount() == m.filled_selectors.size(),
                "columns of selectors filled for lookups are not those given");
        REQUIRE(t.max_witnesses_size() == m.longest(WITNESS) && t.max_public_inputs_size() == m.longest(PUBLIC) &&
                    t.max_constants_size() == m.longest(CONSTANT) && t.max_selectors_size() == m.longest(SELECTOR) &&
                    t.max_size() == m.rows(),
                "maximal sizes " << t.max_witnesses_size() << " " << t.max_public_inputs_size() << " " << t.max_constants_size()
                                 << " " << t.max_selectors_size() << " " << t.max_size());
        g.checked(4);
    }

    V parse(const std::string &s) {
        V x = V::zero();
        REQUIRE(!s.empty(), "empty number");
        for (char c : s) {
            REQUIRE(std::isxdigit(c), "not a hexadecimal number: " << s);
            x = x * V(16u) + V(unsigned(c <= '9' ? c - '0' : (c | 32) - 'a' + 10));
        }
        return x;
    }

    std::vector<std::size_t> expand(const ranges &l) {
        std::vector<std::size_t> r;
        for (const auto &p : l) {
            for (std::size_t i = p.first; i <= p.second; i++) {
                r.push_back(i);
            }
        }
        return r;
    }
    ranges some_ranges(pbt::Gen &g, std::size_t n) {
        ranges r;
        for (std::size_t i = g.below(3); n != 0 && i > 0; i--) {
            const std::size_t a = g.below(n);
            r.push_back({a, g.range(a, n - 1)});
        }
        return r;
    }

    // rows and columns of the export as asked for; values in the order of the columns
    void check_export(pbt::Gen &g, const std::string &text, const Model &m, const ranges *parts, const ranges &rows, bool wide) {
        std::istringstream is(text);
        std::string line, word;
        REQUIRE(bool(std::getline(is, line)), "empty export");
        std::istringstream head(line);
        const std::size_t want[] = {m.columns[WITNESS].size(), m.columns[PUBLIC].size(), m.columns[CONSTANT].size(),
                                    m.columns[SELECTOR].size(), m.rows()};
        for (std::size_t w : want) {
            std::size_t n;
            REQUIRE(bool(head >> word >> n) && n == w, "header of the export: " << line);
        }
        const std::size_t digits = (F::modulus_bits + 3) / 4;
        for (std::size_t r : expand(rows)) {
            REQUIRE(bool(std::getline(is, line)), "row " << r << " is missing");
            std::istringstream row(line);
            for (int k = WITNESS; k <= SELECTOR; k++) {
                for (std::size_t c : expand(parts[k])) {
                    REQUIRE(bool(row >> word), "row " << r << " ends before " << names[k] << " " << c);
                    REQUIRE(parse(word) == m.at(k, c, r),
                            names[k] << " " << c << " of row " << r << " is exported as " << word << ", not " << m.at(k, c, r));
                    REQUIRE(!wide || k == SELECTOR || word.size() == digits, "wide export of " << word.size() << " digits");
                    g.checked();
                }
                if (k != SELECTOR) {
                    REQUIRE(bool(row >> word) && word == "|", "no separator after the " << names[k] << " columns of row " << r);
                }
            }
            REQUIRE(!(row >> word), "row " << r << " has too many values: " << word);
        }
        REQUIRE(!std::getline(is, line), "additional row: " << line);
    }
}    // namespace

PBT_TEST(cells, 60000, 600000) {
    const std::size_t w = g.range(1, 4), p = g.range(1, 2), c = g.range(0, 3), s = g.range(1, 4);
    const bool described = g.flag();
    std::unique_ptr<table_t> t = described ? std::make_unique<table_t>(vp::snark::plonk_table_description<F>(w, p, c, s)) :
                                             std::make_unique<table_t>(w, p, c, s);
    Model m;
    m.columns[WITNESS].resize(w);
    m.columns[PUBLIC].resize(p);
    m.columns[CONSTANT].resize(c);
    m.columns[SELECTOR].resize(s);
    m.columns[SHARED].resize(1);
    m.columns[PRIVATE].resize(1);
    g.note() << w << "/" << p << "/" << c << "/" << s << " columns";
    REQUIRE(t->witnesses_amount() == w && t->public_inputs_amount() == p && t->constants_amount() == c &&
                t->selectors_amount() == s && t->shareds_amount() == 1,
            "wrong amounts of columns");
    const std::size_t steps = g.range(1, 24);
    std::vector<std::pair<var, V>> placeholders;
    std::size_t stores = 0;
    for (std::size_t i = 0; i < steps; i++) {
        const std::size_t what = g.below(12);
        const std::size_t row = g.chance(1, 8) ? g.below(60) : g.below(8);
        if (what < 6) {
            const int k = int(what);
            if (m.columns[k].empty()) {
                continue;
            }
            const std::size_t col = g.below(m.columns[k].size());
            const V x = k == SELECTOR ? V(g.below(2)) : vp::some_element<F>(g);
            g.note() << "; " << names[k] << " " << col << "," << row << "=" << x;
            cell(*t, k, col, row) = x;
            m.store(k, col, row, x);
            stores++;
        } else if (what == 6) {
            const std::size_t col = g.below(s);
            g.note() << "; enable " << col << "," << row;
            t->enable_selector(col, row);
            m.store(SELECTOR, col, row, V::one());
            m.allocate(row + 1);
            stores++;
        } else if (what == 7) {
            const std::size_t col = g.below(s), end = row + g.below(9), step = g.range(1, 4);
            g.note() << "; enable " << col << "," << row << ".." << end << " step " << step;
            if (step == 1 && g.flag()) {
                t->enable_selector(col, row, end);
            } else {
                t->enable_selector(col, row, end, step);
            }
            for (std::size_t r = row; r <= end; r += step) {
                m.store(SELECTOR, col, r, V::one());
                m.allocate(r + 1);
            }
            m.allocated_at_most = std::max(m.allocated_at_most, end + 1);
            stores++;
        } else if (what == 8) {
            const bool constants = c != 0 && g.flag();
            const std::size_t col = g.below(constants ? c : s);
            column_t l;
            for (std::size_t n = g.below(8); n > 0; n--) {
                l.push_back(constants ? vp::some_element<F>(g) : V(g.below(2)));
            }
            g.note() << "; fill " << names[constants ? CONSTANT : SELECTOR] << " " << col << " with " << l.size();
            if (constants) {
                t->fill_constant(col, l);
                m.filled_constants.insert(col);
            } else {
                t->fill_selector(col, l);
                m.filled_selectors.insert(col);
            }
            m.columns[constants ? CONSTANT : SELECTOR][col].assign(l.begin(), l.end());
            // rows of filled columns may be counted or not
            m.allocated_at_most = std::max(m.allocated_at_most, l.size());
        } else if (what == 9) {
            if (g.chance(1, 3)) {
                g.note() << "; clear private";
                t->clear_private_storage();
                m.columns[PRIVATE][0].clear();
            } else {
                g.note() << "; private size " << row;
                t->resize_private_storage(row);
                m.columns[PRIVATE][0].resize(row, V::zero());
            }
        } else {
            const V x = vp::some_element<F>(g);
            const var v = t->add_batch_variable(x);
            for (const auto &o : placeholders) {
                REQUIRE(o.first != v, "two values were given the same placeholder " << v);
            }
            placeholders.push_back({v, x});
            stores++;
            if (what == 11 && !placeholders.empty()) {
                auto &o = placeholders[g.below(placeholders.size())];
                o.second = vp::some_element<F>(g);
                t->batch_private_storage(o.first.rotation) = o.second;
            }
        }
        if (g.chance(1, 4)) {
            compare(g, *t, m);
        }
    }
    compare(g, *t, m);
    REQUIRE(t->batch_private_storage_size() == placeholders.size(), t->batch_private_storage_size() << " placeholders");
    // variables
    for (const auto &o : placeholders) {
        REQUIRE(var_value(*t, o.first) == o.second, "placeholder is " << var_value(*t, o.first) << " instead of " << o.second);
        g.checked();
    }
    auto look = [&](const var &v, int k, std::size_t col, std::size_t row) {
        const V x = var_value(*t, v);
        REQUIRE(x == m.columns[k][col][row], "variable of " << names[k] << " " << col << "," << row << " has the value " << x);
        g.checked();
    };
    for (int k : {WITNESS, PUBLIC, CONSTANT, SHARED, PRIVATE}) {
        for (std::size_t col = 0; col < m.columns[k].size(); col++) {
            for (std::size_t r = 0; r < m.columns[k][col].size(); r++) {
                switch (k) {
                    case WITNESS:
                        look(var(col, r, false), k, col, r);
                        break;
                    case PUBLIC:
                        // the second column of public inputs means what was shared
                        if (col == 0) {
                            look(var(col, r, false, var::public_input), k, col, r);
                        }
                        break;
                    case CONSTANT:
                        look(var(col, r, false, var::constant), k, col, r);
                        break;
                    case SHARED:
                        look(var(col + 1, r, false, var::public_input), k, col, r);
                        break;
                    default:
                        look(var(table_t::private_storage_index, r, false, var::public_input), k, col, r);
                }
            }
        }
    }
    // exports
    ranges all[4], rows;
    for (int k = WITNESS; k <= SELECTOR; k++) {
        if (!m.columns[k].empty()) {
            all[k] = {{0, m.columns[k].size() - 1}};
        }
    }
    if (m.rows()) {
        rows = {{0, m.rows() - 1}};
    }
    const bool wide = g.flag();
    std::ostringstream os;
    if (g.flag()) {
        os << std::hex << std::uppercase;
    }
    t->export_table(os, wide);
    check_export(g, os.str(), m, all, rows, wide);
    ranges parts[4];
    for (int k = WITNESS; k <= SELECTOR; k++) {
        parts[k] = some_ranges(g, m.columns[k].size());
    }
    // rows past the end are empty
    const ranges some_rows = some_ranges(g, m.rows() + 2);
    std::ostringstream part;
    t->export_table(part, parts[0], parts[1], parts[2], parts[3], some_rows, wide);
    check_export(g, part.str(), m, parts, some_rows, wide);
    // nothing of this changed the table
    compare(g, *t, m);
    g.nontrivial(stores >= 3);
}

PBT_TEST(circuit, 4000, 40000) {
    vp::circuit_t<F> bp;
    std::vector<std::vector<constraint>> gates;
    std::vector<std::pair<var, var>> copies;
    std::size_t selector = 0;
    for (std::size_t i = g.below(6); i > 0; i--) {
        std::vector<constraint> l;
        for (std::size_t k = g.range(1, 3); k > 0; k--) {
            l.push_back(constraint(var(g.below(3), 0) * var(g.below(3), 1) - V(gates.size() * 10 + k)));
        }
        REQUIRE(bp.add_gate(l) == selector++, "selectors are not in order");
        gates.push_back(l);
    }
    for (std::size_t i = g.below(6); i > 0; i--) {
        const var a(g.below(3), g.below(4), false), b(g.below(3), g.below(4), false, g.flag() ? var::constant : var::witness);
        bp.add_copy_constraint({a, b});
        if (a != b) {
            copies.push_back({a, b});
        }
    }
    std::ostringstream os;
    bp.export_circuit(os);
    g.note() << os.str();
    std::istringstream is(os.str());
    std::string word, line;
    std::size_t n;
    REQUIRE(bool(is >> word >> n) && n == gates.size(), "number of gates in the export");
    REQUIRE(bool(is >> word >> n) && n == copies.size(), "number of copy constraints in the export");
    REQUIRE(bool(is >> word >> n) && n == 0, "number of lookup gates in the export");
    std::getline(is, line);
    for (std::size_t i = 0; i < gates.size(); i++) {
        REQUIRE(bool(is >> word >> n) && n == i, "selector of gate " << i << " in the export");
        REQUIRE(bool(is >> word >> n) && n == gates[i].size(), "size of gate " << i << " in the export");
        std::getline(is, line);
        for (const auto &c : gates[i]) {
            std::ostringstream want;
            want << c;
            REQUIRE(std::getline(is, line) && line == want.str(), "exported constraint " << line << " instead of " << want.str());
            g.checked();
        }
    }
    for (const auto &c : copies) {
        std::ostringstream want;
        want << c.first << " " << c.second;
        REQUIRE(std::getline(is, line) && line == want.str(), "exported copy " << line << " instead of " << want.str());
        g.checked();
    }
    REQUIRE(!std::getline(is, line), "additional line in the export: " << line);
    g.nontrivial(gates.size() + copies.size() >= 2);
}

PBT_MAIN
