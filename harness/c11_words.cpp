// Words of the zkEVM, its stack and the table of contract bytes.
#include "component.hpp"

#include <nil/crypto3/algebra/curves/alt_bn128.hpp>
#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/fields/goldilocks64/base_field.hpp>

#include <nil/blueprint/zkevm/bytecode.hpp>
#include <nil/blueprint/zkevm/zkevm_machine_interface.hpp>
#include <nil/blueprint/zkevm/zkevm_word.hpp>

#include <boost/multiprecision/cpp_int.hpp>

using namespace nil::blueprint;
using big = boost::multiprecision::cpp_int;

namespace {
    using goldilocks = nil::crypto3::algebra::fields::goldilocks64;
    using pallas = nil::crypto3::algebra::curves::pallas::base_field_type;
    using bn = nil::crypto3::algebra::curves::alt_bn128<254>::base_field_type;

    std::array<unsigned, 16> some_pieces(pbt::Gen &g) {
        std::array<unsigned, 16> p;
        const unsigned mode = g.below(4);
        for (auto &x : p) {
            switch (mode == 3 ? g.below(4) : mode) {
                case 0:
                    x = 0;
                    break;
                case 1:
                    x = 0xffff;
                    break;
                case 2:
                    x = g.below(65536);
                    break;
                default:
                    x = 1u << g.below(16);
            }
        }
        return p;
    }
    zkevm_word_type word_of(const std::array<unsigned, 16> &p) {
        zkevm_word_type w = 0u;
        for (int i = 15; i >= 0; i--) {
            w = w * zkevm_word_type(65536u) + zkevm_word_type(p[i]);
        }
        return w;
    }
    template<typename F>
    void pieces_of(const std::array<unsigned, 16> &p, const zkevm_word_type &w) {
        using V = typename F::value_type;
        const std::vector<V> got = zkevm_word_to_field_element<F>(w);
        REQUIRE(got.size() == 16, got.size() << " pieces of a word");
        for (std::size_t i = 0; i < 16; i++) {
            REQUIRE(got[i] == V(p[i]), "piece " << i << " is " << got[i] << " instead of " << p[i]);
        }
    }
    template<typename F>
    void quarters_of(const std::array<unsigned, 16> &p) {
        using V = typename F::value_type;
        for (std::size_t q = 0; q < 4; q++) {
            V v(0u);
            for (int i = 3; i >= 0; i--) {
                v = v * V(65536u) + V(p[4 * q + i]);
            }
            const std::vector<V> got = chunk_64_to_16<F>(v);
            REQUIRE(got.size() == 4, got.size() << " pieces of 64 bits");
            for (std::size_t i = 0; i < 4; i++) {
                REQUIRE(got[i] == V(p[4 * q + i]), "piece " << i << " of 64 bits is " << got[i] << " instead of " << p[4 * q + i]);
            }
        }
    }
}    // namespace

PBT_TEST(words, 100000, 1000000) {
    const auto p = some_pieces(g);
    for (auto x : p) {
        g.note() << std::hex << x << " ";
    }
    const zkevm_word_type w = word_of(p);
    pieces_of<goldilocks>(p, w);
    pieces_of<pallas>(p, w);
    pieces_of<bn>(p, w);
    quarters_of<pallas>(p);
    quarters_of<bn>(p);
    g.nontrivial();
}

PBT_TEST(stack, 20000, 400000) {
    zkevm_machine_interface machine;
    std::vector<zkevm_word_type> model;
    const std::size_t steps = g.range(1, 30);
    for (std::size_t i = 0; i < steps; i++) {
        switch (g.below(6)) {
            case 0:
            case 1: {
                const zkevm_word_type w = g.flag() ? zkevm_word_type(unsigned(g.below(5))) : word_of(some_pieces(g));
                g.note() << "push ";
                machine.stack.push(w);
                model.push_back(w);
                break;
            }
            case 2:
                if (!model.empty()) {
                    g.note() << "pop ";
                    REQUIRE(machine.stack.pop() == model.back(), "another word is popped than was on top");
                    model.pop_back();
                    g.nontrivial();
                }
                break;
            case 3:
                if (!model.empty()) {
                    g.note() << "top ";
                    REQUIRE(machine.stack.top() == model.back(), "another word is on top");
                }
                break;
            case 4:
                if (model.size() > 1) {
                    g.note() << "swap ";
                    machine.stack.swap();
                    std::swap(model[model.size() - 1], model[model.size() - 2]);
                }
                break;
            default:
                if (!model.empty()) {
                    g.note() << "dup ";
                    machine.stack.dup();
                    model.push_back(model.back());
                }
        }
    }
    while (!model.empty()) {
        REQUIRE(machine.stack.pop() == model.back(), "another word than expected with " << model.size() << " words left");
        model.pop_back();
    }
}

namespace {
    bool is_opcode(unsigned b) {
        return b <= 0x0b || (b >= 0x10 && b <= 0x1d) || b == 0x20 || (b >= 0x30 && b <= 0x4a) || (b >= 0x50 && b <= 0xa4) ||
               (b >= 0xf0 && b <= 0xf5) || b == 0xfa || b >= 0xfd;
    }
    template<typename F>
    struct Contracts {
        using V = typename F::value_type;
        using var = vp::var_t<F>;
        struct Row {
            unsigned tag, index, value, opcode;
            V hi, lo;
        };
        std::vector<Row> rows;
        std::vector<std::vector<var>> bytes;
        std::vector<std::pair<var, var>> hashes;
        std::vector<V> publics;
        var challenge;

        explicit Contracts(pbt::Gen &g, std::size_t least = 0) {
            std::vector<std::vector<unsigned>> codes(g.range(1, 3));
            for (auto &c : codes) {
                std::vector<unsigned> marks;
                const std::size_t size = g.chance(1, 8) ? 0 : g.range(1, 24) + least;
                unsigned left = 0;
                for (std::size_t i = 0; i < size; i++) {
                    unsigned b;
                    if (left) {
                        b = g.flag() ? 0x60 + g.below(32) : g.below(256);
                        left--;
                        marks.push_back(0);
                    } else {
                        do {
                            b = g.chance(1, 3) ? 0x5f + g.below(g.flag() ? 4 : 34) : g.below(256);
                        } while (!is_opcode(b));
                        if (b >= 0x60 && b <= 0x7f) {
                            left = b - 0x5f;
                            g.label("push");
                        }
                        marks.push_back(1);
                    }
                    c.push_back(b);
                }
                if (left) {
                    g.label("cut push");
                }
                const V hi = vp::some_element<F>(g), lo = vp::some_element<F>(g);
                rows.push_back({0, 0, unsigned(size), 0, hi, lo});
                for (std::size_t i = 0; i < size; i++) {
                    rows.push_back({1, unsigned(i), c[i], marks[i], hi, lo});
                }
                g.note() << "contract";
                for (unsigned b : c) {
                    g.note() << " " << std::hex << b << std::dec;
                }
                g.note() << "; ";
            }
            auto add = [&](const V &v) {
                publics.push_back(v);
                return var(0, publics.size() - 1, false, var::public_input);
            };
            for (const Row &r : rows) {
                if (r.tag == 0) {
                    bytes.push_back({});
                }
                bytes.back().push_back(add(V(r.value)));
            }
            for (const Row &r : rows) {
                if (r.tag == 0) {
                    const var hi = add(r.hi), lo = add(r.lo);
                    hashes.emplace_back(hi, lo);
                }
            }
            challenge = add(vp::some_element<F>(g));
        }
        template<typename Table, typename Column>
        void compare(const Table &t, std::size_t start, const Column &column) const {
            for (std::size_t i = 0; i < rows.size(); i++) {
                const Row &r = rows[i];
                const V want[] = {V(r.tag), V(r.index), V(r.value), V(r.opcode), r.hi, r.lo};
                const char *const what[] = {"tag", "position", "byte", "opcode mark", "first part of the hash", "second part of the hash"};
                for (std::size_t j = 0; j < 6; j++) {
                    const V got = t.witness(column(j)).at(start + i);
                    REQUIRE(got == want[j], what[j] << " of row " << i << " is " << got << " instead of " << want[j]);
                }
            }
        }
    };

    std::vector<std::uint32_t> some_columns(pbt::Gen &g, std::size_t n) {
        std::vector<std::uint32_t> r;
        for (std::size_t i = 0; i < n; i++) {
            r.insert(r.begin() + (g.flag() ? r.size() : g.below(r.size() + 1)), i);
        }
        return r;
    }

    template<typename F>
    void bytecode(pbt::Gen &g) {
        using V = typename F::value_type;
        using var = vp::var_t<F>;
        using table_type = components::plonk_zkevm_bytecode_table<F>;
        using component = components::plonk_zkevm_bytecode<F>;
        Contracts<F> c(g);
        const std::size_t size = c.rows.size() + g.below(4), start = g.below(3);
        g.note() << size << " rows at " << start;
        const auto columns = some_columns(g, 11);
        component instance(columns, std::array<std::uint32_t, 0>(), std::array<std::uint32_t, 0>(), size);
        typename component::input_type input(c.bytes, c.hashes, c.challenge);
        vp::Built<F, component> b(11, 1, 1, 4);
        vp::reserve(b, instance);
        for (std::size_t i = 0; i < c.publics.size(); i++) {
            b.table.public_input(0, i) = c.publics[i];
        }
        if (g.flag()) {
            generate_assignments(instance, b.table, input, std::uint32_t(start));
            generate_circuit(instance, b.bp, b.table, input, start);
        } else {
            generate_circuit(instance, b.bp, b.table, input, start);
            generate_assignments(instance, b.table, input, std::uint32_t(start));
        }
        c.compare(b.table, start, [&](std::size_t j) { return columns[j]; });
        // the circuit looks at one row after the last one
        vp::System<F> s(b.bp, b.table, start + size + 1);
        REQUIRE(s.problem().empty(), "the table of the contracts is not accepted: " << s.problem());
        g.nontrivial();
        const auto &def = b.bp.get_dynamic_table_definition("zkevm_bytecode")->lookup_table;
        const auto &enabled = b.table.selector(def.tag_index);
        for (std::size_t i = 0; i < size; i++) {
            REQUIRE(start + i < enabled.size() && !enabled[start + i].is_zero(), "row " << i << " is not in the dynamic table");
        }
        // tags, bytes, hashes and the challenge are given; everything else follows
        const std::set<std::size_t> given = {columns[table_type::TAG], columns[table_type::VALUE], columns[table_type::HASH_HI],
                                             columns[table_type::HASH_LO], columns[component::RLC_CHALLENGE]};
        // single cells which cannot differ
        for (int i = 0; i < 6; i++) {
            const std::size_t r = g.below(c.rows.size()), what = g.below(5);
            const bool header = c.rows[r].tag == 0, long_header = header && !V(c.rows[r].value).is_zero();
            const std::size_t column = what == 0 ? columns[table_type::TAG] :
                                       what == 1 ? columns[table_type::VALUE] :
                                       what == 2 ? columns[table_type::HASH_HI] :
                                       what == 3 ? columns[table_type::HASH_LO] :
                                                   columns[component::RLC_CHALLENGE];
            V &cell = s.value[column][start + r];
            const V old = cell;
            cell += V(g.range(1, 300));
            if (what > 0 && header && !(what == 1 && long_header)) {
                cell = old;
                continue;
            }
            if (what == 0 && (cell.is_zero() || cell == V(1u))) {
                cell += V(2u);
            }
            g.checked();
            REQUIRE(!s.problem().empty(), "the table is also accepted with "
                                              << cell << " instead of " << old << " as "
                                              << (what == 0   ? "tag" :
                                                  what == 1   ? "value" :
                                                  what == 4   ? "challenge" :
                                                                "part of the hash")
                                              << " of row " << r);
            cell = old;
        }
        // a contract which is longer or shorter than it says; one with a challenge of its own
        std::vector<std::size_t> headers;
        for (std::size_t r = 0; r < c.rows.size(); r++) {
            if (c.rows[r].tag == 0) {
                headers.push_back(r);
            }
        }
        headers.push_back(c.rows.size());
        const std::size_t n = g.below(headers.size() - 1), from = headers[n], to = headers[n + 1];
        const auto kept = s.value;
        if (to - from > 1 && g.flag()) {
            const V by = g.flag() ? V(g.range(1, 3)) : -V(g.range(1, 3));
            s.value[columns[table_type::VALUE]][start + from] += by;
            for (std::size_t r = from; r < to; r++) {
                s.value[columns[component::LENGTH_LEFT]][start + r] += by;
            }
            g.checked();
            REQUIRE(!s.problem().empty(), "contract " << n << " may also claim a length differing by " << by);
        } else if (to - from > 1 && n > 0 && from - headers[n - 1] > 1) {
            const V other = s.value[columns[component::RLC_CHALLENGE]][start + from] + V(g.range(1, 3));
            V sum = V(0u);
            for (std::size_t r = from; r < to; r++) {
                s.value[columns[component::RLC_CHALLENGE]][start + r] = other;
                sum = r == from ? V(0u) : sum * other + V(c.rows[r].value);
                s.value[columns[component::VALUE_RLC]][start + r] = sum;
            }
            // up to the last contract, so that there is only one change
            for (std::size_t r = to; r < c.rows.size(); r++) {
                s.value[columns[component::RLC_CHALLENGE]][start + r] = other;
                sum = c.rows[r].tag == 0 ? V(0u) : sum * other + V(c.rows[r].value);
                s.value[columns[component::VALUE_RLC]][start + r] = sum;
            }
            g.checked();
            REQUIRE(!s.problem().empty(), "contract " << n << " may also use another challenge than the one before");
        }
        s.value = kept;
        s.prepare();
        s.lock_if([&](std::size_t col, std::size_t row) {
            return given.count(col) || row < start || row >= start + c.rows.size();
        });
        vp::Rng rng {g.bits64()};
        for (int i = 0; i < 30; i++) {
            const std::size_t row = rng.below(c.rows.size());
            const std::size_t col = columns[rng.below(2) ? std::size_t(table_type::IS_OPCODE) :
                                            rng.below(2) ? std::size_t(table_type::INDEX) :
                                                           6 + rng.below(3)];
            const var v(col, start + row, false);
            const std::size_t k = s.class_id(v);
            const V now = col == columns[table_type::IS_OPCODE] && rng.below(4) ? V(1u) - s.class_value(k) : s.perturbed(k, rng);
            auto a = s.attempt({{k, now}}, rng, 120);
            g.checked();
            if (!a.satisfied) {
                continue;
            }
            for (std::size_t r = 0; r < c.rows.size(); r++) {
                for (std::size_t j : {std::size_t(component::VALUE_RLC), std::size_t(component::LENGTH_LEFT)}) {
                    const std::size_t id = s.class_id(var(columns[j], start + r, false));
                    auto it = a.changed.find(id);
                    REQUIRE(it == a.changed.end() || it->second == s.class_value(id),
                            "the table is also accepted with the "
                                << (j == component::LENGTH_LEFT ? "remaining length " : "combination of bytes ") << it->second
                                << " instead of " << s.class_value(id) << " in row " << r);
                }
                for (std::size_t j : {std::size_t(table_type::INDEX), std::size_t(table_type::IS_OPCODE)}) {
                    auto it = a.changed.find(s.class_id(var(columns[j], start + r, false)));
                    if (it == a.changed.end()) {
                        continue;
                    }
                    const V want = V(j == table_type::INDEX ? c.rows[r].index : c.rows[r].opcode);
                    REQUIRE(it->second == want, "the table is also accepted with "
                                                    << (j == table_type::INDEX ? "position " : "opcode mark ") << it->second
                                                    << " instead of " << want << " in row " << r);
                }
            }
        }
    }

    // The component which looks up rows of the dynamic table from above, below and aside.
    template<typename F>
    void lookups(pbt::Gen &g) {
        using V = typename F::value_type;
        using component = components::plonk_bytecode_table_tester<F>;
        Contracts<F> c(g, 18);
        const std::size_t size = c.rows.size() + g.below(4), start = g.below(3);
        if (size < 16) {
            return;
        }
        const auto columns = some_columns(g, 12);
        component instance(columns, std::array<std::uint32_t, 0>(), std::array<std::uint32_t, 0>(), size);
        typename component::input_type input(c.bytes, c.hashes);
        vp::Built<F, component> b(12, 1, 1, 6);
        for (std::size_t i = 0; i < c.publics.size(); i++) {
            b.table.public_input(0, i) = c.publics[i];
        }
        vp::reserve(b, instance);
        generate_circuit(instance, b.bp, b.table, input, start);
        generate_assignments(instance, b.table, input, std::uint32_t(start));
        c.compare(b.table, start + 1, [&](std::size_t j) { return columns[6 + j]; });
        vp::System<F> s(b.bp, b.table, start + size + 2);
        REQUIRE(s.problem().empty(), "the rows looked up are not accepted: " << s.problem());
        g.nontrivial();
        // a row which is not in the table
        const std::size_t which = g.below(3), j = g.below(6);
        const std::size_t column = columns[which == 2 ? j : 6 + j], row = which == 0 ? start : which == 1 ? start + size + 1 : start + 1;
        const V old = s.value[column][row];
        s.value[column][row] = vp::uniform_element<F>([&] { return g.bits64(); }) + V(1u);
        if (s.value[column][row] == old) {
            return;
        }
        for (const auto &r : c.rows) {
            if (s.value[column][row] == (j == 4 ? r.hi : j == 5 ? r.lo : V(j == 0 ? r.tag : j == 1 ? r.index : j == 2 ? r.value : r.opcode))) {
                return;
            }
        }
        if (s.value[column][row].is_zero()) {
            return;
        }
        g.checked();
        REQUIRE(!s.problem().empty(), "a row " << (which == 0 ? "above" : which == 1 ? "below" : "beside")
                                               << " the table which is not in the table is accepted");
    }
}    // namespace

PBT_TEST(bytecode, 20000, 150000) {
    bytecode<pallas>(g);
}

PBT_TEST(lookups, 10000, 200000) {
    lookups<pallas>(g);
}

PBT_MAIN
