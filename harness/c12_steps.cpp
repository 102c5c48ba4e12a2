// How the rows of a zkEVM trace follow one another: countdown, instruction and state within an instruction.
#include "circuit.hpp"

#include <nil/crypto3/algebra/curves/alt_bn128.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/alt_bn128.hpp>

#include <nil/blueprint/zkevm/zkevm_circuit.hpp>

#include <array>

using namespace nil::blueprint;
using F = nil::crypto3::algebra::curves::alt_bn128<254>::base_field_type;
using V = F::value_type;
using var = vp::var_t<F>;
using A = nil::crypto3::zk::snark::plonk_constraint_system<F>;
using Selector = components::state_selector<A, F>;

namespace {
    const std::array<zkevm_opcode, 5> codes = {zkevm_opcode::ISZERO, zkevm_opcode::ADD, zkevm_opcode::SUB, zkevm_opcode::MUL,
                                               zkevm_opcode::DIV};

    zkevm_word_type some_word(pbt::Gen &g) {
        zkevm_word_type w = 0u;
        const unsigned kind = g.below(4);
        for (int i = 0; i < 16; i++) {
            w = w * zkevm_word_type(65536u) + zkevm_word_type(kind == 0 ? 0u : kind == 1 ? unsigned(i == 15) : unsigned(g.below(65536)));
        }
        return w;
    }

    // columns of a selector and the values it has for an option
    struct Choice {
        std::vector<std::size_t> columns;
        std::size_t options;

        std::vector<V> values(std::size_t option) const {
            vp::table_t<F> t(columns.size(), 1, 0, 0);
            std::vector<std::uint32_t> w;
            for (std::size_t i = 0; i < columns.size(); i++) {
                w.push_back(i);
            }
            const std::array<std::uint32_t, 0> none {};
            Selector c(w, none, none, options);
            t.public_input(0, 0) = V(unsigned(option));
            components::generate_assignments(c, t, {var(0, 0, false, var::column_type::public_input)}, 0);
            std::vector<V> r;
            for (std::size_t i = 0; i < columns.size(); i++) {
                r.push_back(t.witness(i, 0));
            }
            return r;
        }
        template<typename System>
        bool holds(const System &sys, std::size_t row, std::size_t option) const {
            const auto v = values(option);
            for (std::size_t i = 0; i < columns.size(); i++) {
                if (sys.value[columns[i]][row] != v[i]) {
                    return false;
                }
            }
            return true;
        }
        template<typename System>
        void put(System &sys, std::size_t row, std::size_t option) const {
            const auto v = values(option);
            for (std::size_t i = 0; i < columns.size(); i++) {
                sys.value[columns[i]][row] = v[i];
            }
        }
    };
    std::size_t width(std::size_t options) {
        return Selector::get_manifest(options).witness_amount->max_value_if_sat();
    }
}    // namespace

PBT_TEST(steps, 3000, 40000) {
    struct Instruction {
        zkevm_opcode code;
        std::size_t row, rows;
    };
    vp::table_t<F> table(0, 0, 0, 0);
    vp::circuit_t<F> bp;
    zkevm_circuit<F> circuit(table, bp, g.range(1, 4));
    zkevm_machine_interface machine;
    std::vector<Instruction> program;
    const std::size_t amount = g.range(1, 5);
    g.note() << "program";
    for (std::size_t i = 0; i < amount; i++) {
        const zkevm_opcode code = i && g.chance(1, 3) ? program.back().code : codes[g.below(codes.size())];
        machine.stack.push(some_word(g));
        machine.stack.push(some_word(g));
        const std::size_t row = circuit.get_current_row();
        circuit.assign_opcode(code, machine);
        program.push_back({code, row, circuit.get_current_row() - row});
        g.note() << " " << opcode_to_string(code);
    }
    circuit.finalize_test();
    vp::System<F> sys(bp, table, circuit.get_current_row() + 1);
    const std::string problem = sys.problem();
    REQUIRE(problem.empty(), "the generated trace is not accepted: " << problem);

    const auto &state = circuit.get_state();
    const auto &info = opcodes_info::instance();
    const std::size_t countdown = state.rows_until_next_op.selector, inverse = state.rows_until_next_op_inv.selector,
                      starts = state.step_selection.selector;
    const std::array<std::size_t, 4> kept = {state.pc.selector, state.stack_size.selector, state.memory_size.selector,
                                             state.curr_gas.selector};
    const Instruction &s = program[g.below(program.size())];
    const std::size_t i = g.below(s.rows), row = s.row + i, last = s.row + s.rows - 1;
    g.note() << ", row " << i << " of the one at " << s.row << ": ";
    REQUIRE(sys.value[countdown][row] == V(unsigned(s.rows - 1 - i)), "the countdown is " << sys.value[countdown][row]);
    REQUIRE(sys.value[starts][row] == V(unsigned(i == 0)), "the mark of the first row is " << sys.value[starts][row]);

    const std::size_t kind = g.below(5);
    if (kind == 0) {
        const V old = sys.value[inverse][row];
        const V now = g.chance(1, 3) ? V(unsigned(g.below(3))) : g.chance(1, 2) ? -old : V(unsigned(g.below(65536)));
        if (now == old) {
            return;
        }
        g.note() << "inverse of the countdown " << now << " instead of " << old;
        sys.value[inverse][row] = now;
    } else if (kind == 1) {
        // what is left over are the columns which choose the row of an instruction
        const std::size_t options = 20;
        std::set<std::size_t> taken = {countdown, inverse, starts};
        taken.insert(kept.begin(), kept.end());
        taken.insert(circuit.get_state_selector_cols().begin(), circuit.get_state_selector_cols().end());
        taken.insert(circuit.get_opcode_cols().begin(), circuit.get_opcode_cols().end());
        Choice rows {{}, options};
        for (std::size_t c = 0; c < table.witnesses_amount() && rows.columns.size() < width(options); c++) {
            if (!taken.count(c)) {
                rows.columns.push_back(c);
            }
        }
        const std::size_t old = s.rows - 1 - i;
        std::size_t now = g.below(options);
        if (g.chance(1, 2)) {
            const std::size_t next = s.row + s.rows - 1 == row && &s != &program.back() ? (&s + 1)->rows : 1;
            now = next;
        }
        if (now == old || rows.columns.size() != width(options) || !rows.holds(sys, row, old)) {
            return;
        }
        g.note() << "countdown " << now << " instead of " << old;
        sys.value[countdown][row] = V(unsigned(now));
        sys.value[inverse][row] = now ? V(unsigned(now)).inversed() : V::zero();
        rows.put(sys, row, now);
    } else if (kind == 2) {
        const auto &columns = circuit.get_state_selector_cols();
        const std::size_t options = info.get_opcodes_amount();
        const Choice instruction {{columns.begin(), columns.end()}, options};
        const std::size_t old = info.get_opcode_value(s.code);
        const std::size_t now = g.chance(1, 2) ? info.get_opcode_value(codes[g.below(codes.size())]) : g.below(options);
        if (i == 0 || now == old || columns.size() != width(options) || !instruction.holds(sys, row, old)) {
            return;
        }
        const std::size_t end = g.chance(1, 2) ? last : row;
        g.note() << "instruction " << now << " instead of " << old << " to row " << end;
        for (std::size_t r = row; r <= end; r++) {
            instruction.put(sys, r, now);
        }
    } else if (kind == 3) {
        g.note() << "mark of the first row inverted";
        sys.value[starts][row] = V(unsigned(i != 0));
    } else {
        if (i == 0) {
            return;
        }
        const std::size_t c = g.below(kept.size()), end = g.chance(1, 2) ? circuit.get_current_row() - 1 : row;
        const V by = g.chance(1, 2) ? V(1u) : V(unsigned(1 + g.below(65536)));
        g.note() << "state variable " << c << " changed by " << by << " to row " << end;
        for (std::size_t r = row; r <= end; r++) {
            sys.value[kept[c]][r] = sys.value[kept[c]][r] + by;
        }
    }
    g.nontrivial();
    g.checked();
    REQUIRE(!sys.problem().empty(), "the changed trace is accepted");
}

PBT_MAIN
