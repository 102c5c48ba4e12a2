// The columns a component asks for follow from its parameters alone, whatever was asked before in the process.
#include "comp_common.hpp"

#include <nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_unchecked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/range_check.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/f1_loop.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/gate_component.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/permutation_argument_verifier.hpp>

#include <sys/wait.h>
#include <unistd.h>

using Ask = std::function<std::string()>;

// Asks in a process of its own, in the given order; gives the last answer.
std::string last_answer(const std::vector<Ask> &asks) {
    int fd[2];
    if (pipe(fd) != 0) {
        throw std::runtime_error("no pipe");
    }
    const pid_t child = fork();
    if (child < 0) {
        throw std::runtime_error("no process");
    }
    if (child == 0) {
        close(fd[0]);
        std::string s;
        try {
            for (const Ask &a : asks) {
                s = a();
            }
        } catch (const std::exception &e) {
            s = std::string("exception ") + e.what();
        }
        std::size_t done = 0;
        while (done < s.size()) {
            const ssize_t n = write(fd[1], s.data() + done, s.size() - done);
            if (n <= 0) {
                break;
            }
            done += n;
        }
        _exit(0);
    }
    close(fd[1]);
    std::string r;
    char buffer[4096];
    ssize_t n;
    while ((n = read(fd[0], buffer, sizeof buffer)) > 0) {
        r.append(buffer, n);
    }
    close(fd[0]);
    int status = 0;
    waitpid(child, &status, 0);
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
        throw std::runtime_error("asking for the declared columns ended the process");
    }
    return r;
}

constexpr std::uint32_t columns_limit = 120;

// What is declared: admitted column counts below the limit, and rows and gates for each of them.
template<typename C, typename... Args>
std::string declared(Args... args) {
    auto manifest = C::get_manifest(args...);
    std::ostringstream os;
    os << (manifest.is_satisfiable() ? "columns" : "unsatisfiable") << " constant " << manifest.constant_required << ":";
    std::vector<std::uint32_t> admitted;
    for (std::uint32_t w = 1; w < columns_limit; w++) {
        if (manifest.witness_amount->check_manifest_param(w)) {
            admitted.push_back(w);
            os << " " << w;
        }
    }
    for (std::uint32_t w : admitted) {
        os << "; " << w << " columns: " << C::get_rows_amount(w, args...) << " rows, "
           << C::get_gate_manifest(w, args...).get_gates_amount() << " gates";
    }
    return os.str();
}

struct Question {
    std::string name;
    Ask ask;
};

template<typename C, typename... Args>
Question question(const std::string &name, Args... args) {
    std::ostringstream os;
    os << name << "(";
    ((os << args << " "), ...);
    os << ")";
    return {os.str(), [args...]() { return declared<C, Args...>(args...); }};
}
std::size_t some_bits_amount(pbt::Gen &g) {
    return some_amount_of_bits(g, 253);
}

Question some_question(pbt::Gen &g, std::size_t kind) {
    using nil::blueprint::components::bit_composition_mode;
    const auto comparison = static_cast<comp::comparison_mode>(g.below(4));
    const auto order = g.flag() ? bit_composition_mode::MSB : bit_composition_mode::LSB;
    switch (kind) {
        case 0:
            return question<comp::range_check<A>>("range check", some_bits_amount(g));
        case 1:
            return question<comp::comparison_flag<A>>("comparison flag", some_bits_amount(g), comparison);
        case 2:
            return question<comp::comparison_checked<A>>("checked comparison", some_bits_amount(g), comparison);
        case 3:
            return question<comp::comparison_unchecked<A>>("unchecked comparison", some_bits_amount(g), comparison);
        case 4:
            return question<comp::division_remainder<A>>("division", some_amount_of_bits(g, 125), g.flag());
        case 5:
            return question<comp::bit_decomposition<A>>("bit decomposition", some_bits_amount(g), order);
        case 6:
            return question<comp::bit_composition<A>>("bit composition", std::uint32_t(some_bits_amount(g)), g.flag(),
                                                      order);
        case 7: {
            const std::size_t bits = g.range(2, 253);
            return question<comp::bit_shift_constant<A>>("bit shift", bits, std::size_t(g.range(1, bits - 1)),
                                                         g.flag() ? comp::bit_shift_mode::LEFT :
                                                                    comp::bit_shift_mode::RIGHT);
        }
        case 8:
            return question<comp::pow_factor<A, F>>("power sum", std::size_t(g.range(1, 200)));
        case 9:
            return question<comp::fri_array_swap<A, F>>("array swap", std::size_t(g.range(1, 20)));
        case 10:
            return question<comp::fri_cosets<A, F>>("cosets", std::size_t(g.range(1, 12)), V(5 + g.below(9)));
        case 11:
            return question<comp::detail::f1_loop<A>>("product loop", std::size_t(g.range(1, 20)));
        case 12:
            return question<comp::detail::f3_loop<A>>("sum loop", std::size_t(g.range(1, 20)));
        case 13:
            return question<comp::detail::gate_component<A>>("combination", std::size_t(g.range(1, 20)));
        default:
            return question<comp::permutation_verifier<A>>("permutation argument", std::size_t(g.range(2, 20)));
    }
}
constexpr std::size_t kinds = 15;

PBT_TEST(manifest_history, 3000, 60000) {
    const std::size_t kind = g.below(kinds), before = g.range(1, 4);
    std::vector<Ask> history;
    for (std::size_t i = 0; i < before; i++) {
        // mostly of the same component
        Question q = some_question(g, g.chance(2, 3) ? kind : g.below(kinds));
        g.note() << q.name << ", ";
        history.push_back(q.ask);
    }
    Question q = some_question(g, kind);
    g.note() << "then " << q.name;
    history.push_back(q.ask);
    const std::string alone = last_answer({q.ask}), after = last_answer(history);
    g.checked();
    g.nontrivial(last_answer({history[0]}) != alone);
    REQUIRE(alone == after, "declared " << after << " after other questions, but " << alone << " when asked first");
}

PBT_MAIN
