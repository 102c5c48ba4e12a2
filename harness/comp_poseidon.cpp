// Both components of the Poseidon permutation.
#include "comp_common.hpp"

#include <nil/blueprint/components/hashes/poseidon/plonk/poseidon.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp>

#include "poseidon_reference.hpp"

using vesta = nil::crypto3::algebra::curves::vesta::base_field_type;

template<typename Field>
const Poseidon<Field> &reference();
template<>
const Poseidon<F> &reference<F>() {
    static const Poseidon<F> r(pallas_matrix, pallas_constants);
    return r;
}
template<>
const Poseidon<vesta> &reference<vesta>() {
    static const Poseidon<vesta> r(vesta_matrix, vesta_constants);
    return r;
}

template<typename Field, typename C>
auto permutation(pbt::Gen &g, vp::Columns &cols, std::size_t w) {
    Inputs<Field> in(cols);
    std::array<typename Field::value_type, 3> state;
    typename C::input_type input;
    g.note() << "permutation of";
    for (std::size_t i = 0; i < 3; i++) {
        state[i] = some_element<Field>(g);
        input.input_state[i] = in(state[i]);
        g.note() << " " << state[i];
    }
    g.note() << " in " << w << " columns";
    g.nontrivial(!(state[0].is_zero() && state[1].is_zero() && state[2].is_zero()));
    C c(cols.w(w), none(), none());
    const auto r = reference<Field>()(state);
    Case<Field, C> result {c, input, in.values, {r[0], r[1], r[2]}, {}};
    result.attempts = 6;
    result.budget = 200;
    return result;
}
template<typename Field, typename C>
auto flexible(pbt::Gen &cfg, pbt::Gen &g, vp::Columns &cols) {
    static const std::size_t few[] = {3, 6, 9, 12, 15, 21, 24, 33, 42, 84, 165};
    return permutation<Field, C>(g, cols, cfg.chance(1, 2) ? few[cfg.below(std::size(few))] : 3 * cfg.range(1, 55));
}

VP_COMPONENT(poseidon_pallas, 300, 4000) {
    return permutation<F, comp::poseidon<A, F>>(g, cols, 15);
}
VP_REGISTER(poseidon_pallas)

VP_COMPONENT(poseidon_vesta, 300, 4000) {
    return permutation<vesta, comp::poseidon<vp::arithmetization<vesta>, vesta>>(g, cols, 15);
}
VP_REGISTER(poseidon_vesta)

VP_COMPONENT(flexible_poseidon_pallas, 300, 4000) {
    return flexible<F, comp::flexible_poseidon<A, F>>(cfg, g, cols);
}
VP_REGISTER(flexible_poseidon_pallas)

VP_COMPONENT(flexible_poseidon_vesta, 300, 4000) {
    return flexible<vesta, comp::flexible_poseidon<vp::arithmetization<vesta>, vesta>>(cfg, g, cols);
}
VP_REGISTER(flexible_poseidon_vesta)

PBT_MAIN
