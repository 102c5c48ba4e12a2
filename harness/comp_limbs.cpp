// Field elements and their 64-bit limbs, as needed by the transcript of the Kimchi verifier.
#include "comp_common.hpp"

#include <nil/blueprint/components/systems/snark/plonk/kimchi/detail/limbs.hpp>

template<typename G>
auto made_from_limbs(pbt::Gen &g, vp::Columns &cols) {
    using C = comp::from_limbs<vp::arithmetization<G>>;
    using W = typename G::value_type;
    Inputs<G> in(cols);
    const W x = some_bits<G>(g, 64), y = some_bits<G>(g, 64);
    g.note() << x << " and " << y;
    g.nontrivial(!x.is_zero() && !y.is_zero());
    C c(cols.w(3), none(), none());
    typename C::input_type input(in(x), in(y));
    return Case<G, C> {c, input, in.values, {x + y * W(typename G::integral_type(1) << 64)}, {}};
}

// Which cells of the first row have their range checked in the rows below.
enum class Ranges { BOTH, LIMBS_TWICE, LIMBS };

// The rows of the component, filled as for another number of 256 bits which is the same in the field. The sum with the
// complement of the modulus overflows then; it is cut, or its last limb is kept as a longer number.
template<typename G>
void fill_limbs(vp::table_t<G> &table, std::size_t start, const boost::multiprecision::cpp_int &x, bool cut, Ranges ranges) {
    using N = boost::multiprecision::cpp_int;
    using W = typename G::value_type;
    const N mask = (N(1) << 64) - 1, c = (N(1) << 256) - N(G::modulus), b = x + c;
    auto element = [](const N &n) { return W(typename G::integral_type(n)); };
    using R = comp::range_check<vp::arithmetization<G>>;
    std::vector<std::uint32_t> w;
    for (std::uint32_t i = 0; i < 15; i++) {
        w.push_back(i);
    }
    R range(w, std::array<std::uint32_t, 1> {0}, none(), 64);
    N carry = 0;
    for (unsigned i = 0; i < 4; i++) {
        table.witness(1 + i, start) = element((x >> (64 * i)) & mask);
        table.witness(5 + i, start) = element(i == 3 && !cut ? N(b >> (64 * i)) : N((b >> (64 * i)) & mask));
        carry = (((x >> (64 * i)) & mask) + ((c >> (64 * i)) & mask) + carry) >> 64;
        if (i < 3) {
            table.witness(9 + i, start) = element(carry);
        }
    }
    std::size_t row = start + 1;
    for (unsigned i = 0; i < 4; i++) {
        for (bool sum : {false, true}) {
            if (sum && ranges == Ranges::LIMBS) {
                continue;
            }
            typename R::input_type input = {vp::var_t<G>((sum && ranges == Ranges::BOTH ? 5 : 1) + i, start, false)};
            generate_assignments(range, table, input, row);
            row += range.rows_amount;
        }
    }
}

template<typename G>
auto made_to_limbs(pbt::Gen &g, vp::Columns &cols) {
    using C = comp::to_limbs<vp::arithmetization<G>>;
    using N = boost::multiprecision::cpp_int;
    using W = typename G::value_type;
    Inputs<G> in(cols);
    W x = some_element<G>(g);
    if (g.chance(1, 3)) {
        // limbs of zeros and ones
        N n = 0;
        for (unsigned i = 0; i < 4; i++) {
            n |= (g.flag() ? N((N(1) << 64) - 1) : N(g.below(3))) << (64 * i);
        }
        x = W(typename G::integral_type(N(n % N(G::modulus))));
    }
    g.note() << x;
    g.nontrivial(!x.is_zero());
    C c(cols.w(15), cols.c(1), none());
    typename C::input_type input(in(x));
    Case<G, C> r {c, input, in.values, {}, {}};
    const N n(typename G::integral_type(x.data)), mask = (N(1) << 64) - 1;
    for (unsigned i = 0; i < 4; i++) {
        r.expected.push_back(W(typename G::integral_type(N((n >> (64 * i)) & mask))));
    }
    for (unsigned k = 1; (n + k * N(G::modulus)) >> 256 == 0; k++) {
        for (bool cut : {true, false}) {
            for (Ranges ranges : {Ranges::BOTH, Ranges::LIMBS_TWICE, Ranges::LIMBS}) {
                r.forgeries.push_back([=](vp::table_t<G> &table, std::size_t start) {
                    fill_limbs<G>(table, start, n + k * N(G::modulus), cut, ranges);
                });
            }
        }
    }
    return r;
}

using pallas_base = nil::crypto3::algebra::curves::pallas::base_field_type;
using vesta_base = nil::crypto3::algebra::curves::vesta::base_field_type;

VP_COMPONENT(from_limbs_pallas, 400, 8000) {
    return made_from_limbs<pallas_base>(g, cols);
}
VP_REGISTER(from_limbs_pallas)
VP_COMPONENT(from_limbs_vesta, 400, 8000) {
    return made_from_limbs<vesta_base>(g, cols);
}
VP_REGISTER(from_limbs_vesta)
VP_COMPONENT(to_limbs_pallas, 500, 10000) {
    return made_to_limbs<pallas_base>(g, cols);
}
VP_REGISTER(to_limbs_pallas)
VP_STRETCHED(to_limbs_pallas, 60, 1000)
VP_COMPONENT(to_limbs_vesta, 500, 10000) {
    return made_to_limbs<vesta_base>(g, cols);
}
VP_REGISTER(to_limbs_vesta)
VP_STRETCHED(to_limbs_vesta, 60, 1000)

PBT_MAIN
