// Points of the curve over the field of 2^255-19 elements.
#include "foreign.hpp"

#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/bool_scalar_multiplication.hpp>
#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/complete_addition.hpp>
#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/doubling.hpp>
#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication.hpp>
#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication_per_bit.hpp>

// -x^2 + y^2 = 1 + d x^2 y^2
struct Edwards {
    N x = 0, y = 1;

    static N inverse(const N &a) {
        return powm(a, N(p - 2), p);
    }
    static const N &d() {
        static const N r = (p - 121665) * inverse(121666) % p;
        return r;
    }
    Edwards operator+(const Edwards &o) const {
        const N k = d() * x % p * o.x % p * y % p * o.y % p;
        return {(x * o.y + y * o.x) % p * inverse((1 + k) % p) % p, (y * o.y + x * o.x) % p * inverse((1 + p - k) % p) % p};
    }
    Edwards operator-() const {
        return {(p - x) % p, y};
    }
    Edwards times(N n) const {
        Edwards r, q = *this;
        for (; n > 0; n >>= 1) {
            if (n % 2 == 1) {
                r = r + q;
            }
            q = q + q;
        }
        return r;
    }
    // sqrt of a quadratic residue
    static N root(const N &a) {
        N r = powm(a, N((p + 3) / 8), p);
        if (r * r % p != a % p) {
            r = r * powm(N(2), N((p - 1) / 4), p) % p;
        }
        return r;
    }
    static const Edwards &base() {
        static const Edwards b = [] {
            const N y = N(4) * inverse(5) % p, y2 = y * y % p;
            N x = root((y2 + p - 1) % p * inverse((d() * y2 + 1) % p) % p);
            return Edwards {x % 2 == 0 ? x : N(p - x), y};
        }();
        return b;
    }
    std::vector<V> parts() const {
        return limbs(x) + limbs(y);
    }
};
std::ostream &operator<<(std::ostream &os, const Edwards &e) {
    return os << "(" << e.x << ", " << e.y << ")";
}

static Edwards some_point(pbt::Gen &g) {
    switch (g.below(6)) {
        case 0:
            return {};
        case 1: {
            // of small order: (0, -1) and (sqrt(-1), 0)
            const N i = Edwards::root(p - 1);
            return g.chance(1, 2) ? Edwards {0, p - 1} : g.chance(1, 2) ? Edwards {i, 0} : Edwards {p - i, 0};
        }
        case 2: {
            const Edwards b = Edwards::base().times(g.range(1, 9));
            return g.chance(1, 2) ? b : -b;
        }
        default:
            return Edwards::base().times(some_number(g, 60)) + (g.chance(1, 4) ? Edwards {0, p - 1} : Edwards {});
    }
}
static Edwards partner(pbt::Gen &g, const Edwards &a) {
    switch (g.below(6)) {
        case 0:
            return a;
        case 1:
            return -a;
        default:
            return some_point(g);
    }
}

template<typename P>
static void give(Inputs<F> &in, P &to, const Edwards &e) {
    to.x = give(in, e.x);
    to.y = give(in, e.y);
}

// What an attacker would write: another coordinate, and everything computed from it.
struct Filler {
    using range = comp::range<A, foreign, policy>;
    using addition = comp::addition<A, foreign, policy>;
    using subtraction = comp::subtraction<A, foreign, policy>;
    using multiplication = comp::multiplication<A, foreign, policy>;
    using four = std::array<vp::var_t<F>, 4>;
    vp::table_t<F> &table;
    std::size_t start;
    std::vector<std::uint32_t> w {0, 1, 2, 3, 4, 5, 6, 7, 8};

    four coordinate(std::size_t row, const N &x) {
        typename range::input_type input;
        const auto l = limbs(x);
        for (std::uint32_t i = 0; i < 4; i++) {
            table.witness(i, start + row) = l[i];
            input.input[i] = vp::var_t<F>(i, start + row, false);
        }
        comp::generate_assignments(range(w, none(), none()), table, input, start + row);
        return input.input;
    }
    template<typename C>
    four fill(std::size_t row, const four &a, const four &b) {
        typename C::input_type input;
        input.A = a;
        input.B = b;
        return comp::generate_assignments(C(w, none(), none()), table, input, start + row).output;
    }
    template<typename C>
    four result(std::size_t row) {
        return typename C::result_type(C(w, none(), none()), start + row).output;
    }
};
// the same number with another value in one of the limbs
static N wrong_limb(const N &x, unsigned i, const N &now) {
    const N mask = (i < 3 ? N(limb - 1) : N((N(1) << 57) - 1)) << 66 * i;
    return ((x - (x & mask)) + ((now << 66 * i) & mask)) % p;
}

VP_COMPONENT(point_addition, 20, 500) {
    using C = comp::complete_addition<A, pallas, ed25519, policy>;
    Inputs<F> in(cols);
    const Edwards t = some_point(g), r = partner(g, t);
    g.note() << t << " + " << r;
    g.nontrivial(t.x != 0 && r.x != 0);
    typename C::input_type input;
    give(in, input.T, t);
    give(in, input.R, r);
    C c(cols.w(9), cols.c(1), none());
    Case<F, C> k {c, input, in.values, (t + r).parts(), {}};
    k.attempts = 0;
    // with the same product of all coordinates
    k.others = {(-t).parts() + (-r).parts(), (-t).parts() + Edwards {r.x, (p - r.y) % p}.parts(), some_point(g).parts() + r.parts(), t.parts() + some_point(g).parts()};
    const N k0 = Edwards::d() * t.x % p * r.x % p * t.y % p * r.y % p;
    for (int i = 0; i < 2; i++) {
        const N z = (i == 0 ? t.x * r.y + t.y * r.x : t.y * r.y + t.x * r.x) % p;
        const N other = wrong_limb(z, g.below(4), some_number(g, 57)) * Edwards::inverse((i == 0 ? N(1 + k0) : N(1 + p - k0)) % p) % p;
        k.forgeries.push_back([=](vp::table_t<F> &table, std::size_t start) {
            Filler f {table, start};
            const auto c = f.coordinate(2 * i, other);
            if (i == 0) {
                f.fill<Filler::addition>(68, c, f.fill<Filler::multiplication>(54, c, f.result<Filler::multiplication>(47)));
            } else {
                f.fill<Filler::subtraction>(72, c, f.fill<Filler::multiplication>(61, c, f.result<Filler::multiplication>(47)));
            }
        });
    }
    return k;
}
VP_REGISTER(point_addition)
VP_STRETCHED(point_addition, 20, 300)

VP_COMPONENT(point_doubling, 20, 500) {
    using C = comp::doubling<A, pallas, ed25519, policy>;
    Inputs<F> in(cols);
    const Edwards t = some_point(g);
    g.note() << "2 * " << t;
    g.nontrivial(t.x != 0);
    typename C::input_type input;
    give(in, input.T, t);
    C c(cols.w(9), cols.c(1), none());
    Case<F, C> k {c, input, in.values, (t + t).parts(), {}};
    k.attempts = 0;
    k.others = {some_point(g).parts(), (-t).parts(), (t + Edwards {Edwards::root(p - 1), 0}).parts()};
    const N x2 = t.x * t.x % p, y2 = t.y * t.y % p, z = wrong_limb(2 * t.x * t.y % p, g.below(4), some_number(g, 57)) *
                                                        Edwards::inverse((y2 + p - x2) % p) % p;
    k.forgeries.push_back([=](vp::table_t<F> &table, std::size_t start) {
        Filler f {table, start};
        f.fill<Filler::multiplication>(41, f.coordinate(0, z), f.result<Filler::subtraction>(25));
    });
    const N v = wrong_limb((x2 + y2) % p, g.below(4), some_number(g, 57)) * Edwards::inverse((2 + x2 + p - y2) % p) % p;
    k.forgeries.push_back([=](vp::table_t<F> &table, std::size_t start) {
        Filler f {table, start};
        const auto c = f.coordinate(2, v);
        f.fill<Filler::addition>(59, f.fill<Filler::addition>(48, c, c),
                                 f.fill<Filler::multiplication>(52, c, f.result<Filler::subtraction>(37)));
    });
    return k;
}
VP_REGISTER(point_doubling)
VP_STRETCHED(point_doubling, 20, 300)

VP_COMPONENT(choice, 50, 2000) {
    using C = comp::bool_scalar_multiplication<A, ed25519, policy>;
    Inputs<F> in(cols);
    const Edwards t = some_point(g);
    const bool other = g.chance(1, 8);
    const V b = other ? some_element<F>(g) : V(g.below(2));
    g.note() << b << " * " << t;
    g.nontrivial(t.x != 0);
    typename C::input_type input;
    give(in, input.T, t);
    input.k = in(b);
    C c(cols.w(9), none(), none());
    Case<F, C> k {c, input, in.values, {}, {}};
    if (b.is_zero()) {
        k.expected = Edwards().parts();
    } else if (b.is_one()) {
        k.expected = t.parts();
    } else {
        k.accepted = false;
    }
    return k;
}
VP_REGISTER(choice)

VP_COMPONENT(point_step, 10, 300) {
    using C = comp::variable_base_multiplication_per_bit<A, pallas, ed25519, policy>;
    Inputs<F> in(cols);
    const Edwards t = some_point(g), r = partner(g, t);
    const bool b = g.flag();
    g.note() << "2 * " << r << " + " << b << " * " << t;
    g.nontrivial(t.x != 0 && r.x != 0);
    typename C::input_type input;
    give(in, input.T, t);
    give(in, input.R, r);
    input.k = in(V(b));
    C c(cols.w(9), cols.c(1), none());
    Case<F, C> k {c, input, in.values, (r + r + (b ? t : Edwards())).parts(), {}};
    k.attempts = 0;
    k.others = {(-t).parts() + (-r).parts() + std::vector<V> {V(b)}, some_point(g).parts() + r.parts() + std::vector<V> {V(b)}, t.parts() + some_point(g).parts() + std::vector<V> {V(b)},
                t.parts() + r.parts() + std::vector<V> {V(!b)}};
    return k;
}
VP_REGISTER(point_step)
VP_STRETCHED(point_step, 10, 150)

VP_COMPONENT(point_multiple, 1, 20) {
    using C = comp::variable_base_multiplication<A, pallas, ed25519, policy>;
    using mode = nil::blueprint::components::bit_composition_mode;
    Inputs<F> in(cols);
    const Edwards t = some_point(g);
    const N n = g.chance(1, 4) ? N(order - 2 + g.below(5)) : some_number(g, g.chance(1, 2) ? 253 : g.range(1, 253));
    g.note() << n << " * " << t;
    g.nontrivial(t.x != 0 && n > 1);
    typename C::input_type input;
    give(in, input.T, t);
    input.k = in(element(n));
    C c(cols.w(9), cols.c(1), none(), 253, mode::MSB);
    Case<F, C, std::size_t, mode> k {c, input, in.values, t.times(n).parts(), {253, mode::MSB}};
    k.attempts = 0;
    const N bit = N(1) << g.below(253);
    k.others = {t.parts() + std::vector<V> {element(n ^ bit)}};
    return k;
}
VP_REGISTER(point_multiple)
VP_STRETCHED(point_multiple, 1, 8)

PBT_MAIN
