// Points of the Pasta curves: addition, multiplication, and the scalar of the endomorphism.
#include "comp_common.hpp"

#include <nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp>
#include <nil/blueprint/components/algebra/curves/pasta/plonk/unified_addition.hpp>
#include <nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp>

using pallas = nil::crypto3::algebra::curves::pallas;
using vesta = nil::crypto3::algebra::curves::vesta;

// y^2 = x^3 + 5 in affine coordinates, (0, 0) is the point at infinity
template<typename F>
struct Point {
    using V = typename F::value_type;
    V x = V::zero(), y = V::zero();

    bool infinite() const {
        return x.is_zero() && y.is_zero();
    }
    bool operator==(const Point &o) const {
        return x == o.x && y == o.y;
    }
    Point operator-() const {
        return {x, -y};
    }
    Point operator+(const Point &o) const {
        if (infinite()) {
            return o;
        }
        if (o.infinite()) {
            return *this;
        }
        V s;
        if (x == o.x) {
            if (y != o.y) {
                return {};
            }
            s = V(3u) * x * x * (y + y).inversed();
        } else {
            s = (o.y - y) * (o.x - x).inversed();
        }
        const V z = s * s - x - o.x;
        return {z, s * (x - z) - y};
    }
    template<typename N>
    Point times(N n) const {
        Point r, p = *this;
        for (; n > 0; n >>= 1) {
            if (n % 2 == 1) {
                r = r + p;
            }
            p = p + p;
        }
        return r;
    }
};

template<typename F>
Point<F> some_point(pbt::Gen &g) {
    using V = typename F::value_type;
    Point<F> p {-V::one(), V(2u)};
    switch (g.below(3)) {
        case 0:
            p = p.times(g.range(1, 6));
            break;
        case 1:
            p = p.times(g.range(1, 1u << 20));
            break;
        default:
            p = p.times(I(some_bits<F>(g, 60)) + 1);
    }
    return g.chance(1, 2) ? -p : p;
}

template<typename Curve>
auto addition(pbt::Gen &g, vp::Columns &cols) {
    using F = typename Curve::base_field_type;
    using C = comp::unified_addition<vp::arithmetization<F>, Curve>;
    Inputs<F> in(cols);
    Point<F> p = some_point<F>(g), q = some_point<F>(g);
    if (g.chance(1, 8)) {
        p = {};
    }
    switch (g.below(8)) {
        case 0:
            q = p;
            break;
        case 1:
            q = -p;
            break;
        case 2:
            q = {};
            break;
        case 3:
            q = p + p;
            break;
    }
    g.note() << "(" << p.x << ", " << p.y << ") + (" << q.x << ", " << q.y << ")";
    g.label(p == q ? "doubling" : p == -q ? "opposite" : "other");
    g.nontrivial(true);
    const Point<F> r = p + q;
    C c(cols.w(11), none(), none());
    typename C::input_type input;
    input.P.x = in(p.x);
    input.P.y = in(p.y);
    input.Q.x = in(q.x);
    input.Q.y = in(q.y);
    return Case<F, C> {c, input, in.values, {r.x, r.y}, {}};
}

VP_COMPONENT(addition_pallas, 300, 5000) {
    return addition<pallas>(g, cols);
}
VP_REGISTER(addition_pallas)

VP_COMPONENT(addition_vesta, 300, 5000) {
    return addition<vesta>(g, cols);
}
VP_REGISTER(addition_vesta)

// The scalar a * endo + b belonging to 128 bits of a challenge
template<typename Curve>
typename Curve::scalar_field_type::value_type endo(const typename Curve::scalar_field_type::integral_type &x) {
    using V = typename Curve::scalar_field_type::value_type;
    V a(2u), b(2u);
    for (int i = 126; i >= 0; i -= 2) {
        const unsigned bits = unsigned((x >> i) % 4);
        a += a;
        b += b;
        const V s = bits & 1 ? V::one() : -V::one();
        (bits & 2 ? a : b) += s;
    }
    // a root of x^2 + x + 1 = 0
    const V root = std::is_same<Curve, vesta>::value ?
                       V(typename V::integral_type("0x12CCCA834ACDBA712CAAD5DC57AAB1B01D1F8BD237AD31491DAD5EBDFDFE4AB9")) :
                       V(typename V::integral_type("0x397E65A7D7C1AD71AEE24B27E308F0A61259527EC1D4752E619D1840AF55F1B1"));
    return a * root + b;
}

template<typename Curve>
auto endomorphism(pbt::Gen &g, vp::Columns &cols) {
    using F = typename Curve::scalar_field_type;
    using V = typename F::value_type;
    using C = comp::endo_scalar<vp::arithmetization<F>, Curve>;
    Inputs<F> in(cols);
    const typename F::integral_type x = some_bits<F>(g, 128);
    g.note() << "challenge " << x;
    g.nontrivial(x > 1);
    C c(cols.w(15), none(), none(), 128);
    typename C::input_type input;
    input.scalar = in(V(x));
    Case<F, C> r {c, input, in.values, {endo<Curve>(x)}, {}};
    // The start values are free (known finding endo_scalar_start); everything else is determined by them.
    r.fixed = [c](std::size_t column, std::size_t row) {
        return row == 0 && (column == c.W(0) || column == c.W(2) || column == c.W(3));
    };
    r.landmarks = {{c.W(0), 0, V::zero()}, {c.W(2), 0, V(2u)}, {c.W(3), 0, V(2u)}};
    return r;
}

VP_COMPONENT(endo_pallas, 120, 1800) {
    return endomorphism<pallas>(g, cols);
}
VP_REGISTER(endo_pallas)

VP_COMPONENT(endo_vesta, 120, 1800) {
    return endomorphism<vesta>(g, cols);
}
VP_REGISTER(endo_vesta)

static void endo_start(pbt::Gen &g) {
    vp::Columns cols;
    auto c = endomorphism<vesta>(g, cols);
    c.fixed = nullptr;
    c.landmarks.clear();
    c.known_other = "endo_scalar_start";
    vp::check_correct(g, c, cols);
}
static const pbt::registrar endo_start_registrar("endo_start.correct", 20, 400, 60, endo_start);

// Fills the rows of the multiplication for another base of the additions and other bits of the scalar.
template<typename Curve, typename C>
struct Forged {
    using F = typename Curve::base_field_type;
    using V = typename F::value_type;
    using N = typename F::extended_integral_type;
    C c;
    Point<F> first, base;    // base is added, the start is twice the first
    V b;
    N bits;
    std::array<N, 3> special;    // numbers of the opposite, infinity and the point itself

    void operator()(vp::table_t<F> &t, std::size_t start) const {
        auto at = [&](std::size_t column, std::size_t row) -> V & { return t.witness(c.W(column), start + row); };
        auto bit = [&](std::size_t i) { return unsigned((bits >> (254 - i)) % 2); };
        Point<F> p = first + first;
        V n = V::zero(), e2;
        for (std::size_t k = 0; k < 51; k++) {
            const std::size_t row = 1 + 2 * k;
            at(0, row) = base.x;
            at(1, row) = base.y;
            at(2, row) = p.x;
            at(3, row) = p.y;
            at(4, row) = n;
            for (std::size_t i = 0; i < 5; i++) {
                const unsigned v = bit(5 * k + i);
                const Point<F> q = v ? base : -base;
                const V d = p.x - q.x;
                at(7 + i, row + 1) = d.is_zero() ? V::zero() : (p.y - q.y) * d.inversed();
                at(2 + i, row + 1) = V(v);
                p = p + q + p;
                at(i < 4 ? 7 + 2 * i : 0, i < 4 ? row : row + 1) = p.x;
                at(i < 4 ? 8 + 2 * i : 1, i < 4 ? row : row + 1) = p.y;
                n = n + n + V(v);
            }
            at(5, row) = n;
            if (k == 24) {
                e2 = n;
            }
        }
        // without the upper bits
        const V z = V(N(bits % (N(1) << 254)));
        const V less(typename V::integral_type(std::is_same<Curve, pallas>::value ? "0x224698fc0994a8dd8c46eb2100000001" :
                                                                                    "0x224698fc094cf91b992d30ed00000001"));
        const V aux = (std::is_same<Curve, pallas>::value ? b : z) - less + V(2u).pow(130);
        V u = V::zero();
        const typename V::integral_type digits(aux.data);
        for (std::size_t k = 0; k < 21; k++) {
            const std::size_t low = 124 - 6 * k, row = 59 + 2 * k;
            at(6, row) = u;
            const V u0(unsigned((digits >> (low + 3)) % 8)), u1(unsigned((digits >> low) % 8));
            u = u * V(64u) + u0 * V(8u) + u1;
            at(12, row + 1) = u0;
            at(13, row + 1) = u1;
            at(14, row + 1) = u;
        }
        // the last step makes good what the accumulator lacks
        const V u0(unsigned((digits >> 1) % 8)), u1(unsigned(digits % 2));
        at(12, 102) = u0;
        at(13, 102) = u1;
        at(14, 102) = aux;
        at(6, 101) = (aux - u0 - u0 - u1) * V(16u).inversed();
        V m = V::one();
        for (const auto &s : special) {
            m *= n - V(s);
        }
        auto inverse = [](const V &x) { return x.is_zero() ? V::zero() : x.inversed(); };
        const Point<F> r = n == V(special[0]) ? -base : n == V(special[1]) ? Point<F>() : n == V(special[2]) ? base : p;
        at(0, 103) = r.x;
        at(1, 103) = r.y;
        at(2, 103) = inverse(m);
        at(3, 103) = inverse(n - V(special[0]));
        at(4, 103) = inverse(n - V(special[2]));
        at(5, 103) = n;
        at(6, 103) = base.x;
        at(7, 103) = base.y;
        at(8, 103) = m;
        at(9, 103) = V(bit(0));
        at(10, 103) = e2;
        at(11, 103) = b;
        at(12, 103) = aux;
    }
};

// The scalar is 2 n + 2^255 + 1, where n is given as a field element (Vesta) or in two parts (Pallas).
template<typename Curve>
auto multiplication(pbt::Gen &g, vp::Columns &cols) {
    using F = typename Curve::base_field_type;
    using V = typename F::value_type;
    using N = typename F::extended_integral_type;
    using C = comp::curve_element_variable_base_scalar_mul<vp::arithmetization<F>, Curve>;
    constexpr bool two_parts = std::is_same<Curve, pallas>::value;
    Inputs<F> in(cols);
    const N order = Curve::scalar_field_type::modulus, modulus = F::modulus, top = N(1) << 254;
    const N general[3] = {order - top - 1, (order + 2 * (order - top) - 1) / 2, order - top};
    N n;
    std::array<N, 3> specials;
    for (int i = 0; i < 3; i++) {
        specials[i] = two_parts ? general[i] : 2 * (order - top) + i - 1;
    }
    int special = -2;
    switch (g.below(8)) {
        case 0: {
            // the numbers whose multiples are opposite, infinity and the point itself
            special = int(g.below(3)) - 1;
            n = specials[special + 1];
            break;
        }
        case 1:
            n = specials[g.below(3)] + g.below(12) - 6;
            break;
        case 2:
            n = N(some_bits<F>(g, 130));
            break;
        case 3:
            n = order - 1 - g.below(8);
            break;
        case 4:
            n = top + N(some_bits<F>(g, 125));
            break;
        case 5:
            n = g.below(8);
            break;
        default:
            n = N(some_bits<F>(g, 254));
    }
    const bool too_large = g.chance(1, 6);
    if (too_large) {
        n = two_parts ? order + N(some_bits<F>(g, 128)) : order + N(some_bits<F>(g, 62));
    }
    if (!two_parts) {
        if (special == -2) {
            for (int k = -1; k < 2; k++) {
                if (n == specials[k + 1]) {
                    special = k;
                }
                if (n == general[k + 1]) {
                    n += 5;    // in its other form
                }
            }
        }
    }
    Point<F> p = some_point<F>(g);
    const bool infinite = g.chance(1, 10);
    if (infinite) {
        p = {};
    }
    g.note() << "2 * " << n << " + 2^255 + 1 times (" << p.x << ", " << p.y << ")";
    g.nontrivial(true);
    Point<F> r;
    if (!two_parts && special != -2) {
        r = special == 0 ? Point<F>() : special == 1 ? p : -p;
        g.label("special");
    } else {
        r = p.times((2 * n + 2 * top + 1) % order);
    }
    C c(cols.w(15), cols.c(1), none());
    V b(n);
    const auto x = in(p.x), y = in(p.y);
    auto make = [&] {
        if constexpr (two_parts) {
            b = n >= top ? V(N(n - top)) : V(n);
            const auto low = in(b);
            return typename C::input_type({x, y}, low, in(n >= top ? V::one() : V::zero()));
        } else {
            return typename C::input_type({x, y}, in(b));
        }
    };
    auto input = make();
    Case<F, C> k {c, input, in.values, {r.x, r.y}, {}};
    k.attempts = 12;
    if (infinite) {
        k.known_other = "multiple_of_infinity";
    }
    if (too_large) {
        k.accepted = false;
        g.label("too large");
        return k;
    }
    if (!infinite) {
        // the unchanged table, another point, and another number with the same remainder
        const Point<F> other = g.chance(1, 2) ? -p : some_point<F>(g);
        k.forgeries.push_back(Forged<Curve, C> {c, p, p, b, n, specials});
        k.forgeries.push_back(Forged<Curve, C> {c, p, other, b, n, specials});
        if (n + modulus < 2 * top) {
            k.forgeries.push_back(Forged<Curve, C> {c, p, p, b, n + modulus, specials});
        }
    }
    return k;
}

VP_COMPONENT(multiplication_pallas, 20, 300) {
    return multiplication<pallas>(g, cols);
}
VP_REGISTER(multiplication_pallas)
VP_STRETCHED(multiplication_pallas, 30, 500)

VP_COMPONENT(multiplication_vesta, 20, 300) {
    return multiplication<vesta>(g, cols);
}
VP_REGISTER(multiplication_vesta)
VP_STRETCHED(multiplication_vesta, 30, 500)

PBT_MAIN
