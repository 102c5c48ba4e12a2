// Numbers modulo 2^255-19 in limbs of 66, 66, 66 and 57 bits.
#pragma once

#include "comp_common.hpp"

#include <boost/multiprecision/cpp_int.hpp>

using pallas = nil::crypto3::algebra::curves::pallas;
using ed25519 = nil::crypto3::algebra::curves::ed25519;
using foreign = nil::crypto3::algebra::fields::curve25519_base_field;
using N = boost::multiprecision::cpp_int;

static const N p = (N(1) << 255) - 19;
static const N order = (N(1) << 252) + N("27742317777372353535851937790883648493");
static const N limb = N(1) << 66;

static V element(const N &x) {
    V r = V::zero();
    for (int i = 4; i >= 0; i--) {
        r = r * V(std::uint64_t(1) << 32) * V(std::uint64_t(1) << 32) + V(std::uint64_t((x >> 64 * i) & ~std::uint64_t(0)));
    }
    return r;
}
static std::vector<V> limbs(const N &x) {
    std::vector<V> r;
    for (int i = 0; i < 4; i++) {
        r.push_back(element(i < 3 ? N((x >> 66 * i) % limb) : N(x >> 198)));
    }
    return r;
}
template<typename T>
static std::vector<V> operator+(std::vector<V> a, const std::vector<T> &b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

// 0, all ones, close to them, anything
static N some_number(pbt::Gen &g, unsigned bits) {
    const N all = (N(1) << bits) - 1;
    N x = 0;
    switch (g.below(7)) {
        case 0:
            return g.below(3);
        case 1:
            return all - g.below(3);
        case 2:
            return N(g.below(40)) & all;
        case 3:
            return all - (N(g.below(40)) & all);
        case 4:
            x = N(1) << g.below(bits);
            return g.chance(1, 2) ? x : x - 1;
        default:
            for (unsigned i = 0; i < bits; i += 64) {
                x = (x << 64) + g.bits64();
            }
            return x & all;
    }
}
// below p
static N some_residue(pbt::Gen &g) {
    if (g.chance(1, 8)) {
        return p - 1 - g.below(40);
    }
    if (g.chance(1, 8)) {
        return g.below(40);
    }
    N x = 0;
    for (int i = 0; i < 4; i++) {
        x += some_number(g, i < 3 ? 66 : 57) << 66 * i;
    }
    return x < p ? x : x - 19 - g.below(40);
}
// differs in one limb
static N other_residue(pbt::Gen &g, const N &x) {
    const unsigned i = g.below(4), shift = 66 * i;
    const N was = i < 3 ? N((x >> shift) % limb) : N(x >> shift);
    const N now = g.chance(1, 3) ? N(was + 1) : some_number(g, i < 3 ? 66 : 57), y = x - (was << shift) + (now << shift);
    return y != x && y < p ? y : x > 0 ? N(x - 1) : N(1);
}

static std::array<vp::var_t<F>, 4> give(Inputs<F> &in, const N &x) {
    std::array<vp::var_t<F>, 4> r;
    const auto l = limbs(x);
    for (int i = 0; i < 4; i++) {
        r[i] = in(l[i]);
    }
    return r;
}
