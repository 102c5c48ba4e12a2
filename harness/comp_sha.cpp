// SHA-256 and SHA-512.
#include "comp_common.hpp"

#include <nil/blueprint/components/hashes/sha2/plonk/sha256.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/sha512.hpp>

// The definition, for words of 32 and of 64 bits.
template<typename W>
struct Sha2 {
    static constexpr unsigned bits = sizeof(W) * 8, rounds = bits == 32 ? 64 : 80;
    using state_t = std::array<W, 8>;
    using block_t = std::array<W, 16>;
    using number_t = boost::multiprecision::cpp_int;

    static W rotate(W x, unsigned n) {
        return x >> n | x << (bits - n);
    }
    static bool prime(unsigned n) {
        for (unsigned d = 2; d * d <= n; d++) {
            if (n % d == 0) {
                return false;
            }
        }
        return true;
    }
    // first bits of the fraction of the root of a prime
    static W fraction(unsigned p, unsigned degree) {
        const number_t x = number_t(p) << bits * degree;
        number_t low = 0, high = number_t(p) << bits;
        while (low < high) {
            const number_t mid = (low + high + 1) / 2;
            if ((degree == 2 ? number_t(mid * mid) : number_t(mid * mid * mid)) <= x) {
                low = mid;
            } else {
                high = mid - 1;
            }
        }
        return W(low & ((number_t(1) << bits) - 1));
    }
    static const std::vector<W> &constants(unsigned degree) {
        static std::map<unsigned, std::vector<W>> made;
        auto &r = made[degree];
        for (unsigned p = 2; r.size() < rounds; p++) {
            if (prime(p)) {
                r.push_back(fraction(p, degree));
            }
        }
        return r;
    }
    static state_t start() {
        state_t r;
        std::copy_n(constants(2).begin(), 8, r.begin());
        return r;
    }
    static state_t compress(const state_t &from, const block_t &block) {
        const bool small = bits == 32;
        std::vector<W> w(block.begin(), block.end());
        for (unsigned i = 16; i < rounds; i++) {
            const W x = w[i - 15], y = w[i - 2];
            const W s0 = small ? rotate(x, 7) ^ rotate(x, 18) ^ x >> 3 : rotate(x, 1) ^ rotate(x, 8) ^ x >> 7;
            const W s1 = small ? rotate(y, 17) ^ rotate(y, 19) ^ y >> 10 : rotate(y, 19) ^ rotate(y, 61) ^ y >> 6;
            w.push_back(w[i - 16] + s0 + w[i - 7] + s1);
        }
        auto [a, b, c, d, e, f, g, h] = from;
        for (unsigned i = 0; i < rounds; i++) {
            const W s1 = small ? rotate(e, 6) ^ rotate(e, 11) ^ rotate(e, 25) : rotate(e, 14) ^ rotate(e, 18) ^ rotate(e, 41);
            const W s0 = small ? rotate(a, 2) ^ rotate(a, 13) ^ rotate(a, 22) : rotate(a, 28) ^ rotate(a, 34) ^ rotate(a, 39);
            const W t = h + s1 + ((e & f) ^ (~e & g)) + constants(3)[i] + w[i];
            const W u = s0 + ((a & b) ^ (a & c) ^ (b & c));
            h = g, g = f, f = e, e = d + t, d = c, c = b, b = a, a = t + u;
        }
        state_t r = {a, b, c, d, e, f, g, h};
        for (unsigned i = 0; i < 8; i++) {
            r[i] += from[i];
        }
        return r;
    }
};
using Sha256 = Sha2<std::uint32_t>;
using Sha512 = Sha2<std::uint64_t>;

// the largest of the tables is given by its rule
static std::map<std::string, std::shared_ptr<vp::LookupTable<F>>> rules() {
    static auto ch = std::make_shared<vp::LookupTable<F>>();
    ch->rule = [](const std::vector<V> &v) {
        if (number(v[1]) >= 5764801 || number(v[0]) >= 256) {
            return false;
        }
        unsigned x = unsigned(number(v[1])), r = 0;
        for (unsigned i = 0; i < 8; i++, x /= 7) {
            r |= unsigned(x % 7 == 3 || x % 7 >= 5) << i;
        }
        return r == unsigned(number(v[0]));
    };
    return {{"sha256_ch/full", ch}};
}

template<typename W>
W some_word(pbt::Gen &g) {
    switch (g.below(8)) {
        case 0:
            return 0;
        case 1:
            return ~W(0);
        case 2:
            return W(1) << g.below(sizeof(W) * 8);
        case 3:
            return ~(W(1) << g.below(sizeof(W) * 8));
        case 4:
            return W(g.bits64()) & W(g.bits64()) & W(g.bits64());
        default:
            return W(g.bits64());
    }
}
// sometimes the same kind of words everywhere
template<typename W, std::size_t N>
std::array<W, N> some_words(pbt::Gen &g) {
    std::array<W, N> r;
    const unsigned kind = g.below(6);
    for (auto &x : r) {
        x = kind == 0 ? W(0) : kind == 1 ? ~W(0) : kind == 2 ? W(g.bits64()) : some_word<W>(g);
    }
    return r;
}
template<typename W>
V element(W x) {
    return V(I(x));
}

template<typename S, typename C, typename W>
auto process(pbt::Gen &g, vp::Columns &cols) {
    Inputs<F> in(cols);
    typename S::state_t state = g.chance(1, 4) ? S::start() : some_words<W, 8>(g);
    const typename S::block_t block = some_words<W, 16>(g);
    typename C::input_type input;
    g.note() << "state" << std::hex;
    for (std::size_t i = 0; i < 8; i++) {
        g.note() << " " << state[i];
        input.input_state[i] = in(element(state[i]));
    }
    g.note() << ", block";
    for (std::size_t i = 0; i < 16; i++) {
        g.note() << " " << block[i];
        input.input_words[i] = in(element(block[i]));
    }
    g.note() << std::dec;
    g.nontrivial(block != typename S::block_t {});
    std::vector<V> expected;
    for (W x : S::compress(state, block)) {
        expected.push_back(element(x));
    }
    C c(cols.w(9), cols.c(1), none());
    Case<F, C> r {c, input, in.values, expected, {}};
    r.attempts = 0;
    r.crossing = false;
    r.tables = rules();
    return r;
}

VP_COMPONENT(decomposition, 400, 10000) {
    using C = comp::decomposition<A, F>;
    Inputs<F> in(cols);
    const V x = some_bits<F>(g, 128), y = some_bits<F>(g, 128);
    g.note() << "words of " << x << " and " << y;
    g.nontrivial(x != y);
    typename C::input_type input;
    input.data[0] = in(x);
    input.data[1] = in(y);
    std::vector<V> expected;
    for (const V &v : {x, y}) {
        for (unsigned i = 0; i < 4; i++) {
            expected.push_back(V((number(v) >> (96 - 32 * i)) & ((I(1) << 32) - 1)));
        }
    }
    C c(cols.w(9), none(), none());
    Case<F, C> r {c, input, in.values, expected, {}};
    r.attempts = 0;
    return r;
}
VP_REGISTER(decomposition)

VP_COMPONENT(sha256_process, 100, 2000) {
    return process<Sha256, comp::sha256_process<A>, std::uint32_t>(g, cols);
}
VP_REGISTER(sha256_process)

VP_COMPONENT(sha512_process, 100, 2000) {
    return process<Sha512, comp::sha512_process<A>, std::uint64_t>(g, cols);
}
VP_REGISTER(sha512_process)

VP_COMPONENT(sha256, 60, 1000) {
    using C = comp::sha256<A>;
    Inputs<F> in(cols);
    typename C::input_type input;
    Sha256::block_t block;
    g.note() << "hash of";
    for (std::size_t i = 0; i < 4; i++) {
        const auto w = some_words<std::uint32_t, 4>(g);
        I x = 0;
        for (std::size_t j = 0; j < 4; j++) {
            block[4 * i + j] = w[j];
            x = (x << 32) + I(w[j]);
        }
        g.note() << " " << x;
        input.block_data[i] = in(V(x));
    }
    g.nontrivial(block != Sha256::block_t {});
    Sha256::block_t end {};
    end[0] = 0x80000000;
    end[15] = 512;
    const auto hash = Sha256::compress(Sha256::compress(Sha256::start(), block), end);
    std::vector<V> expected;
    for (std::size_t i = 0; i < 2; i++) {
        I x = 0;
        for (std::size_t j = 0; j < 4; j++) {
            x = (x << 32) + I(hash[4 * i + j]);
        }
        expected.push_back(V(x));
    }
    C c(cols.w(9), cols.c(1), none());
    Case<F, C> r {c, input, in.values, expected, {}};
    r.attempts = 0;
    r.crossing = false;
    r.tables = rules();
    return r;
}
VP_REGISTER(sha256)
VP_STRETCHED(sha256, 8, 200)

VP_COMPONENT(sha512, 50, 1000) {
    using C = comp::sha512<A>;
    using N = boost::multiprecision::cpp_int;
    Inputs<F> in(cols);
    typename C::input_type input;
    // two points and a message, one after another from the lowest bit on
    N all = 0;
    unsigned at = 0;
    g.note() << "hash of";
    auto part = [&](std::array<vp::var_t<F>, 4> &to, unsigned last) {
        g.note() << ";";
        for (std::size_t i = 0; i < 4; i++) {
            const unsigned n = i < 3 ? 66 : last;
            const V x = some_bits<F>(g, n);
            g.note() << " " << x;
            to[i] = in(x);
            all |= N(number(x)) << at;
            at += n;
        }
    };
    part(input.R.x, 57);
    part(input.R.y, 57);
    part(input.A.x, 57);
    part(input.A.y, 57);
    part(input.M, 58);
    g.nontrivial(all != 0);
    all |= N(1) << at;
    Sha512::block_t first, second {};
    for (std::size_t i = 0; i < 20; i++) {
        (i < 16 ? first[i] : second[i - 16]) = std::uint64_t((all >> 64 * i) & ~std::uint64_t(0));
    }
    second[15] = at;
    std::vector<V> expected;
    for (auto x : Sha512::compress(Sha512::compress(Sha512::start(), first), second)) {
        expected.push_back(element(x));
    }
    C c(cols.w(9), cols.c(1), none());
    Case<F, C> r {c, input, in.values, expected, {}};
    r.attempts = 0;
    r.crossing = false;
    return r;
}
VP_REGISTER(sha512)
VP_STRETCHED(sha512, 8, 200)

PBT_MAIN
