// C08: SHA-2 sparse splitting and its inverses.
#include "mock_fields.hpp"
#include <nil/blueprint/components/hashes/sha2/plonk/detail/split_functions.hpp>
#include "pbt.hpp"

using F = mock::field<255>;
using I = F::integral_type;
using namespace nil::blueprint::components::detail;

static std::vector<std::size_t> gen_sizes(pbt::Gen &g, std::size_t max_bits) {
    switch (g.below(6)) {
        case 0: return {3, 4, 11, 14};
        case 1: return {10, 7, 2, 13};
        case 2: return {8, 8, 8, 8};
        case 3: return {6, 5, 14, 7};
        default: break;
    }
    std::vector<std::size_t> r;
    std::size_t total = 0, n = 1 + g.below(7);
    for (std::size_t i = 0; i < n; i++) {
        std::size_t s = 1 + g.below(16);
        if (total + s > max_bits) {
            break;
        }
        r.push_back(s);
        total += s;
    }
    return r;
}
static std::size_t total(const std::vector<std::size_t> &v) {
    std::size_t r = 0;
    for (auto x : v) {
        r += x;
    }
    return r;
}
static std::string show(const std::vector<std::size_t> &v) {
    std::string r = "(";
    for (auto x : v) {
        r += std::to_string(x) + " ";
    }
    return r + ")";
}
// bits per digit so that base^digits stays within the field
static std::size_t capacity(std::size_t base) {
    std::size_t b = 0;
    while ((std::size_t(1) << b) < base) {
        b++;
    }
    return 250 / b;
}

static void split_case(pbt::Gen &g, const std::vector<std::size_t> &sizes, std::size_t base) {
    std::size_t n = total(sizes);
    std::vector<bool> bits(n);
    std::uint64_t mode = g.below(4);
    for (std::size_t i = 0; i < n; i++) {
        bits[i] = mode == 0 ? 1 : mode == 1 ? 0 : g.flag();
    }
    if (mode == 1) {
        bits[g.below(n)] = 1;
    }
    g.note() << "bits ";
    for (bool b : bits) {
        g.note() << b;
    }
    g.note() << " sizes " << show(sizes) << " base " << base;
    auto r = split_and_sparse<F>(bits, sizes, base);
    REQUIRE(r[0].size() == sizes.size() && r[1].size() == sizes.size(), "number of chunks");
    // the bit string is most significant first, the chunks are least significant first
    std::size_t pos = 0;
    for (std::size_t c = 0; c < sizes.size(); c++) {
        I v = 0, s = 0, p = 1;
        for (std::size_t j = 0; j < sizes[c]; j++) {
            bool b = bits[n - 1 - (pos + j)];
            if (b) {
                v += I(1) << j;
                s += p;
            }
            p *= base;
        }
        pos += sizes[c];
        REQUIRE(r[0][c] == v, "chunk " << c << " is " << r[0][c] << " instead of " << v);
        REQUIRE(r[1][c] == s, "sparse chunk " << c << " is " << r[1][c] << " instead of " << s);
        g.checked(2);
    }
}

PBT_TEST(split, 32000, 128000) {
    std::size_t base = g.pick({2u, 3u, 4u, 4u, 5u, 7u, 7u, 8u, 16u});
    std::vector<std::size_t> sizes = gen_sizes(g, capacity(base));
    g.nontrivial(sizes.size() >= 2);
    split_case(g, sizes, base);
}

template<typename Fn>
static void reverse_case(pbt::Gen &g, std::size_t base, const std::vector<unsigned> &out_bit, Fn fn) {
    std::vector<std::size_t> sizes = gen_sizes(g, capacity(base));
    std::size_t n = total(sizes);
    std::vector<unsigned> digits(n);
    std::uint64_t mode = g.below(4);
    for (std::size_t i = 0; i < n; i++) {
        digits[i] = mode == 0 ? unsigned(out_bit.size() - 1) : unsigned(g.below(out_bit.size()));
        if (mode == 1 && g.chance(2, 3)) {
            digits[i] = 0;
        }
    }
    I v = 0;
    for (std::size_t i = n; i-- > 0;) {
        v = v * base + digits[i];
    }
    g.note() << "base " << base << " digits (least significant first) ";
    for (auto d : digits) {
        g.note() << d;
    }
    g.note() << " sizes " << show(sizes);
    g.nontrivial(sizes.size() >= 2);
    auto r = fn(v, sizes, base);
    REQUIRE(r[0].size() == sizes.size() && r[1].size() == sizes.size(), "number of chunks");
    std::size_t pos = 0;
    for (std::size_t c = 0; c < sizes.size(); c++) {
        I b = 0, s = 0;
        for (std::size_t j = sizes[c]; j-- > 0;) {
            b = b * 2 + out_bit[digits[pos + j]];
            s = s * base + digits[pos + j];
        }
        pos += sizes[c];
        REQUIRE(r[0][c] == b, "chunk " << c << " is " << r[0][c] << " instead of " << b);
        REQUIRE(r[1][c] == s, "sparse chunk " << c << " is " << r[1][c] << " instead of " << s);
        g.checked(2);
    }
}

PBT_TEST(reverse_parity, 32000, 128000) {
    std::size_t base = g.pick({2u, 4u, 4u, 7u, 7u, 8u, 5u});
    std::vector<unsigned> parity;
    for (unsigned i = 0; i < base; i++) {
        parity.push_back(i & 1);
    }
    reverse_case(g, base, parity, [](const I &v, const std::vector<std::size_t> &s, std::size_t b) {
        return reversed_sparse_and_split<F>(v, s, b);
    });
}

// sum of three bits: majority
PBT_TEST(reverse_majority, 32000, 128000) {
    std::vector<unsigned> maj(4);
    for (unsigned a = 0; a < 2; a++) {
        for (unsigned b = 0; b < 2; b++) {
            for (unsigned c = 0; c < 2; c++) {
                maj[a + b + c] = (a & b) ^ (a & c) ^ (b & c);
            }
        }
    }
    std::size_t base = g.pick({4u, 4u, 4u, 7u, 8u});
    reverse_case(g, base, maj, [](const I &v, const std::vector<std::size_t> &s, std::size_t b) {
        return reversed_sparse_and_split_maj<F>(v, s, b);
    });
}

// digit e + 2f + 3g: choice (e ? f : g)
PBT_TEST(reverse_choice, 32000, 128000) {
    std::vector<unsigned> ch(7);
    for (unsigned e = 0; e < 2; e++) {
        for (unsigned f = 0; f < 2; f++) {
            for (unsigned h = 0; h < 2; h++) {
                ch[e + 2 * f + 3 * h] = e ? f : h;
            }
        }
    }
    // digit 3 is reached by (1,1,0) and (0,0,1): both choose 1
    std::size_t base = g.pick({7u, 7u, 7u, 8u});
    reverse_case(g, base, ch, [](const I &v, const std::vector<std::size_t> &s, std::size_t b) {
        return reversed_sparse_and_split_ch<F>(v, s, b);
    });
}

// splitting words and adding up their sparse forms, then recovering, is majority / choice / parity of the words
PBT_TEST(words, 16000, 64000) {
    std::size_t kind = g.below(3);
    std::size_t base = kind == 2 ? 7 : 4;
    std::vector<std::size_t> sizes = gen_sizes(g, std::min<std::size_t>(64, capacity(base)));
    std::size_t n = total(sizes);
    std::uint64_t w[3];
    for (auto &x : w) {
        x = g.bits64();
    }
    g.note() << "kind " << kind << " words " << std::hex << w[0] << " " << w[1] << " " << w[2] << std::dec << " sizes " << show(sizes);
    g.nontrivial();
    I sum = 0;
    std::vector<std::size_t> whole = {n};
    for (int i = 0; i < 3; i++) {
        std::vector<bool> bits(n);
        for (std::size_t j = 0; j < n; j++) {
            bits[n - 1 - j] = (w[i] >> j) & 1;
        }
        I s = split_and_sparse<F>(bits, whole, base)[1][0];
        sum += kind == 2 ? s * (i + 1) : s;
    }
    auto r = kind == 0 ? reversed_sparse_and_split<F>(sum, sizes, base) :
             kind == 1 ? reversed_sparse_and_split_maj<F>(sum, sizes, base) :
                         reversed_sparse_and_split_ch<F>(sum, sizes, base);
    std::uint64_t e = kind == 0 ? w[0] ^ w[1] ^ w[2] :
                      kind == 1 ? (w[0] & w[1]) ^ (w[0] & w[2]) ^ (w[1] & w[2]) :
                                  (w[0] & w[1]) ^ (~w[0] & w[2]);
    std::size_t pos = 0;
    for (std::size_t c = 0; c < sizes.size(); c++) {
        std::uint64_t part = (e >> pos) & ((std::uint64_t(1) << sizes[c]) - 1);
        REQUIRE(r[0][c] == part, "chunk " << c << " is " << r[0][c] << " instead of " << part);
        pos += sizes[c];
        g.checked();
    }
}

PBT_MAIN
