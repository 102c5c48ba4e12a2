#pragma once

#include <cstddef>

namespace nil {
    namespace crypto3 {
        namespace hashes {
            template<std::size_t DigestBits>
            struct keccak_1600 {
                static constexpr std::size_t digest_bits = DigestBits, word_bits = 64;
            };
            template<std::size_t DigestBits>
            struct sha2 {
                static constexpr std::size_t digest_bits = DigestBits, word_bits = DigestBits > 256 ? 64 : 32,
                                             block_bits = 16 * word_bits;
            };
        }    // namespace hashes
    }    // namespace crypto3
}    // namespace nil
