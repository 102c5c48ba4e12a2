// Fixed width unsigned integers and residues with the interface of the multiprecision library the circuits use.
// Everything is written for obviousness: schoolbook multiplication, shift-and-subtract division.
#pragma once

#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <boost/multiprecision/cpp_int.hpp>

namespace boost {
    namespace multiprecision {
        namespace backends {
            // An unsigned integer of Bits bits, arithmetic wraps around.
            template<unsigned Bits>
            struct cpp_int_modular_backend {
                static constexpr unsigned limbs_amount = (Bits + 63) / 64;
                std::uint64_t l[limbs_amount] = {};

                constexpr cpp_int_modular_backend() = default;

                template<unsigned OtherBits>
                constexpr cpp_int_modular_backend(const cpp_int_modular_backend<OtherBits> &other) {
                    for (unsigned i = 0; i < limbs_amount && i < other.limbs_amount; i++) {
                        l[i] = other.l[i];
                    }
                    normalize();
                }

                template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>>
                constexpr cpp_int_modular_backend(T v) {
                    l[0] = static_cast<std::uint64_t>(v);
                    if (std::is_signed<T>::value && v < T(0)) {
                        for (unsigned i = 1; i < limbs_amount; i++) {
                            l[i] = ~std::uint64_t(0);
                        }
                    }
                    normalize();
                }

                constexpr cpp_int_modular_backend(unsigned __int128 v) {
                    l[0] = static_cast<std::uint64_t>(v);
                    if (limbs_amount > 1) {
                        l[limbs_amount > 1 ? 1 : 0] = static_cast<std::uint64_t>(v >> 64);
                    }
                    normalize();
                }

                template<std::size_t Min, std::size_t Max, cpp_integer_type S, cpp_int_check_type C, typename A>
                cpp_int_modular_backend(const cpp_int_backend<Min, Max, S, C, A> &other) {
                    number<cpp_int_backend<>> v = number<cpp_int_backend<Min, Max, S, C, A>>(other);
                    const bool negative = v < 0;
                    if (negative) {
                        v = -v;
                    }
                    for (unsigned i = 0; i < limbs_amount; i++) {
                        l[i] = static_cast<std::uint64_t>(v & std::numeric_limits<std::uint64_t>::max());
                        v >>= 64;
                    }
                    if (negative) {
                        std::uint64_t carry = 1;
                        for (unsigned i = 0; i < limbs_amount; i++) {
                            l[i] = ~l[i] + carry;
                            carry = carry && l[i] == 0;
                        }
                    }
                    normalize();
                }

                template<std::size_t Min, std::size_t Max, cpp_integer_type S, cpp_int_check_type C, typename A>
                explicit operator cpp_int_backend<Min, Max, S, C, A>() const {
                    number<cpp_int_backend<>> r = 0;
                    for (unsigned i = limbs_amount; i > 0; i--) {
                        r = (r << 64) | l[i - 1];
                    }
                    return number<cpp_int_backend<Min, Max, S, C, A>>(r).backend();
                }

                constexpr void normalize() {
                    if (Bits % 64 != 0) {
                        l[limbs_amount - 1] &= (~std::uint64_t(0)) >> ((64 - Bits % 64) % 64);
                    }
                }

                constexpr bool is_zero() const {
                    for (unsigned i = 0; i < limbs_amount; i++) {
                        if (l[i] != 0) {
                            return false;
                        }
                    }
                    return true;
                }

                constexpr bool bit(unsigned i) const {
                    return i < limbs_amount * 64 && ((l[i / 64] >> (i % 64)) & 1);
                }

                constexpr unsigned size_in_bits() const {
                    for (unsigned i = limbs_amount; i > 0; i--) {
                        if (l[i - 1] != 0) {
                            unsigned r = 64;
                            while (!((l[i - 1] >> (r - 1)) & 1)) {
                                r--;
                            }
                            return 64 * (i - 1) + r;
                        }
                    }
                    return 0;
                }

                constexpr int compare(const cpp_int_modular_backend &o) const {
                    for (unsigned i = limbs_amount; i > 0; i--) {
                        if (l[i - 1] != o.l[i - 1]) {
                            return l[i - 1] < o.l[i - 1] ? -1 : 1;
                        }
                    }
                    return 0;
                }

                constexpr std::uint64_t add(const cpp_int_modular_backend &o) {
                    unsigned __int128 carry = 0;
                    for (unsigned i = 0; i < limbs_amount; i++) {
                        carry += l[i];
                        carry += o.l[i];
                        l[i] = static_cast<std::uint64_t>(carry);
                        carry >>= 64;
                    }
                    const std::uint64_t out = static_cast<std::uint64_t>(carry);
                    normalize();
                    return out;
                }

                constexpr void subtract(const cpp_int_modular_backend &o) {
                    std::uint64_t borrow = 0;
                    for (unsigned i = 0; i < limbs_amount; i++) {
                        const unsigned __int128 take = static_cast<unsigned __int128>(o.l[i]) + borrow;
                        const unsigned __int128 have = l[i];
                        l[i] = static_cast<std::uint64_t>(have - take);
                        borrow = have < take;
                    }
                    normalize();
                }

                template<unsigned A, unsigned B>
                static constexpr cpp_int_modular_backend multiply(const cpp_int_modular_backend<A> &a,
                                                                  const cpp_int_modular_backend<B> &b) {
                    cpp_int_modular_backend r;
                    for (unsigned i = 0; i < a.limbs_amount && i < limbs_amount; i++) {
                        std::uint64_t carry = 0;
                        if (a.l[i] == 0) {
                            continue;
                        }
                        unsigned j = 0;
                        for (; j < b.limbs_amount && i + j < limbs_amount; j++) {
                            const unsigned __int128 t =
                                static_cast<unsigned __int128>(a.l[i]) * b.l[j] + r.l[i + j] + carry;
                            r.l[i + j] = static_cast<std::uint64_t>(t);
                            carry = static_cast<std::uint64_t>(t >> 64);
                        }
                        for (; i + j < limbs_amount; j++) {
                            const unsigned __int128 t = static_cast<unsigned __int128>(r.l[i + j]) + carry;
                            r.l[i + j] = static_cast<std::uint64_t>(t);
                            carry = static_cast<std::uint64_t>(t >> 64);
                        }
                    }
                    r.normalize();
                    return r;
                }

                constexpr cpp_int_modular_backend shifted_left(std::size_t n) const {
                    cpp_int_modular_backend r;
                    const std::size_t w = n / 64, b = n % 64;
                    for (std::size_t i = 0; i < limbs_amount; i++) {
                        if (i + w < limbs_amount) {
                            r.l[i + w] |= l[i] << b;
                        }
                        if (b != 0 && i + w + 1 < limbs_amount) {
                            r.l[i + w + 1] |= l[i] >> (64 - b);
                        }
                    }
                    r.normalize();
                    return r;
                }

                constexpr cpp_int_modular_backend shifted_right(std::size_t n) const {
                    cpp_int_modular_backend r;
                    const std::size_t w = n / 64, b = n % 64;
                    for (std::size_t i = w; i < limbs_amount; i++) {
                        r.l[i - w] |= l[i] >> b;
                        if (b != 0 && i - w >= 1) {
                            r.l[i - w - 1] |= l[i] << (64 - b);
                        }
                    }
                    return r;
                }

                static constexpr void divide(const cpp_int_modular_backend &a, const cpp_int_modular_backend &b,
                                             cpp_int_modular_backend &q, cpp_int_modular_backend &r) {
                    if (b.is_zero()) {
                        throw std::overflow_error("Division by zero.");
                    }
                    cpp_int_modular_backend quotient, remainder;
                    const unsigned n = a.size_in_bits();
                    bool small = true;
                    for (unsigned i = 1; i < limbs_amount; i++) {
                        small = small && b.l[i] == 0;
                    }
                    if (small) {
                        unsigned __int128 rem = 0;
                        for (unsigned i = limbs_amount; i > 0; i--) {
                            rem = (rem << 64) | a.l[i - 1];
                            quotient.l[i - 1] = static_cast<std::uint64_t>(rem / b.l[0]);
                            rem %= b.l[0];
                        }
                        remainder.l[0] = static_cast<std::uint64_t>(rem);
                    } else {
                        for (unsigned i = n; i > 0; i--) {
                            const bool top = remainder.bit(Bits - 1);
                            remainder = remainder.shifted_left(1);
                            if (a.bit(i - 1)) {
                                remainder.l[0] |= 1;
                            }
                            if (top || remainder.compare(b) >= 0) {
                                remainder.subtract(b);
                                quotient.l[(i - 1) / 64] |= std::uint64_t(1) << ((i - 1) % 64);
                            }
                        }
                    }
                    q = quotient;
                    r = remainder;
                }
            };

            // Moduli
            template<typename Backend>
            struct modular_params {
                Backend mod;
                constexpr modular_params(const Backend &m) : mod(m) {}
            };

            template<typename Backend, const modular_params<Backend> &Modulus>
            struct modular_params_ct {
                static constexpr Backend modulus() {
                    return Modulus.mod;
                }
            };

            template<typename Base, typename Params>
            struct modulus_constants {
                // -modulus^-1 mod 2^64
                static constexpr std::uint64_t inv64() {
                    const Base modulus = Params::modulus();
                    std::uint64_t x = 1;
                    for (unsigned i = 0; i < 6; i++) {
                        x *= 2 - modulus.l[0] * x;
                    }
                    return ~x + 1;
                }
                // 2^(128 limbs) mod modulus
                static constexpr Base r2() {
                    const Base modulus = Params::modulus();
                    Base x(1u);
                    for (unsigned i = 0; i < 128 * Base::limbs_amount; i++) {
                        Base room = modulus;
                        room.subtract(x);
                        if (room.compare(x) > 0) {
                            x.add(x);
                        } else {
                            x.subtract(room);
                        }
                    }
                    return x;
                }
            };

            template<typename Backend, typename Params>
            struct modular_adaptor;

            template<unsigned Bits, typename Params>
            struct modular_adaptor<cpp_int_modular_backend<Bits>, Params> {
                using base = cpp_int_modular_backend<Bits>;
                static constexpr unsigned N = base::limbs_amount;
                base v;    // canonical representative

                using constants = modulus_constants<base, Params>;
                static constexpr base modulus = Params::modulus();
                static constexpr bool odd = modulus.l[0] & 1;
                static constexpr std::uint64_t inv64 = constants::inv64();
                static constexpr base r2 = constants::r2();

                static constexpr base add_mod(const base &a, const base &b) {
                    // one more bit than the operands may need
                    cpp_int_modular_backend<Bits + 1> s(a);
                    s.add(cpp_int_modular_backend<Bits + 1>(b));
                    const cpp_int_modular_backend<Bits + 1> m(modulus);
                    if (s.compare(m) >= 0) {
                        s.subtract(m);
                    }
                    return base(s);
                }

                static constexpr base sub_mod(const base &a, const base &b) {
                    base r = a;
                    if (a.compare(b) < 0) {
                        r.add(modulus);
                    }
                    r.subtract(b);
                    return r;
                }

                static constexpr base reduce_wide(const cpp_int_modular_backend<2 * Bits> &a) {
                    cpp_int_modular_backend<2 * Bits> q, r;
                    cpp_int_modular_backend<2 * Bits>::divide(a, cpp_int_modular_backend<2 * Bits>(modulus), q, r);
                    return base(r);
                }

                // a b / 2^(64 N) mod modulus
                static constexpr base montgomery(const base &a, const base &b) {
                    std::uint64_t t[N + 2] = {};
                    for (unsigned i = 0; i < N; i++) {
                        std::uint64_t carry = 0;
                        for (unsigned j = 0; j < N; j++) {
                            const unsigned __int128 s = static_cast<unsigned __int128>(a.l[i]) * b.l[j] + t[j] + carry;
                            t[j] = static_cast<std::uint64_t>(s);
                            carry = static_cast<std::uint64_t>(s >> 64);
                        }
                        unsigned __int128 s = static_cast<unsigned __int128>(t[N]) + carry;
                        t[N] = static_cast<std::uint64_t>(s);
                        t[N + 1] = static_cast<std::uint64_t>(s >> 64);
                        const std::uint64_t m = t[0] * inv64;
                        s = static_cast<unsigned __int128>(m) * modulus.l[0] + t[0];
                        carry = static_cast<std::uint64_t>(s >> 64);
                        for (unsigned j = 1; j < N; j++) {
                            s = static_cast<unsigned __int128>(m) * modulus.l[j] + t[j] + carry;
                            t[j - 1] = static_cast<std::uint64_t>(s);
                            carry = static_cast<std::uint64_t>(s >> 64);
                        }
                        s = static_cast<unsigned __int128>(t[N]) + carry;
                        t[N - 1] = static_cast<std::uint64_t>(s);
                        t[N] = t[N + 1] + static_cast<std::uint64_t>(s >> 64);
                    }
                    bool ge = t[N] != 0;
                    if (!ge) {
                        ge = true;
                        for (unsigned i = N; i > 0; i--) {
                            if (t[i - 1] != modulus.l[i - 1]) {
                                ge = t[i - 1] > modulus.l[i - 1];
                                break;
                            }
                        }
                    }
                    base r;
                    std::uint64_t borrow = 0;
                    for (unsigned i = 0; i < N; i++) {
                        if (ge) {
                            const unsigned __int128 take = static_cast<unsigned __int128>(modulus.l[i]) + borrow;
                            r.l[i] = static_cast<std::uint64_t>(t[i] - take);
                            borrow = t[i] < take;
                        } else {
                            r.l[i] = t[i];
                        }
                    }
                    return r;
                }

                static constexpr base mul_mod(const base &a, const base &b) {
                    if constexpr (odd) {
                        return montgomery(montgomery(a, b), r2);
                    } else {
                        return reduce_wide(cpp_int_modular_backend<2 * Bits>::multiply(a, b));
                    }
                }

                constexpr modular_adaptor() = default;

                template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>>
                constexpr modular_adaptor(T x) {
                    if constexpr (std::is_signed<T>::value) {
                        if (x < 0) {
                            v = sub_mod(base(), reduce_wide(cpp_int_modular_backend<2 * Bits>(
                                                    static_cast<std::uint64_t>(-(static_cast<__int128>(x))))));
                            return;
                        }
                    }
                    v = reduce_small(static_cast<std::uint64_t>(x));
                }

                static constexpr base reduce_small(std::uint64_t x) {
                    base b;
                    b.l[0] = x;
                    if (Bits >= 64 && b.compare(modulus) < 0) {
                        return b;
                    }
                    return reduce_wide(cpp_int_modular_backend<2 * Bits>(x));
                }

                template<unsigned OtherBits>
                constexpr modular_adaptor(const cpp_int_modular_backend<OtherBits> &o) {
                    constexpr unsigned W = (OtherBits > 2 * Bits ? OtherBits : 2 * Bits);
                    cpp_int_modular_backend<W> w(o), m(modulus);
                    if (w.compare(m) >= 0) {
                        cpp_int_modular_backend<W> q;
                        cpp_int_modular_backend<W>::divide(w, m, q, w);
                    }
                    v = base(w);
                }

                template<std::size_t Min, std::size_t Max, cpp_integer_type S, cpp_int_check_type C, typename A>
                modular_adaptor(const cpp_int_backend<Min, Max, S, C, A> &other) {
                    number<cpp_int_backend<>> x = number<cpp_int_backend<Min, Max, S, C, A>>(other);
                    number<cpp_int_backend<>> m;
                    for (unsigned i = N; i > 0; i--) {
                        m = (m << 64) | modulus.l[i - 1];
                    }
                    x %= m;
                    if (x < 0) {
                        x += m;
                    }
                    v = base(x.backend());
                }

                template<std::size_t Min, std::size_t Max, cpp_integer_type S, cpp_int_check_type C, typename A>
                explicit operator cpp_int_backend<Min, Max, S, C, A>() const {
                    return static_cast<cpp_int_backend<Min, Max, S, C, A>>(v);
                }

                constexpr const base &base_data() const {
                    return v;
                }
                constexpr base &base_data() {
                    return v;
                }
                constexpr base mod_data() const {
                    return modulus;
                }
            };
        }    // namespace backends

        // Neither of the two values for which generic operators are declared: those would win over the ones of number.hpp
        // for temporaries.
        constexpr expression_template_option vp_et = static_cast<expression_template_option>(2);

        template<unsigned Bits>
        struct expression_template_default<backends::cpp_int_modular_backend<Bits>> {
            static constexpr expression_template_option value = vp_et;
        };
        template<typename B, typename P>
        struct expression_template_default<backends::modular_adaptor<B, P>> {
            static constexpr expression_template_option value = vp_et;
        };

        template<unsigned Bits>
        struct number_category<backends::cpp_int_modular_backend<Bits>>
            : public std::integral_constant<int, number_kind_unknown> { };
        template<typename B, typename P>
        struct number_category<backends::modular_adaptor<B, P>>
            : public std::integral_constant<int, number_kind_unknown> { };
    }
}
