#pragma once

#include "bigint.hpp"

namespace boost {
    namespace multiprecision {
        template<typename T, unsigned Bits, expression_template_option ET>
        struct is_compatible_arithmetic_type<T, number<backends::cpp_int_modular_backend<Bits>, ET>>
            : std::false_type { };
        template<typename T, typename B, typename P, expression_template_option ET>
        struct is_compatible_arithmetic_type<T, number<backends::modular_adaptor<B, P>, ET>> : std::false_type { };

        namespace vp {
            template<typename T>
            using if_int = std::enable_if_t<std::is_integral<T>::value>;

            // The integer type an operand of an operation is treated as.
            template<typename T>
            struct as_number {
                static constexpr bool value = std::is_integral<T>::value;
                static constexpr unsigned bits = 64;
            };
            template<unsigned Bits, expression_template_option ET>
            struct as_number<number<backends::cpp_int_modular_backend<Bits>, ET>> {
                static constexpr bool value = true;
                static constexpr unsigned bits = Bits;
            };

            inline std::string to_text(const std::uint64_t *limbs, unsigned n, std::ios_base::fmtflags flags) {
                const bool hex = (flags & std::ios_base::basefield) == std::ios_base::hex;
                std::vector<std::uint64_t> v(limbs, limbs + n);
                std::string s;
                const std::uint64_t base = hex ? 16 : 10;
                bool zero = false;
                while (!zero) {
                    unsigned __int128 rem = 0;
                    zero = true;
                    for (unsigned i = n; i > 0; i--) {
                        rem = (rem << 64) | v[i - 1];
                        v[i - 1] = static_cast<std::uint64_t>(rem / base);
                        rem %= base;
                        zero = zero && v[i - 1] == 0;
                    }
                    s.push_back((flags & std::ios_base::uppercase ? "0123456789ABCDEF" : "0123456789abcdef")[std::size_t(rem)]);
                }
                if (hex && (flags & std::ios_base::showbase)) {
                    s += "x0";
                }
                std::reverse(s.begin(), s.end());
                return s;
            }
        }    // namespace vp

        template<unsigned Bits, expression_template_option ET>
        class number<backends::cpp_int_modular_backend<Bits>, ET> {
        public:
            using backend_type = backends::cpp_int_modular_backend<Bits>;
            using value_type = number;

        private:
            backend_type b;

        public:
            constexpr number() = default;
            constexpr number(const backend_type &x) : b(x) {}
            template<typename T, typename = vp::if_int<T>>
            constexpr number(T x) : b(x) {}
            constexpr number(unsigned __int128 x) : b(x) {}
            template<unsigned O>
            constexpr number(const number<backends::cpp_int_modular_backend<O>, ET> &x) : b(x.backend()) {}
            template<typename B, typename P>
            explicit constexpr number(const number<backends::modular_adaptor<B, P>, ET> &x)
                : b(x.backend().base_data()) {}
            template<unsigned O, std::enable_if_t<O != Bits, int> = 0>
            explicit constexpr number(const backends::cpp_int_modular_backend<O> &x) : b(x) {}
            template<std::size_t Min, std::size_t Max, cpp_integer_type S, cpp_int_check_type C, typename A,
                     expression_template_option E>
            explicit number(const number<cpp_int_backend<Min, Max, S, C, A>, E> &x) : b(x.backend()) {}
            explicit number(const char *text) {
                *this = number(number<cpp_int_backend<>>(text));
            }
            explicit number(const std::string &text) : number(text.c_str()) {}

            constexpr backend_type &backend() {
                return b;
            }
            constexpr const backend_type &backend() const {
                return b;
            }
            constexpr bool is_zero() const {
                return b.is_zero();
            }
            constexpr int sign() const {
                return b.is_zero() ? 0 : 1;
            }
            constexpr int compare(const number &o) const {
                return b.compare(o.b);
            }

            explicit constexpr operator bool() const {
                return !b.is_zero();
            }
            template<typename T, typename = std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>>
            explicit constexpr operator T() const {
                return static_cast<T>(b.l[0]);
            }
            template<typename T>
            constexpr T convert_to() const {
                return static_cast<T>(*this);
            }
            std::string str(std::streamsize = 0, std::ios_base::fmtflags f = std::ios_base::dec) const {
                return vp::to_text(b.l, backend_type::limbs_amount, f);
            }

            constexpr number &operator++() {
                b.add(backend_type(1u));
                return *this;
            }
            constexpr number operator++(int) {
                number r = *this;
                ++*this;
                return r;
            }
            constexpr number &operator--() {
                b.subtract(backend_type(1u));
                return *this;
            }
            constexpr number operator--(int) {
                number r = *this;
                --*this;
                return r;
            }
            constexpr number operator+() const {
                return *this;
            }
            constexpr number operator-() const {
                number r;
                r.b.subtract(b);
                return r;
            }
            constexpr number operator~() const {
                number r;
                for (unsigned i = 0; i < backend_type::limbs_amount; i++) {
                    r.b.l[i] = ~b.l[i];
                }
                r.b.normalize();
                return r;
            }

            template<typename O>
            constexpr number &operator+=(const O &o) {
                return *this = number(*this + o);
            }
            template<typename O>
            constexpr number &operator-=(const O &o) {
                return *this = number(*this - o);
            }
            template<typename O>
            constexpr number &operator*=(const O &o) {
                return *this = number(*this * o);
            }
            template<typename O>
            constexpr number &operator/=(const O &o) {
                return *this = number(*this / o);
            }
            template<typename O>
            constexpr number &operator%=(const O &o) {
                return *this = number(*this % o);
            }
            template<typename O>
            constexpr number &operator&=(const O &o) {
                return *this = number(*this & o);
            }
            template<typename O>
            constexpr number &operator|=(const O &o) {
                return *this = number(*this | o);
            }
            template<typename O>
            constexpr number &operator^=(const O &o) {
                return *this = number(*this ^ o);
            }
            template<typename T, typename = vp::if_int<T>>
            constexpr number &operator<<=(T n) {
                b = b.shifted_left(n);
                return *this;
            }
            template<typename T, typename = vp::if_int<T>>
            constexpr number &operator>>=(T n) {
                b = b.shifted_right(n);
                return *this;
            }
        };

        template<unsigned Bits>
        using vp_uint = number<backends::cpp_int_modular_backend<Bits>, vp_et>;

        namespace vp {
            template<unsigned R, unsigned A, unsigned B>
            constexpr vp_uint<R> op(char c, const vp_uint<A> &a, const vp_uint<B> &b) {
                using backend = backends::cpp_int_modular_backend<R>;
                backend x(a.backend());
                const backend y(b.backend());
                backend q, r;
                switch (c) {
                    case '+':
                        x.add(y);
                        return x;
                    case '-':
                        x.subtract(y);
                        return x;
                    case '*':
                        return backend::multiply(x, y);
                    case '/':
                        backend::divide(x, y, q, r);
                        return q;
                    case '%':
                        backend::divide(x, y, q, r);
                        return r;
                    case '&':
                        for (unsigned i = 0; i < backend::limbs_amount; i++) {
                            x.l[i] &= y.l[i];
                        }
                        return x;
                    case '|':
                        for (unsigned i = 0; i < backend::limbs_amount; i++) {
                            x.l[i] |= y.l[i];
                        }
                        return x;
                    default:
                        for (unsigned i = 0; i < backend::limbs_amount; i++) {
                            x.l[i] ^= y.l[i];
                        }
                        return x;
                }
            }
            constexpr unsigned max_bits(unsigned a, unsigned b) {
                return a > b ? a : b;
            }
        }    // namespace vp

// clang-format off
#define VP_BINARY(OP, C)                                                                                             \
        template<unsigned A>                                                                                         \
        constexpr vp_uint<A> operator OP(const vp_uint<A> &a, const vp_uint<A> &b) {                                 \
            return vp::op<A, A, A>(C, a, b);                                                                         \
        }                                                                                                            \
        template<unsigned A, unsigned B, std::enable_if_t<A != B, int> = 0>                                          \
        constexpr vp_uint<vp::max_bits(A, B)> operator OP(const vp_uint<A> &a, const vp_uint<B> &b) {                \
            return vp::op<vp::max_bits(A, B), A, B>(C, a, b);                                                        \
        }                                                                                                            \
        template<unsigned A, typename T, typename = vp::if_int<T>>                                                   \
        constexpr vp_uint<A> operator OP(const vp_uint<A> &a, const T &b) {                                          \
            return vp::op<A, A, A>(C, a, vp_uint<A>(b));                                                             \
        }                                                                                                            \
        template<unsigned A, typename T, typename = vp::if_int<T>>                                                   \
        constexpr vp_uint<A> operator OP(const T &a, const vp_uint<A> &b) {                                          \
            return vp::op<A, A, A>(C, vp_uint<A>(a), b);                                                             \
        }
        VP_BINARY(+, '+')
        VP_BINARY(-, '-')
        VP_BINARY(*, '*')
        VP_BINARY(/, '/')
        VP_BINARY(%, '%')
        VP_BINARY(&, '&')
        VP_BINARY(|, '|')
        VP_BINARY(^, '^')
#undef VP_BINARY

#define VP_COMPARE(OP)                                                                                               \
        template<unsigned A>                                                                                         \
        constexpr bool operator OP(const vp_uint<A> &a, const vp_uint<A> &b) {                                       \
            return a.backend().compare(b.backend()) OP 0;                                                            \
        }                                                                                                            \
        template<unsigned A, unsigned B, std::enable_if_t<A != B, int> = 0>                                          \
        constexpr bool operator OP(const vp_uint<A> &a, const vp_uint<B> &b) {                                       \
            return vp_uint<vp::max_bits(A, B)>(a).compare(vp_uint<vp::max_bits(A, B)>(b)) OP 0;                      \
        }                                                                                                            \
        template<unsigned A, typename T, typename = vp::if_int<T>>                                                   \
        constexpr bool operator OP(const vp_uint<A> &a, const T &b) {                                                \
            return vp_uint<vp::max_bits(A, 64)>(a).compare(vp_uint<vp::max_bits(A, 64)>(b)) OP 0;                    \
        }                                                                                                            \
        template<unsigned A, typename T, typename = vp::if_int<T>>                                                   \
        constexpr bool operator OP(const T &a, const vp_uint<A> &b) {                                                \
            return vp_uint<vp::max_bits(A, 64)>(a).compare(vp_uint<vp::max_bits(A, 64)>(b)) OP 0;                    \
        }
        VP_COMPARE(==)
        VP_COMPARE(!=)
        VP_COMPARE(<)
        VP_COMPARE(>)
        VP_COMPARE(<=)
        VP_COMPARE(>=)
#undef VP_COMPARE
        // clang-format on

        template<unsigned A, typename T, typename = vp::if_int<T>>
        constexpr vp_uint<A> operator<<(const vp_uint<A> &a, const T &n) {
            return a.backend().shifted_left(n);
        }
        template<unsigned A, typename T, typename = vp::if_int<T>>
        constexpr vp_uint<A> operator>>(const vp_uint<A> &a, const T &n) {
            return a.backend().shifted_right(n);
        }

        namespace vp {
            inline void print(std::ostream &os, const std::uint64_t *l, unsigned n) {
                os << to_text(l, n, os.flags());
            }
        }    // namespace vp

        template<unsigned A>
        std::ostream &operator<<(std::ostream &os, const vp_uint<A> &a) {
            vp::print(os, a.backend().l, a.backend().limbs_amount);
            return os;
        }

        template<unsigned A>
        constexpr bool bit_test(const vp_uint<A> &a, std::size_t i) {
            return a.backend().bit(i);
        }
        template<unsigned A>
        constexpr vp_uint<A> &bit_set(vp_uint<A> &a, std::size_t i) {
            if (i < A) {
                a.backend().l[i / 64] |= std::uint64_t(1) << (i % 64);
            }
            return a;
        }
        template<unsigned A>
        constexpr vp_uint<A> &bit_unset(vp_uint<A> &a, std::size_t i) {
            if (i < A) {
                a.backend().l[i / 64] &= ~(std::uint64_t(1) << (i % 64));
            }
            return a;
        }
        template<unsigned A>
        constexpr std::size_t msb(const vp_uint<A> &a) {
            if (a.is_zero()) {
                throw std::domain_error("No bits were set in the operand.");
            }
            return a.backend().size_in_bits() - 1;
        }
        template<unsigned A>
        constexpr std::size_t lsb(const vp_uint<A> &a) {
            for (std::size_t i = 0; i < A; i++) {
                if (a.backend().bit(i)) {
                    return i;
                }
            }
            throw std::domain_error("No bits were set in the operand.");
        }
        template<unsigned A>
        constexpr void divide_qr(const vp_uint<A> &x, const vp_uint<A> &y, vp_uint<A> &q, vp_uint<A> &r) {
            backends::cpp_int_modular_backend<A> qq, rr;
            backends::cpp_int_modular_backend<A>::divide(x.backend(), y.backend(), qq, rr);
            q = qq;
            r = rr;
        }
        template<unsigned A, typename T>
        constexpr vp_uint<A> pow(vp_uint<A> base, T e) {
            vp_uint<A> r(1u);
            while (e > 0) {
                if (e & 1) {
                    r = r * base;
                }
                base = base * base;
                e >>= 1;
            }
            return r;
        }

        template<typename B, typename P, expression_template_option ET>
        class number<backends::modular_adaptor<B, P>, ET> {
        public:
            using backend_type = backends::modular_adaptor<B, P>;
            using value_type = number;

        private:
            backend_type b;
            using base_number = number<B, vp_et>;

        public:
            constexpr number() = default;
            constexpr number(const backend_type &x) : b(x) {}
            template<typename T, typename = vp::if_int<T>>
            constexpr number(T x) : b(x) {}
            template<unsigned O>
            constexpr number(const number<backends::cpp_int_modular_backend<O>, ET> &x) : b(x.backend()) {}
            template<unsigned O>
            constexpr number(const backends::cpp_int_modular_backend<O> &x) : b(x) {}
            template<unsigned O, typename M>
            constexpr number(const number<backends::cpp_int_modular_backend<O>, ET> &x, const M &) : b(x.backend()) {}
            template<std::size_t Min, std::size_t Max, cpp_integer_type S, cpp_int_check_type C, typename A,
                     expression_template_option E>
            explicit number(const number<cpp_int_backend<Min, Max, S, C, A>, E> &x) : b(x.backend()) {}

            constexpr backend_type &backend() {
                return b;
            }
            constexpr const backend_type &backend() const {
                return b;
            }
            constexpr base_number base() const {
                return b.v;
            }
            constexpr bool is_zero() const {
                return b.v.is_zero();
            }
            constexpr int sign() const {
                return is_zero() ? 0 : 1;
            }
            explicit constexpr operator bool() const {
                return !is_zero();
            }
            template<typename T, typename = std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>>
            explicit constexpr operator T() const {
                return static_cast<T>(b.v.l[0]);
            }
            template<typename T>
            constexpr T convert_to() const {
                return static_cast<T>(*this);
            }
            std::string str(std::streamsize = 0, std::ios_base::fmtflags f = std::ios_base::dec) const {
                return base().str(0, f);
            }

            constexpr number operator-() const {
                number r;
                r.b.v = backend_type::sub_mod(B(), b.v);
                return r;
            }
            constexpr number &operator+=(const number &o) {
                b.v = backend_type::add_mod(b.v, o.b.v);
                return *this;
            }
            constexpr number &operator-=(const number &o) {
                b.v = backend_type::sub_mod(b.v, o.b.v);
                return *this;
            }
            constexpr number &operator*=(const number &o) {
                b.v = backend_type::mul_mod(b.v, o.b.v);
                return *this;
            }
            constexpr number &operator++() {
                return *this += number(1u);
            }
            constexpr number &operator--() {
                return *this -= number(1u);
            }
            constexpr number operator++(int) {
                number r = *this;
                ++*this;
                return r;
            }
            constexpr number operator--(int) {
                number r = *this;
                --*this;
                return r;
            }
            friend constexpr number operator+(number x, const number &y) {
                return x += y;
            }
            friend constexpr number operator-(number x, const number &y) {
                return x -= y;
            }
            friend constexpr number operator*(number x, const number &y) {
                return x *= y;
            }
            friend constexpr number operator&(const number &x, const number &y) {
                return number(x.base() & y.base());
            }
            friend constexpr number operator|(const number &x, const number &y) {
                return number(x.base() | y.base());
            }
            friend constexpr number operator^(const number &x, const number &y) {
                return number(x.base() ^ y.base());
            }
            // quotient and remainder of the representatives
            friend constexpr number operator/(const number &x, const number &y) {
                return number(x.base() / y.base());
            }
            friend constexpr number operator%(const number &x, const number &y) {
                return number(x.base() % y.base());
            }
            template<typename T, typename = vp::if_int<T>>
            friend constexpr number operator<<(const number &x, const T &n) {
                number r = x;
                for (T i = 0; i < n; i++) {
                    r += r;
                }
                return r;
            }
            template<typename T, typename = vp::if_int<T>>
            friend constexpr number operator>>(const number &x, const T &n) {
                return number(x.base() >> n);
            }
            template<typename T, typename = vp::if_int<T>>
            constexpr number &operator<<=(const T &n) {
                return *this = *this << n;
            }
            template<typename T, typename = vp::if_int<T>>
            constexpr number &operator>>=(const T &n) {
                return *this = *this >> n;
            }
            constexpr int compare(const number &o) const {
                return b.v.compare(o.b.v);
            }
            template<typename T, typename = vp::if_int<T>>
            friend constexpr bool operator==(const number &x, const T &y) {
                return x.compare(number(y)) == 0;
            }
            template<typename T, typename = vp::if_int<T>>
            friend constexpr bool operator==(const T &x, const number &y) {
                return number(x).compare(y) == 0;
            }
            template<typename T, typename = vp::if_int<T>>
            friend constexpr bool operator!=(const number &x, const T &y) {
                return x.compare(number(y)) != 0;
            }
            template<typename T, typename = vp::if_int<T>>
            friend constexpr bool operator!=(const T &x, const number &y) {
                return number(x).compare(y) != 0;
            }
            template<typename T, typename = vp::if_int<T>>
            friend constexpr bool operator<(const number &x, const T &y) {
                return x.compare(number(y)) < 0;
            }
            template<typename T, typename = vp::if_int<T>>
            friend constexpr bool operator<(const T &x, const number &y) {
                return number(x).compare(y) < 0;
            }
            template<typename T, typename = vp::if_int<T>>
            friend constexpr bool operator>(const number &x, const T &y) {
                return x.compare(number(y)) > 0;
            }
            template<typename T, typename = vp::if_int<T>>
            friend constexpr bool operator>(const T &x, const number &y) {
                return number(x).compare(y) > 0;
            }
            template<typename T, typename = vp::if_int<T>>
            friend constexpr bool operator<=(const number &x, const T &y) {
                return x.compare(number(y)) <= 0;
            }
            template<typename T, typename = vp::if_int<T>>
            friend constexpr bool operator<=(const T &x, const number &y) {
                return number(x).compare(y) <= 0;
            }
            template<typename T, typename = vp::if_int<T>>
            friend constexpr bool operator>=(const number &x, const T &y) {
                return x.compare(number(y)) >= 0;
            }
            template<typename T, typename = vp::if_int<T>>
            friend constexpr bool operator>=(const T &x, const number &y) {
                return number(x).compare(y) >= 0;
            }
            friend constexpr bool operator==(const number &x, const number &y) {
                return x.compare(y) == 0;
            }
            friend constexpr bool operator!=(const number &x, const number &y) {
                return x.compare(y) != 0;
            }
            friend constexpr bool operator<(const number &x, const number &y) {
                return x.compare(y) < 0;
            }
            friend constexpr bool operator>(const number &x, const number &y) {
                return x.compare(y) > 0;
            }
            friend constexpr bool operator<=(const number &x, const number &y) {
                return x.compare(y) <= 0;
            }
            friend constexpr bool operator>=(const number &x, const number &y) {
                return x.compare(y) >= 0;
            }
            friend std::ostream &operator<<(std::ostream &os, const number &x) {
                vp::print(os, x.b.v.l, B::limbs_amount);
                return os;
            }
        };

        template<typename B, typename P>
        constexpr bool bit_test(const number<backends::modular_adaptor<B, P>, vp_et> &a, std::size_t i) {
            return a.backend().v.bit(i);
        }
        template<typename B, typename P>
        constexpr std::size_t msb(const number<backends::modular_adaptor<B, P>, vp_et> &a) {
            return msb(a.base());
        }
        template<typename B, typename P, typename T>
        constexpr number<backends::modular_adaptor<B, P>, vp_et> pow(number<backends::modular_adaptor<B, P>, vp_et> a,
                                                                      T e) {
            number<backends::modular_adaptor<B, P>, vp_et> r(1u);
            while (e > 0) {
                if (e & 1) {
                    r *= a;
                }
                a *= a;
                e >>= 1;
            }
            return r;
        }
    }    // namespace multiprecision
}    // namespace boost

namespace vp_literals {
    template<unsigned Bits, char... C>
    constexpr boost::multiprecision::vp_uint<Bits> parse() {
        constexpr char text[] = {C...};
        boost::multiprecision::vp_uint<Bits> r;
        const bool hex = sizeof...(C) > 2 && text[0] == '0' && (text[1] == 'x' || text[1] == 'X');
        for (std::size_t i = hex ? 2 : 0; i < sizeof...(C); i++) {
            const char c = text[i];
            if (c == '\'') {
                continue;
            }
            const unsigned d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c - 'A' + 10;
            r = (hex ? r << 4 : r * 10u) + d;
        }
        return r;
    }
}    // namespace vp_literals

// Literals keep all bits of their limbs: the size in the name may be too small for the number.
#define VP_LITERAL(BITS)                                                             \
    template<char... C>                                                              \
    constexpr auto operator"" _cppui_modular##BITS() {                               \
        return vp_literals::parse<(BITS + 63) / 64 * 64, C...>();                    \
    }
VP_LITERAL(64)
VP_LITERAL(128)
VP_LITERAL(252)
VP_LITERAL(253)
VP_LITERAL(254)
VP_LITERAL(255)
VP_LITERAL(256)
VP_LITERAL(257)
VP_LITERAL(381)
VP_LITERAL(512)
#undef VP_LITERAL

namespace std {
    template<unsigned Bits>
    struct hash<boost::multiprecision::vp_uint<Bits>> {
        size_t operator()(const boost::multiprecision::vp_uint<Bits> &x) const {
            size_t h = 1469598103934665603ull;
            for (uint64_t l : x.backend().l) {
                h = (h ^ l) * 1099511628211ull;
            }
            return h;
        }
    };
}    // namespace std

namespace std {
    template<unsigned Bits, boost::multiprecision::expression_template_option ET>
    class numeric_limits<boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Bits>, ET>> {
        using number = boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Bits>, ET>;

    public:
        static constexpr bool is_specialized = true, is_signed = false, is_integer = true, is_exact = true,
                              is_bounded = true, is_modulo = true, has_infinity = false, has_quiet_NaN = false;
        static constexpr int radix = 2, digits = Bits, digits10 = Bits * 301 / 1000, max_digits10 = digits10 + 1;
        static constexpr number min() {
            return number(0u);
        }
        static constexpr number lowest() {
            return number(0u);
        }
        static constexpr number max() {
            return number(0u) - number(1u);
        }
    };
}    // namespace std
