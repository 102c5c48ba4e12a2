// C33: assertions and the compile-time power.
#include <sstream>
#include <string>
#include <boost/multiprecision/cpp_int.hpp>
#include <nil/blueprint/assert.hpp>
#include <nil/detail/static_pow.hpp>
#include "pbt.hpp"
#include "c33_probe.hpp"

PBT_TEST(modes, 400, 4000) {
    unsigned mode = unsigned(g.below(4));
    int which = int(g.below(4));
    bool value = g.flag();
    g.note() << "mode " << mode << " form " << which << " condition " << value;
    g.nontrivial();
    probe p = mode == 0 ? mode_plain(value, which) :
              mode == 1 ? mode_ndebug(value, which) :
              mode == 2 ? mode_debug(value, which) :
                          mode_debug_ndebug(value, which);
    bool active = which != 1 || p.debug_on;
    REQUIRE(p.threw == (active && !value), "assertion threw=" << p.threw);
    REQUIRE(p.continued == !p.threw, "continued=" << p.continued);
    int times = !active ? 0 : which == 3 && !value ? 2 : 1;
    REQUIRE(p.evaluated == times, "condition evaluated " << p.evaluated << " times");
    if (p.threw && which < 2) {
        REQUIRE(p.what.find("condition(value)") != std::string::npos, "message lacks the expression: " << p.what);
        REQUIRE(p.what.find(std::to_string(p.line)) != std::string::npos, "message lacks the line: " << p.what);
        REQUIRE(p.what.find(p.file) != std::string::npos, "message lacks the file: " << p.what);
    }
}

template<typename T>
static void pow_case(pbt::Gen &g, unsigned bits, bool negative) {
    using boost::multiprecision::cpp_int;
    unsigned b = 1 + unsigned(g.below(bits));
    std::uint64_t base = g.below(std::uint64_t(1) << std::min(b, 40u));
    cpp_int x = base;
    if (negative && g.flag()) {
        x = -x;
    }
    // the largest exponent which fits, or any below it
    unsigned top = 0;
    cpp_int p = 1, lim = (cpp_int(1) << bits) - 1;
    if (abs(x) <= 1) {
        top = 300;
    } else {
        while (abs(cpp_int(p * x)) <= lim) {
            p *= x;
            top++;
        }
    }
    unsigned n = g.flag() ? top : unsigned(g.below(top + 1));
    g.note() << x << "^" << n;
    g.nontrivial(n >= 2 && abs(x) > 1);
    cpp_int e = 1;
    for (unsigned i = 0; i < n; i++) {
        e *= x;
    }
    T r1 = nil::crypto3::detail::pow(T(x), n);
    T r2 = nil::crypto3::detail::pow(T(x), std::size_t(n));
    T r3 = nil::crypto3::detail::pow(T(x), int(n));
    REQUIRE(cpp_int(r1) == e && cpp_int(r2) == e && cpp_int(r3) == e, x << "^" << n << " computed as " << r1 << " " << r2 << " " << r3);
    g.checked(3);
}

PBT_TEST(power, 6000, 80000) {
    switch (g.below(4)) {
        case 0: pow_case<std::uint64_t>(g, 64, false); break;
        case 1: pow_case<std::int64_t>(g, 63, true); break;
        case 2: pow_case<std::uint32_t>(g, 32, false); break;
        default: pow_case<boost::multiprecision::cpp_int>(g, 600, true); break;
    }
}

static_assert(nil::crypto3::detail::pow(2, 10) == 1024, "usable in constant expressions");

PBT_MAIN
