// C04: combination of lookup and constant flags.
#include "manifest_model.hpp"
using namespace model;
using LT = manifest_lookup_type;
using CT = manifest_constant_type;

static const LT::type lts[] = {LT::type::NONE, LT::type::OPTIONAL, LT::type::REQUIRED, LT::type::UNSAT};
static const char *ltn[] = {"NONE", "OPTIONAL", "REQUIRED", "UNSAT"};
static const CT::type cts[] = {CT::type::NONE, CT::type::REQUIRED, CT::type::UNSAT};
static const char *ctn[] = {"NONE", "REQUIRED", "UNSAT"};

// model: rank in the order of the arrays above
static int lmerge(int a, int b) {
    return std::max(a, b);
}
static int linter(int a, int b) {
    if (a == 3 || b == 3) return 3;
    if (a == 2 || b == 2) return (a == 0 || b == 0) ? 3 : 2;
    if (a == 0 || b == 0) return 0;
    return 1;
}

template<typename T>
static std::string str(const T &t) {
    std::ostringstream os;
    os << t;
    return os.str();
}

PBT_TEST(lookup_chain, 36000, 144000) {
    int cur = int(g.below(4));
    LT t(lts[cur]);
    g.note() << ltn[cur];
    std::uint64_t n = g.below(8);
    for (std::uint64_t i = 0; i < n; i++) {
        int o = int(g.below(4));
        bool merge = g.flag();
        bool swapped = g.flag();
        LT ot(lts[o]);
        g.note() << (merge ? " merge " : " intersect ") << ltn[o];
        LT r = merge ? (swapped ? ot.merge_with(t) : t.merge_with(ot)) : (swapped ? ot.intersect(t) : t.intersect(ot));
        int e = merge ? lmerge(cur, o) : linter(cur, o);
        REQUIRE(r == LT(lts[e]) && !(r != LT(lts[e])),
                ltn[cur] << (merge ? " merge " : " intersect ") << ltn[o] << " = " << r << ", expected " << ltn[e]);
        REQUIRE(str(r) == ltn[e], "printed as " << str(r));
        REQUIRE(t == LT(lts[cur]) && ot == LT(lts[o]), "operand changed");
        t = r;
        cur = e;
        g.checked(3);
    }
    g.nontrivial(n >= 2);
}

PBT_TEST(lookup_laws, 64, 64) {
    int a = int(g.below(4)), b = int(g.below(4)), c = int(g.below(4));
    LT A(lts[a]), Bt(lts[b]), C(lts[c]);
    g.note() << ltn[a] << " " << ltn[b] << " " << ltn[c];
    g.nontrivial();
    REQUIRE(A.merge_with(Bt) == Bt.merge_with(A), "merge is not commutative");
    REQUIRE(A.intersect(Bt) == Bt.intersect(A), "intersection is not commutative");
    REQUIRE(A.merge_with(Bt).merge_with(C) == A.merge_with(Bt.merge_with(C)), "merge is not associative");
    REQUIRE(A.intersect(Bt).intersect(C) == A.intersect(Bt.intersect(C)), "intersection is not associative");
    REQUIRE(A.merge_with(A) == A && A.intersect(A) == A, "not idempotent");
}

PBT_TEST(constant_chain, 36000, 144000) {
    int cur = int(g.below(3));
    CT t(cts[cur]);
    if (cur < 2 && g.flag()) {
        t = CT(cur == 1);
    }
    g.note() << ctn[cur];
    std::uint64_t n = g.below(8);
    for (std::uint64_t i = 0; i < n; i++) {
        CT r;
        int e;
        if (g.chance(2, 3)) {
            int o = int(g.below(3));
            bool swapped = g.flag();
            CT ot(cts[o]);
            g.note() << " merge " << ctn[o];
            r = swapped ? ot.merge_with(t) : t.merge_with(ot);
            e = std::max(cur, o);
            REQUIRE(ot == CT(cts[o]), "operand changed");
        } else {
            bool has = g.flag();
            g.note() << " within " << has;
            r = t.intersect(compiler_manifest(std::uint32_t(g.below(20)), has));
            e = cur == 2 || (cur == 1 && !has) ? 2 : cur;
        }
        REQUIRE(r == CT(cts[e]) && !(r != CT(cts[e])),
                "constant flag " << r << ", expected " << ctn[e]);
        REQUIRE(str(r) == ctn[e], "printed as " << str(r));
        REQUIRE(t == CT(cts[cur]), "operand changed");
        t = r;
        cur = e;
        g.checked(3);
    }
    g.nontrivial(n >= 2);
}

PBT_TEST(defaults, 4, 4) {
    g.note() << "default flags and conversion from bool";
    g.nontrivial();
    REQUIRE(LT() == LT(LT::type::NONE), "default lookup flag");
    REQUIRE(CT() == CT(CT::type::NONE), "default constant flag");
    REQUIRE(CT(true) == CT(CT::type::REQUIRED) && CT(false) == CT(CT::type::NONE), "conversion from bool");
    for (auto a : lts) {
        for (auto b : lts) {
            REQUIRE((LT(a) == LT(b)) == (a == b) && (LT(a) != LT(b)) == (a != b), "equality");
        }
    }
    for (auto a : cts) {
        for (auto b : cts) {
            REQUIRE((CT(a) == CT(b)) == (a == b) && (CT(a) != CT(b)) == (a != b), "equality");
        }
    }
}

PBT_MAIN
