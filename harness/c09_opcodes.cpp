// C09: EVM opcode numbering.
#define BOOST_ENABLE_ASSERT_HANDLER
#include <boost/assert.hpp>
#include <stdexcept>
#include <string>
namespace boost {
    void assertion_failed(char const *e, char const *, char const *, long) { throw std::runtime_error(e); }
    void assertion_failed_msg(char const *e, char const *, char const *, char const *, long) { throw std::runtime_error(e); }
}
#include <nil/blueprint/zkevm/zkevm_opcodes.hpp>
#include "pbt.hpp"
using namespace nil::blueprint;

// Byte values of the EVM (Cancun).
#define SPEC(X) X(STOP,0x00) X(ADD,0x01) X(MUL,0x02) X(SUB,0x03) X(DIV,0x04) X(SDIV,0x05) X(MOD,0x06) X(SMOD,0x07) \
 X(ADDMOD,0x08) X(MULMOD,0x09) X(EXP,0x0a) X(SIGNEXTEND,0x0b) X(LT,0x10) X(GT,0x11) X(SLT,0x12) X(SGT,0x13) X(EQ,0x14) \
 X(ISZERO,0x15) X(AND,0x16) X(OR,0x17) X(XOR,0x18) X(NOT,0x19) X(BYTE,0x1a) X(SHL,0x1b) X(SHR,0x1c) X(SAR,0x1d) \
 X(KECCAK256,0x20) X(ADDRESS,0x30) X(BALANCE,0x31) X(ORIGIN,0x32) X(CALLER,0x33) X(CALLVALUE,0x34) X(CALLDATALOAD,0x35) \
 X(CALLDATASIZE,0x36) X(CALLDATACOPY,0x37) X(CODESIZE,0x38) X(CODECOPY,0x39) X(GASPRICE,0x3a) X(EXTCODESIZE,0x3b) \
 X(EXTCODECOPY,0x3c) X(RETURNDATASIZE,0x3d) X(RETURNDATACOPY,0x3e) X(EXTCODEHASH,0x3f) X(BLOCKHASH,0x40) X(COINBASE,0x41) \
 X(TIMESTAMP,0x42) X(NUMBER,0x43) X(PREVRANDAO,0x44) X(GASLIMIT,0x45) X(CHAINID,0x46) X(SELFBALANCE,0x47) X(BASEFEE,0x48) \
 X(BLOBHASH,0x49) X(BLOBBASEFEE,0x4a) X(POP,0x50) X(MLOAD,0x51) X(MSTORE,0x52) X(MSTORE8,0x53) X(SLOAD,0x54) X(SSTORE,0x55) \
 X(JUMP,0x56) X(JUMPI,0x57) X(PC,0x58) X(MSIZE,0x59) X(GAS,0x5a) X(JUMPDEST,0x5b) X(TLOAD,0x5c) X(TSTORE,0x5d) X(MCOPY,0x5e) \
 X(PUSH0,0x5f) X(PUSH1,0x60) X(PUSH2,0x61) X(PUSH3,0x62) X(PUSH4,0x63) X(PUSH5,0x64) X(PUSH6,0x65) X(PUSH7,0x66) X(PUSH8,0x67) \
 X(PUSH9,0x68) X(PUSH10,0x69) X(PUSH11,0x6a) X(PUSH12,0x6b) X(PUSH13,0x6c) X(PUSH14,0x6d) X(PUSH15,0x6e) X(PUSH16,0x6f) \
 X(PUSH17,0x70) X(PUSH18,0x71) X(PUSH19,0x72) X(PUSH20,0x73) X(PUSH21,0x74) X(PUSH22,0x75) X(PUSH23,0x76) X(PUSH24,0x77) \
 X(PUSH25,0x78) X(PUSH26,0x79) X(PUSH27,0x7a) X(PUSH28,0x7b) X(PUSH29,0x7c) X(PUSH30,0x7d) X(PUSH31,0x7e) X(PUSH32,0x7f) \
 X(DUP1,0x80) X(DUP2,0x81) X(DUP3,0x82) X(DUP4,0x83) X(DUP5,0x84) X(DUP6,0x85) X(DUP7,0x86) X(DUP8,0x87) X(DUP9,0x88) \
 X(DUP10,0x89) X(DUP11,0x8a) X(DUP12,0x8b) X(DUP13,0x8c) X(DUP14,0x8d) X(DUP15,0x8e) X(DUP16,0x8f) X(SWAP1,0x90) X(SWAP2,0x91) \
 X(SWAP3,0x92) X(SWAP4,0x93) X(SWAP5,0x94) X(SWAP6,0x95) X(SWAP7,0x96) X(SWAP8,0x97) X(SWAP9,0x98) X(SWAP10,0x99) X(SWAP11,0x9a) \
 X(SWAP12,0x9b) X(SWAP13,0x9c) X(SWAP14,0x9d) X(SWAP15,0x9e) X(SWAP16,0x9f) X(LOG0,0xa0) X(LOG1,0xa1) X(LOG2,0xa2) X(LOG3,0xa3) \
 X(LOG4,0xa4) X(CREATE,0xf0) X(CALL,0xf1) X(CALLCODE,0xf2) X(RETURN,0xf3) X(DELEGATECALL,0xf4) X(CREATE2,0xf5) X(STATICCALL,0xfa) \
 X(REVERT,0xfd) X(INVALID,0xfe) X(SELFDESTRUCT,0xff)

struct entry { zkevm_opcode op; std::size_t byte; const char *name; };
static const std::vector<entry> &spec() {
    static const std::vector<entry> s = {
#define X(n, b) {zkevm_opcode::n, b, #n},
        SPEC(X)
#undef X
    };
    return s;
}

static std::string printed(zkevm_opcode o) {
    std::ostringstream os;
    os << o;
    return os.str();
}

PBT_TEST(table, 16, 16) {
    g.note() << "every opcode of the specification and every value 0..511";
    g.nontrivial();
    const opcodes_info &i = opcodes_info::instance();
    std::map<std::size_t, const entry *> by;
    for (auto &e : spec()) {
        by[e.byte] = &e;
        REQUIRE(i.get_opcode_value(e.op) == e.byte, e.name << " has value " << i.get_opcode_value(e.op));
        REQUIRE(i.get_opcode_from_value(e.byte) == e.op, "value " << e.byte << " is not " << e.name);
        REQUIRE(opcode_to_string(e.op) == e.name, e.name << " is named " << opcode_to_string(e.op));
        REQUIRE(printed(e.op) == e.name, e.name << " is printed as " << printed(e.op));
        g.checked(4);
    }
    REQUIRE(i.get_opcodes_amount() == spec().size(), i.get_opcodes_amount() << " opcodes");
    for (std::size_t v = 0; v < 512; v++) {
        bool error = false;
        zkevm_opcode o {};
        try {
            o = i.get_opcode_from_value(v);
        } catch (const std::exception &) {
            error = true;
        }
        REQUIRE(error == !by.count(v), "value " << v << (error ? " is an error" : " is accepted"));
        if (!error) {
            REQUIRE(i.get_opcode_value(o) == v, "value " << v << " maps to an opcode with another value");
        }
        g.checked();
    }
}

// arbitrary sequences of queries give the answers of the specification (no query disturbs another one)
PBT_TEST(queries, 15000, 60000) {
    const opcodes_info &i = opcodes_info::instance();
    std::uint64_t n = 1 + g.below(30);
    for (std::uint64_t k = 0; k < n; k++) {
        if (g.flag()) {
            const entry &e = g.pick(spec());
            g.note() << e.name << " ";
            REQUIRE(opcodes_info::instance().get_opcode_value(e.op) == e.byte, e.name << " has another value");
            REQUIRE(opcode_to_string(e.op) == e.name && printed(e.op) == e.name, e.name << " has another name");
        } else {
            std::size_t v = g.chance(1, 4) ? g.bits64() : g.below(256);
            g.note() << v << " ";
            const entry *f = nullptr;
            for (auto &e : spec()) {
                f = e.byte == v ? &e : f;
            }
            bool error = false;
            zkevm_opcode o {};
            try {
                o = i.get_opcode_from_value(v);
            } catch (const std::exception &) {
                error = true;
            }
            REQUIRE(error == !f && (error || o == f->op), "value " << v << " is answered wrongly");
        }
        g.checked();
    }
    g.nontrivial(n > 3);
}

// opcodes outside of the enumeration have no value and no mnemonic of another opcode
PBT_TEST(foreign_opcodes, 2500, 10000) {
    const opcodes_info &i = opcodes_info::instance();
    std::set<long> known;
    for (auto &e : spec()) {
        known.insert(long(e.op));
    }
    // representable in the enumeration, but not one of its members
    long v = 255 - g.range(0, 100);
    if (known.count(v)) {
        return;
    }
    g.note() << "opcode number " << v;
    g.nontrivial();
    bool error = false;
    try {
        i.get_opcode_value(static_cast<zkevm_opcode>(v));
    } catch (const std::exception &) {
        error = true;
    }
    REQUIRE(error, "an opcode which does not exist has a value");
    std::string s = opcode_to_string(static_cast<zkevm_opcode>(v));
    for (auto &e : spec()) {
        REQUIRE(s != e.name, "an opcode which does not exist is named " << s);
    }
}

PBT_MAIN
