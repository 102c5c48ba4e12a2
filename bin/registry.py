"""Harnesses of every checked property."""

_COMMON = ["-std=c++17", "-g1", "-w"]
PROFILES = {
    # sanitized, with debug-mode containers: for code which needs nothing but the standard library and Boost
    "san": _COMMON + ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_DEBUG"],
    # circuits
    "opt": _COMMON + ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fconstexpr-ops-limit=4294967295"],
}

CHECKS = {}


def check(pid, rule, harnesses, assumptions=()):
    CHECKS[pid] = {"rule": rule, "harnesses": harnesses, "assumptions": list(assumptions)}


def h(name, sources=None, profile="san", **kw):
    d = {"name": name, "sources": sources or [name + ".cpp"], "profile": profile}
    d.update(kw)
    return d


check("C01", "the operands describe at least two counts each (or the operation removes some but not all counts)", [h("c01_sets")],
      ["bounds are non-negative and below 600, steps are between 1 and 30"])
check("C02", "both operands admit at least two counts (chains: all operands are satisfiable)", [h("c02_merge")],
      ["bounds are non-negative and below 600, steps are between 1 and 30"])
check("C03", "the requirement admits at least two counts and the budget cuts some of them off", [h("c03_budget")])
check("C04", "chain of at least two operations, or a triple of flags for the laws", [h("c04_flags")])
check("C05", "at least one merge of a non-empty manifest into another one", [h("c05_gates")])
check("C06", "more than one agent and more tasks than agents", [h("c06_balance")],
      ["the sum of sizes fits in 63 bits"])
check("C07", "at least two rows or two candidate files; built-in tables completely", [h("c07_tables")])
check("C08", "at least two chunks", [h("c08_sparse")], ["sparse values are below the field modulus"])
check("C09", "every case queries existing and non-existing opcodes", [h("c09_opcodes")])
check("C33", "every build mode and form of assertion; powers with base and exponent at least 2",
      [h("c33_assert", ["c33_assert.cpp", "c33_plain.cpp", "c33_ndebug.cpp", "c33_debug.cpp", "c33_debug_ndebug.cpp"])])

check("C13", "a gate is met again and at least two selectors are in use (identities, copies: pairs of both kinds)",
      [h("c13_gates", profile="opt")], ["polynomials of degree at most 3, up to 26 constraints per gate", "different gates get the same identity with negligible probability"])
check("C14", "the changed table is refused (parts: every case)", [h("c14_satisfied", profile="opt")],
      ["tables of 3 to 12 rows; rotations do not leave the table"])
check("C15", "some of the verdicts are positive and some negative", [h("c15_connected", profile="opt")],
      ["components of up to 5 rows"])
check("C16", "a repeated computation or a batched constant", [h("c16_batch", profile="opt")],
      ["at most 14 additions of six kinds of components, one of them with parameters and made for the check"])

check("C18", "more than one prover and at least two gates or copy constraints", [h("c18_provers", profile="opt")],
      ["at most 4 provers and 40 calls; at most 5 tables, all reserved first"])
check("C19", "every table of the library; at least three names reserved; at least two rows of text", [h("c19_tables", profile="opt")],
      ["the relation of the table for reversed base 7 is that of a byte of the sum of three rotations by 6, 11 and 25"])
check("C32", "at least three stores, at least two gates or copy constraints", [h("c32_storage", profile="opt")],
      ["at most 60 rows, 24 calls"])
check("C10", "a program which was accepted; a wrong result was put into the trace", [h("c10_zkevm", profile="opt")],
      ["pieces of words and of long carries are assumed to be below 2^16, as the range checks are still to be written",
       "a word lies in neighbouring columns of one row; otherwise only acceptance of honest traces is checked",
       "the columns which select the instruction and its row are left as they are",
       "numbers and fields are computed by an own implementation of the field library"])
check("C11", "a word; at least one pop; contracts whose table was accepted", [h("c11_words", profile="opt")],
      ["bytes at the places of opcodes are opcodes of the Cancun revision", "contracts of at most 42 bytes, at most three of them"])
check("C12", "rows which follow or break the transition; a selected option; a changed trace", [h("c12_state", profile="opt"), h("c12_steps", profile="opt")],
      ["at most 160 options", "fields of pallas and goldilocks", "programs of up to five instructions; one kind of change at a time"])

# One binary per family of components; the three kinds of questions about them belong to different properties.
COMPONENTS = {
    "comp_field": "C20",
    "comp_bits": "C21",
    "comp_compare": "C22",
    "comp_logic": "C23",
    "comp_foreign": "C24",
    "comp_curves": "C25",
    "comp_poseidon": "C26",
    "comp_sha": "C27",
    "comp_flexible": "C28",
    "comp_placeholder": "C29",
    "comp_edwards": "C34",
    "comp_limbs": "C35",
}
_FIELD = "fields of the curves pallas and vesta, computed by an own implementation of the field library"


def comp(name, kind):
    return h(name, profile="opt", only="*." + kind)


for _name, _pid in COMPONENTS.items():
    check(_pid, "operands other than 0 and 1 (truth values: every case)", [comp(_name, "correct"), comp(_name, "crossed")],
          [_FIELD, "other solutions are searched by repairing randomly broken fillings, not exhaustively"])
check("C30", "as for the single components", [comp(n, "resources") for n in COMPONENTS] + [h("c30_manifest", profile="opt")], [_FIELD])
check("C31", "as for the single components", [comp(n, "placement") for n in COMPONENTS], [_FIELD])
STRETCHED = ["comp_foreign", "comp_curves", "comp_sha", "comp_edwards", "comp_limbs"]
check("C17", "at least two uses of gates, and fewer rows than before; for real components as for the single ones",
      [h("c17_stretch", profile="opt")] + [comp(n, "stretched") for n in STRETCHED],
      ["synthetic components of 1 to 12 rows and 2 or 3 columns with up to 6 gates, one constant column, no dynamic tables; stretching by 1 to 4",
       "real components: SHA-2, scalar multiplication, non-native multiplication, Edwards points, 64-bit limbs", _FIELD])
