#!/usr/bin/env python3
"""Regenerates properties.jsonl from the table below (one entry per property)."""
import json, os, sys

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
         "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


B = "include/nil/blueprint/"
MAN = B + "manifest.hpp"

prop("C01", "Column-count requirements behave as sets of integers",
     "A column-count requirement built as unsatisfiable, a single value, a stepped half-open range or an explicit set "
     "admits exactly the integers it describes: strict membership, iteration, satisfiability and the reported maximum agree "
     "with that set. Intersecting two requirements, in either order, admits exactly the common integers, and subtracting "
     "values admits exactly the remaining ones, whatever representation the operands have. Requirements of one kind "
     "compare equal if made from the same description and not if their integers differ.",
     ["inputs", "histories"],
     "all requirements with non-negative bounds and positive steps, and all chains of intersect/subtract over them",
     "test/manifest.cpp fixes a few dozen operand pairs, almost all aligned to the step; the interplay of offsets, steps and "
     "representations over chains of operations is unbounded.",
     [MAN], [("set-like parameter classes with pairwise intersect/subtract", MAN)],
     ["membership queries and iteration of the result"])

prop("C02", "Merging requirements of sub-components keeps exactly what both can live with",
     "Merging two column-count requirements is satisfiable exactly when both are, does not depend on the order of operands, "
     "never admits a count which neither operand admits or which is below the smallest admissible count of either operand, "
     "keeps every count admitted by both operands and the largest admissible count. A fixed count merged with a range or set "
     "keeps exactly the counts of that range or set that are not below it, or the fixed count itself if there are none. "
     "Two ranges or two sets merge into all their counts that are not below either minimum.",
     ["inputs"],
     "all pairs of requirements with non-negative bounds and positive steps",
     "Existing tests pin a handful of merges; unaligned ranges, incongruent starts and sets below the range are not reached.",
     [MAN], [("merge_with of each parameter representation", MAN)], ["membership queries and iteration of the result"])

prop("C03", "A component is accepted exactly when its column budget is met",
     "A requirement check in its default (at-least) mode accepts a number of witness columns exactly when some admissible "
     "count is not larger than it, and additionally needs a constant column exactly when constants are required. Restricting a "
     "requirement to a compiler's budget leaves exactly the admissible counts which are at most the budget (inclusive), however "
     "the budget was set, and becomes unsatisfiable exactly when none is left or required constants are unavailable.",
     ["inputs", "configurations"],
     "all requirements, all budgets (given at construction or changed afterwards), constants present or absent",
     "Tests use one budget and aligned requirements; the non-strict mode for sets and a budget changed later are never exercised.",
     [MAN, B + "component.hpp"], [("check_manifest / compiler_manifest", MAN)], ["check and satisfiability results"])

prop("C04", "Lookup and constant requirements combine consistently",
     "Combining requirement flags (none, optional, required, unsatisfiable) is commutative, associative and "
     "idempotent; an unsatisfiable operand always dominates; merging yields required as soon as one side requires, otherwise "
     "optional as soon as one side is optional; intersecting required with none is unsatisfiable, otherwise required as soon as "
     "one side is required, otherwise none as soon as one side is none.",
     ["inputs", "histories"],
     "all flags and all sequences of merge/intersect over them",
     "Tests enumerate only the constant merge table, not lookup flags, chains or whole manifests.",
     [MAN], [("flag lattice", MAN)], ["resulting flag, its printed form"])

prop("C05", "Gate totals count every distinct gate family exactly once",
     "The gate total of a gate manifest is the sum over distinct gate families added to it, directly or through merged "
     "manifests, where adding an equivalent family again changes nothing. The total and the set of families do not depend on "
     "the order or grouping in which families were added and merged, copies are independent of their source, and merging never "
     "changes the manifest which is merged in.",
     ["histories"],
     "all sequences of add/merge/copy over gate families of several classes with parametrised equivalence",
     "Tests merge a few fixed component manifests; orders, re-adding and aliasing are unbounded.",
     [MAN], [("component_gate_manifest_comparison, std::set of families", MAN)], ["get_gates_amount, component_gate_manifests"])

prop("C06", "Task balancing is total, within range and near-optimal",
     "Distributing tasks over agents assigns every task to exactly one existing agent, for any task sizes including zeros and "
     "for any positive number of agents. The largest agent load is at most 11/9 of the optimum and the outcome does not depend "
     "on anything but the given list.",
     ["inputs"],
     "all lists of tasks with arbitrary identifiers and sizes, all positive numbers of agents",
     "test/detail/huang_lu.cpp compares a few random instances with brute force; zero sizes, more agents than tasks, ties, "
     "large sizes and identifiers which are not 0..n-1 are not covered.",
     [B + "detail/huang_lu.hpp"], [("first-fit-decreasing under a binary-searched threshold", B + "detail/huang_lu.hpp")],
     ["returned assignment"])

prop("C07", "Built-in and loaded SHA-2 lookup tables are complete and correct",
     "The built-in base-4 and base-7 tables list exactly once every pair of a byte and a sparse number whose eight digits have the byte's "
     "bits as parities and can occur as digit sums of the SHA-256 sigma functions (all digit strings for base 4, those "
     "attainable with rotations by 6, 11 and 25 for base 7). A table read from text is returned column by column exactly as written, "
     "for every field element; malformed or short input is reported as a failure and makes "
     "the loader go on to the next candidate file.",
     ["inputs", "fault_sequences"],
     "all built-in tables; all well-formed table texts and all truncations/corruptions of them",
     "No test reads a table from text; built-in tables are only exercised through whole-hash tests needing the proving library.",
     [B + "detail/lookup_table_loaders.hpp", B + "detail/lookup_table_precomputes.hpp"],
     [("parse/load functions", B + "detail/lookup_table_loaders.hpp"), ("tables", B + "detail/lookup_table_precomputes.hpp")],
     ["returned rows and success flag"])

prop("C08", "SHA-2 sparse splitting and its inverses are exact",
     "Splitting a bit string into chunks returns, for every chunk, its value and the value with the same bits written in the given base, "
     "least significant chunk first. Recovering from a sparse sum yields for every chunk the parity of the digit, the majority bit, or the "
     "choice bit of that position according to the variant used, for every combination of digits that legitimately occurs.",
     ["inputs"],
     "all bit strings, chunk partitions, bases and legitimately occurring digit strings",
     "Only fixed hash inputs reach these functions in tests, with the fixed SHA-2 partitions.",
     [B + "components/hashes/sha2/plonk/detail/split_functions.hpp"],
     [("split_and_sparse, reversed_sparse_and_split*", B + "components/hashes/sha2/plonk/detail/split_functions.hpp")],
     ["returned chunk arrays"])

prop("C09", "EVM opcode numbering is the standard bijection",
     "Every supported EVM opcode has the byte value, and every supported byte value the opcode, of the EVM specification; the "
     "two directions are inverse to each other and names printed for opcodes are their mnemonics, pairwise distinct. Asking for a "
     "value or opcode that is not supported is an error, never another opcode's data.",
     ["inputs"],
     "all 256 byte values and all opcodes",
     "Tests construct a few opcodes only.",
     [B + "zkevm/zkevm_opcodes.hpp"], [("bimap singleton", B + "zkevm/zkevm_opcodes.hpp")], ["number/opcode/name lookups"])

ZK = B + "zkevm/"
prop("C10", "zkEVM arithmetic instructions accept exactly 256-bit EVM results",
     "For any program of supported instructions and any 256-bit operands, the generated trace satisfies the generated "
     "constraints. Replacing the result words of an instruction by any other in-range words makes the constraints fail, "
     "so an accepted trace carries the EVM results modulo 2^256, with division by zero giving zero.",
     ["inputs", "programs"],
     "all programs over the supported instructions, all operand words including boundary values",
     "Tests run a handful of operands and check only that the honest trace is accepted.",
     [ZK + "operations/add_sub.hpp", ZK + "operations/mul.hpp", ZK + "operations/div.hpp", ZK + "operations/iszero.hpp",
      ZK + "zkevm_circuit.hpp", ZK + "zkevm_word.hpp", ZK + "stack.hpp"],
     [("per-opcode gates and assignment generation", ZK + "operations/")], ["satisfaction of constraints by honest and altered traces"])

prop("C11", "zkEVM words and bytecode tables represent values faithfully",
     "Every 256-bit word is split into its 16-bit pieces, lowest first, without loss, and the machine stack returns words as it was "
     "given them through every sequence of pushes, pops, swaps and duplications. A bytecode table laid out from contracts lists every byte with "
     "its position, its value and whether it is an opcode or push data, and its constraints accept this marking, these remaining lengths and the combination of these bytes and no other.",
     ["inputs", "programs"],
     "all words; all sequences of stack operations; all sequences of opcodes and push payloads, also cut ones",
     "Tests check a few constants.",
     [ZK + "zkevm_word.hpp", ZK + "bytecode.hpp"], [("word type over modular integers", ZK + "zkevm_word.hpp")],
     ["converted values, table contents"])

prop("C12", "zkEVM state transitions and selectors admit exactly what they describe",
     "Transition constraints hold for consecutive rows exactly when each state variable behaves as its transition says (unchanged, "
     "changed by the given amount, set to the given value, unrestricted, or by default one more for the program counter and unchanged for the rest). "
     "The row selector is satisfied for every index of an option and for nothing else, and its selecting expression is nonzero for that option "
     "and zero for every other one. In the trace of a program the rows of an instruction are counted down to zero, keep the instruction and the state and are followed by "
     "the first row of an instruction, and a trace in which a row differs in one of these is refused.",
     ["inputs", "configurations", "programs"],
     "all transition kinds and values, all numbers of options and all indices, all programs",
     "Tests check one hand-written transition and one selector size.",
     [ZK + "state.hpp", ZK + "state_selector.hpp", ZK + "zkevm_circuit.hpp"], [("generated constraints", ZK + "state.hpp")], ["satisfaction of constraints"])

prop("C13", "Gates are shared exactly when they are the same gate",
     "Adding a gate or lookup gate that is equal to one present up to order of its constraints returns the "
     "selector already in use, and any other gate receives a selector of its own. Two gates with different constraints never share a "
     "selector, in whatever order and however often gates are added.",
     ["inputs", "histories"],
     "all sequences of gate and lookup gate additions with arbitrary constraints",
     "test/gate_id.cpp compares a few hand-made gates.",
     [B + "gate_id.hpp", B + "blueprint/plonk/circuit.hpp"], [("gate ids by value at random points", B + "gate_id.hpp")],
     ["returned selector indices, stored gates"])

prop("C14", "The satisfiability check accepts exactly satisfying tables",
     "A filled table is reported as satisfying a circuit exactly when every gate constraint evaluates to zero on every row its selector is enabled on, every "
     "lookup constraint's values form a row of the referenced table there, and every copy constraint connects equal cells. "
     "The verdict is unaffected by rows and selectors that no constraint refers to.",
     ["inputs", "programs"],
     "all circuits with gates, lookups over several tables and copy constraints, and all tables, satisfying or altered in one cell",
     "Tests only ask whether honest component tables pass; nothing checks that a violation of each kind is reported.",
     [B + "utils/satisfiability_check.hpp"], [("is_satisfied", B + "utils/satisfiability_check.hpp")], ["returned verdict"])

prop("C15", "The connectedness check reports exactly the unconnected components",
     "A component is reported connected exactly when every cell used by its constraints is linked to its inputs or outputs through gates, lookups and "
     "copy constraints, and all inputs and outputs are linked to each other (strong form) or each input to some output and each output to some input (weak form).",
     ["inputs", "programs"],
     "all circuits over the rows of a component and all choices of input and output variables",
     "Tests use a few hand-built graphs.",
     [B + "utils/connectedness_check.hpp"], [("zone computation over copy constraints and gates", B + "utils/connectedness_check.hpp")],
     ["returned verdict"])

prop("C16", "Batching is transparent to results",
     "Adding component instances and constants through batching and finalizing later yields, for every added instance, a result cell "
     "with the value the component computes on that instance's inputs, and for every constant a cell holding it, regardless of duplicates, order and how many "
     "fit in a row. The finalized circuit is satisfied, and each distinct instance is computed once.",
     ["inputs", "histories"],
     "all sequences of additions, with repeated inputs, results feeding into each other's neighbours and constants",
     "Tests use one fixed sequence.",
     [B + "component_batch.hpp", B + "blueprint/plonk/assignment.hpp"],
     [("input batches with placeholder outputs remapped on finalization", B + "component_batch.hpp")],
     ["values of result variables, satisfaction"])

prop("C17", "Stretching a component preserves its behaviour",
     "A component spread over several column groups computes the same results as the original one on every input, its constraints are satisfied, "
     "and it occupies no cell outside of the rows and columns it declares. A change of one of its cells violates the constraints exactly when it does in the original one.",
     ["inputs", "configurations"],
     "all inputs of stretched components and all stretching factors",
     "Tests stretch few components on few inputs.",
     [B + "component_stretcher.hpp", B + "utils/gate_mover.hpp", B + "detail/huang_lu.hpp"], [("zone balancing and gate moving", B + "component_stretcher.hpp")],
     ["result values, satisfaction, used cells"])

prop("C18", "Splitting a circuit between provers loses nothing",
     "When a circuit and its table are distributed over several provers, every gate, lookup gate and copy constraint recorded for a prover is one of the common circuit, together the "
     "provers cover all that was generated through them, and the common circuit and table are those the same calls make without provers. Each prover sees the values of the common table, "
     "exports and lists exactly the rows, gates, copy constraints and tables it uses, reports on demand a value read from a row of others, and is told whether the gates and copy constraints it uses hold.",
     ["programs", "histories"],
     "all interleavings of generation calls through several proxies over one table",
     "test/proxy.cpp checks one two-prover scenario.",
     [B + "blueprint/plonk/circuit_proxy.hpp", B + "blueprint/plonk/assignment_proxy.hpp"],
     [("proxies recording used rows, gates, selectors", B + "blueprint/plonk/circuit_proxy.hpp")], ["used gates/rows/copy constraints, cell values"])

prop("C19", "Library lookup tables contain exactly the relation they are named after",
     "Every lookup table the library can build contains exactly the tuples of its relation (bitwise xor and and of two bits, all values "
     "below a bound, sparse forms in their bases and back, majority and choice, known opcodes with their sizes of pushed data), and each named sub-table covers the columns and rows it promises. A circuit gets "
     "the tables it asks for, numbered from 1 in the order of the first requests; a table read from text has exactly the values written there, and damaged text is refused.",
     ["configurations", "inputs"],
     "all tables of the library and all their named sub-tables, all sequences of requests, all tables written as text",
     "Tests only use tables through components on honest values.",
     [B + "lookup_library.hpp", B + "detail/lookup_table_loaders.hpp", B + "detail/lookup_table_precomputes.hpp", B + "components/hashes/sha2/plonk/detail/split_functions.hpp"],
     [("table definitions with generate()", B + "lookup_library.hpp"), ("reading tables", B + "detail/lookup_table_loaders.hpp")], ["generated rows per sub-table"])

prop("C20", "Field arithmetic components compute and enforce the field operation",
     "For every input, the addition, subtraction, multiplication, division (also the one which gives zero for a zero divisor), multiplication by a constant, exponentiation, square "
     "root and interpolation components produce the mathematical result and a satisfied circuit. With the inputs kept, no other "
     "value of the output satisfies the constraints.",
     ["inputs"],
     "all field elements including zero, one, minus one and non-residues",
     "Tests check honest assignments on some values, never that a wrong output is rejected.",
     [B + "components/algebra/fields/plonk/"], [("component gates", B + "components/algebra/fields/plonk/")],
     ["output values, satisfaction of honest and altered tables"])

prop("C21", "Range checks and bit conversions accept exactly the right values",
     "Range checks accept exactly the values below the bound; bit decomposition, composition and shifts by a constant produce the "
     "bits or shifted values of every admissible input in the requested order and reject any other output and any input out of range.",
     ["inputs", "configurations"],
     "all bit amounts, bit orders, shift amounts and column counts; admissible and inadmissible values",
     "Tests use a few sizes and check rejection only for a few fixed bad inputs.",
     [B + "components/algebra/fields/plonk/non_native/", B + "components/algebra/fields/plonk/range_check.hpp"],
     [("chunked decompositions", B + "components/algebra/fields/plonk/")], ["output values, satisfaction"])

prop("C22", "Comparisons, equality and division with remainder are exact",
     "Comparison components decide less, less-or-equal, greater and greater-or-equal exactly over the declared bit width, equality is exact over the whole field, and division yields the unique quotient and "
     "remainder below the divisor. The checked comparison is satisfied exactly when the relation holds, and wrong flags, quotients or remainders are rejected.",
     ["inputs", "configurations"],
     "all operand pairs with boundary differences, all modes, bit widths and column counts",
     "Tests sample random pairs for a few widths and rarely equal or adjacent ones.",
     [B + "components/algebra/fields/plonk/non_native/"], [("difference range checks", B + "components/algebra/fields/plonk/non_native/")],
     ["output values, satisfaction"])

prop("C23", "Boolean logic components implement their truth tables",
     "Not, and, or, xor, nand, nor and their lookup and flag variants yield the truth-table value for every boolean input (for flag variants: for every field element taken as truth "
     "value), and no other output satisfies the constraints.",
     ["inputs"],
     "all boolean inputs; all field elements for flag variants",
     "Tests check honest values only.",
     [B + "components/algebra/fields/plonk/non_native/logic_ops.hpp", B + "components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp", B + "components/algebra/fields/plonk/logic_and_flag.hpp",
      B + "components/algebra/fields/plonk/logic_or_flag.hpp"],
     [("gates or lookup tables", B + "components/algebra/fields/plonk/non_native/")], ["output values, satisfaction"])

prop("C24", "Non-native field arithmetic is exact modulo the foreign prime",
     "Addition, subtraction and multiplication of numbers below 2^255-19 held in limbs of 66, 66, 66 and 57 bits give the limbs of the result modulo that prime, the reduction of 512-bit numbers gives the value modulo the order "
     "of the curve, and the parts of a scalar are its 22-bit digits; the constraints hold for the table filled in this way. The range check of limbs refuses its own filling for numbers which are too large, and what is filled in for "
     "other operands, as a whole or in a part of the rows, is not accepted with a wrong result.",
     ["inputs"],
     "all pairs of foreign field elements including zero and values around the prime and around the limits of limbs",
     "Tests use random values and a few fixed ones, which do not meet carries at the limits of limbs.",
     [B + "components/algebra/fields/plonk/non_native/"], [("limb arithmetic with quotients", B + "components/algebra/fields/plonk/non_native/")],
     ["output values, satisfaction"])

prop("C25", "Curve components implement the group law",
     "On both Pasta curves the unified addition gives the sum of every pair of points including equal, opposite and infinite ones, the variable base multiplication gives the multiple by the scalar encoded in its input, "
     "and the endomorphism component gives the scalar of its 128-bit challenge. The constraints hold for these results and for no other ones, and scalars not below the group order are rejected.",
     ["inputs"], "all points, scalars and challenges",
     "Tests use a few random points and never look whether a wrong result is refused.",
     [B + "components/algebra/curves/pasta/plonk/"], [("component gates and copy constraints", B + "components/algebra/curves/pasta/plonk/")],
     ["output values, satisfaction"])

prop("C26", "In-circuit Poseidon equals the permutation it is defined by",
     "Both Poseidon components (fixed and configurable width) output the permutation of the Kimchi proof system (55 full rounds, seventh powers) of their input state for every input, in every supported layout, in a "
     "circuit with gates of other components too, over the base fields of Pallas and Vesta. The constraints hold for it and for no other output state.",
     ["inputs", "configurations"], "all input states and column counts",
     "Tests use fixed and few random states.",
     [B + "components/hashes/poseidon/plonk/", B + "components/systems/snark/plonk/flexible/poseidon.hpp"], [("round gates", B + "components/hashes/poseidon/plonk/")], ["output values, satisfaction"])

prop("C27", "In-circuit SHA-2 equals SHA-2",
     "The SHA-256 and SHA-512 compression components output the standard value for every state and block of words, the SHA-256 component the hash of its four 128-bit inputs and the SHA-512 component the value "
     "for its packed points and message, and the decomposition the 32-bit words, highest first. The circuit is satisfied in each case, with every intermediate lookup found in its table.",
     ["inputs"], "all message blocks and states",
     "Tests hash a few constants; carries of the modular sums and the restricted lookup tables depend on the data.",
     [B + "components/hashes/sha2/plonk/"], [("sparse lookups", B + "components/hashes/sha2/plonk/")], ["output values, satisfaction"])

prop("C28", "Flexible vector components compute element-wise results",
     "The configurable-width addition and multiplication return element-wise results, the constant power component the power for every exponent, the power-factor component the value of the polynomial with the given "
     "coefficients, highest first, and the swap exchanges its operands if the flag is 1, for every number of elements and columns. The circuit is satisfied and rejects any other output, and flags other than 0 and 1.",
     ["inputs", "configurations"], "all vector lengths, column counts and field elements",
     "Tests try some lengths and check honest results.",
     [B + "components/systems/snark/plonk/flexible/"], [("layout computed from column count", B + "components/systems/snark/plonk/flexible/")],
     ["output values, satisfaction"])

prop("C29", "In-circuit verifier parts agree with their polynomial definitions",
     "The permutation argument (of at least two columns), gate argument, lookup argument, summation loops, gate combination, expression evaluation, final polynomial and FRI parts (swap, cosets, interpolation) of the "
     "in-circuit verifier return the values of their defining formulas for every size and input. The circuit is satisfied and rejects other outputs.",
     ["inputs", "configurations"], "all sizes and field elements",
     "Tests use small fixed sizes.",
     [B + "components/systems/snark/plonk/placeholder/"], [("component gates", B + "components/systems/snark/plonk/placeholder/")],
     ["output values, satisfaction"])

prop("C30", "Declared resources match what a component really uses",
     "A component uses exactly the number of rows and gates it announces beforehand and stays inside its declared rows and columns; the columns it announces to need, constant ones included, are those it needs. "
     "The variables it lists as its inputs are exactly those it is given. What it announces (rows, gates, admissible column counts) follows from its own "
     "parameters only, whatever was asked or built before.",
     ["configurations"], "all components, admissible column counts and start rows",
     "Tests check a few configurations per component.",
     [B + "components/"], [("get_rows_amount, get_gate_manifest, get_manifest", B + "components/")], ["used rows, gates and cells"])

prop("C31", "Results do not depend on placement",
     "Placing a component at any start row, in any arrangement of its witness and constant columns, and after any other components gives the same outputs, a satisfied circuit, and leaves cells of other components "
     "untouched.",
     ["configurations", "programs"], "all start rows, column arrangements and neighbours",
     "Tests place components at row 0 with columns in order.",
     [B + "components/", B + "component.hpp"], [("W/C/PI column mapping, start row offset", B + "component.hpp")], ["output values, satisfaction"])

prop("C32", "Tables keep what is stored in them and export it exactly",
     "Values stored in witness, public input, constant and selector cells read back unchanged and no other cell changes; columns report a size covering every stored cell; a variable refers to the value "
     "at its cell, and one standing for a value kept outside the table refers to that value. Exports list exactly the stored values.",
     ["histories"], "all sequences of stores and reads",
     "test/private_input.cpp stores a few values.",
     [B + "blueprint/plonk/assignment.hpp"], [("assignment accessors", B + "blueprint/plonk/assignment.hpp")],
     ["cell reads, sizes, exported text"])

prop("C33", "Release-mode assertions and compile-time powers hold in every build",
     "A failed release assertion throws an error naming the failed expression, file and line and never continues, in every build mode; "
     "debug assertions do the same when debugging is enabled and otherwise do nothing; a successful "
     "assertion has no effect and evaluates its condition exactly once. The compile-time power helper equals repeated multiplication for every base and exponent whose power fits.",
     ["inputs", "configurations"], "all conditions and messages, with and without debug assertions; all bases and exponents",
     "No test makes an assertion fail.",
     [B + "assert.hpp", "include/nil/detail/static_pow.hpp"], [("macro", B + "assert.hpp")], ["thrown error, computed value"])

prop("C34", "Points of the foreign Edwards curve are added and multiplied in limbs",
     "For points of the curve -x^2+y^2=1+dx^2y^2 over the integers modulo 2^255-19, including the neutral element and points of small order, the components give the limbs of the sum, the double, the point chosen by a bit, the double plus the "
     "chosen point, and the multiple by a scalar of up to 253 bits, with a satisfied circuit. A choice by anything but a bit is refused, and what is filled in for other points or scalars, as a whole or in a part of the rows, "
     "is not accepted with a wrong result.",
     ["inputs"], "all points and scalars",
     "Tests use random multiples of one point and a handful of scalars and never look whether a wrong result is refused.",
     [B + "components/algebra/curves/edwards/plonk/non_native/"], [("composition of non-native field components", B + "components/algebra/curves/edwards/plonk/non_native/")],
     ["output values, satisfaction"])

prop("C35", "Field elements and 64-bit limbs are turned into each other exactly",
     "The component for joining gives the field element made of two 64-bit limbs, and the one for splitting gives the four 64-bit limbs of the least representative of a field element, with a satisfied circuit. "
     "A result other than these is not accepted, in particular not the limbs of the element plus a multiple of the modulus.",
     ["inputs"], "all pairs of limbs and all elements of both Pasta fields, which are moduli of 255 bits",
     "Tests split and join a few elements and never look whether other limbs of the same element are refused.",
     [B + "components/systems/snark/plonk/kimchi/detail/limbs.hpp"], [("range checks and comparison with the modulus", B + "components/systems/snark/plonk/kimchi/detail/limbs.hpp")],
     ["output values, satisfaction"])

only = None
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
