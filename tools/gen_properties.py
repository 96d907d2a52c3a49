#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

EV="src/evaluator.rs"; BC="src/bool_circuit.rs"; BR="src/bristol_converter.rs"; INT="src/circuits/arithmetic/int.rs"
LG="src/circuits/logic/mod.rs"; FP="src/circuits/finite_field/mod.rs"; UT="src/utils.rs"; GT="src/gates.rs"
AR="src/circuits/arithmetic/mod.rs"; CM="src/circuits/mod.rs"; CR="src/circuits/cryptography/mod.rs"

p("C01","Evaluation returns exactly what the gate graph defines",
  "For every circuit built from inputs, constants, NOT, AND, OR, XOR, EQUIVALENT and IDENTITY gates and every input assignment of the right length, evaluating the circuit succeeds and yields, for each declared output in order, the value the gate graph defines for it. This holds whatever the sharing: a gate feeding many gates, feeding both sides of one gate, being declared as output several times, being an output and also feeding other gates, or being an input or constant declared as output directly. Evaluating again, with the same or other inputs, is not affected by earlier evaluations, and an evaluator follows a circuit that has grown since.",
  ["programs","inputs","histories"],"all circuits (bounded number of gates, any wiring and output list), all input bits, repeated evaluations",
  "The tests evaluate six hand-written circuits with one output each; no test declares an intermediate gate as output, shares a gate between outputs, or evaluates under all inputs.",
  [EV,BC],[("eval_output / eval_single_output / eval_single_gate",EV),("gate_dependence_map and the reference counts that free evaluated bits",EV)],
  ["NXAOBoolEvaluator::eval_output"],[("evaled_map","bits computed so far, dropped when the last consumer ran",EV),("num_depend_map","consumers left per gate",EV)])

p("C02","A module call behaves as the module's circuit inlined at the call",
  "For every circuit that calls registered modules - several times, with any argument wiring, nested, with several outputs, with constants inside, with outputs that are the module's own inputs - evaluation yields for each call output the value obtained by inlining the module's gates at that call. Calls are independent of each other and of the order in which their outputs are used. This also holds for modules created as sub-circuits and for modules shared between different circuits.",
  ["programs","inputs"],"all two/three-level module hierarchies within the bound, all argument wirings, all input bits",
  "One test calls one two-input, one-output module once; nothing samples multi-output modules, nesting, repeated calls or partially used outputs against inlining.",
  [EV,BC],[("module() creates one gate per module output",BC),("Module arm of eval_single_gate",EV)],
  ["BoolCircuit::module","NXAOBoolEvaluator::eval_output"])

p("C03","Circuit size queries match the flattened circuit",
  "After any sequence of construction calls in which modules are complete when they are called, the reported numbers of inputs, outputs, constants, gates and wires of a circuit equal those of the circuit with every module call inlined: a wire per input, per constant and per logic gate, where a call adds the called module's gates, constants and internal wires once per call. Construction never fails or aborts because of these counts. The reported dependents of a gate are exactly the gates that consume it.",
  ["histories","programs"],"all bounded construction histories including module calls of any shape (pass-through outputs, repeated outputs, nested calls)",
  "Tests check only input_len and output_len of tiny flat circuits; no test looks at gate, wire or constant counts, which the Bristol header is made of.",
  [BC],[("input/constant/not/xor/and/or/module counters",BC),("add_dependence",BC)],
  ["input_len, output_len, num_gate, num_wire, num_const, get_depended_gates"])

p("C04","Exported Bristol text means the same as the circuit",
  "For every circuit (including module calls, constants, unused gates, and any choice of outputs), the text the Bristol writer produces is well-formed - the header gives the true number of gate lines and wires, every wire is assigned once and before use, the output wires are the last ones - and interpreting it by the Bristol rules on the circuit's inputs followed by the constant values the writer returns gives exactly the circuit's outputs in order. The declared input group sizes add up to the inputs plus returned constants, the first being the size the caller asked for. If an export cannot be represented, an error is returned rather than wrong text.",
  ["programs","inputs"],"all bounded circuits, all output selections, all input bits; the emitted text is interpreted by an independent reader",
  "Tests round-trip four one-gate circuits and only check that one module export can be read; no test compares functions, uses constants, or has several outputs.",
  [BR],[("BristolNXAOWriter::write, write_all_gates, write_single_gate, update_wire",BR),("header from num_gate / num_wire / num_const",BC)],
  ["text written by BristolNXAOWriter::write and the returned constants"])

p("C05","Imported Bristol text yields a circuit computing that text",
  "For every well-formed Bristol Fashion text over INV, XOR, AND, OR, EQ (constant assignment) and EQW (wire copy) with any number of input and output groups and any wire numbering, reading succeeds and the resulting circuit has as many inputs and outputs as declared and computes, for all input values, what the text defines, outputs being the last wires in order. Reading into an existing circuit appends and leaves existing gates and outputs unchanged.",
  ["inputs","programs"],"all bounded gate lists, wire numberings, group shapes and whitespace layouts; all input bits",
  "Tests read text produced by the writer for one-gate circuits, and evaluate bundled files on one random input checking only commutativity or nothing at all.",
  [BR],[("BristolReader::read",BR)],["BristolReader::read then NXAOBoolEvaluator::eval_output"])

p("C06","Malformed Bristol text is rejected with an error, never a crash",
  "For every text that is not a well-formed Bristol circuit - missing or short lines, non-numeric fields, unknown gate types, gate lines whose arity does not fit the gate, wires used before being assigned, output wires never assigned, more outputs than wires - reading returns an error and never success. Whatever the text, reading does not panic (declared sizes beyond the available memory excepted).",
  ["inputs"],"all texts within the bound: symbolic numeric fields and truncations of each header and gate line",
  "No test feeds the reader anything but text the writer produced or a bundled file.",
  [BR],[("field parsing and lookups in BristolReader::read",BR)],["result of BristolReader::read"])

p("C07","Export followed by import preserves the function",
  "For every circuit, exporting it in Bristol format and reading that text back gives a circuit which, on the original inputs followed by the exported constant values, computes the same outputs as the original. Sizes survive too: the read circuit has the declared inputs and outputs, and for a module-free, constant-free circuit without unused gates whose outputs need no copies it has an equal gate count.",
  ["programs","inputs"],"all bounded circuits incl. modules and constants, all input bits",
  "Round-trip tests exist for four single-gate circuits only and compare structures, never functions; with constants or two outputs nothing is tested.",
  [BR,BC,EV],[("writer and reader composed",BR)],["write -> read -> eval_output"])

p("C08","Bundled 64-bit adder, subtractor and negator are exact",
  "The bundled 64-bit adder, subtractor and negation circuits, loaded through the library, compute a+b, a-b and -a modulo 2^64 on little-endian bit vectors for every pair of 64-bit operands.",
  ["inputs"],"all 2^128 (2^64) operand values",
  "Tests check that addition commutes on one random all-equal bit pattern and that negating twice is the identity there; subtraction is never tested.",
  [AR,CM,BR,EV],[("build_adder64, build_sub64, build_neg64",AR)],["build_adder64/build_sub64/build_neg64 then eval_output"])

p("C09","Bundled 64x64 multiplier gives the full 128-bit product",
  "The bundled 64-bit multiplication circuit, loaded through the library, yields the high and then the low 64-bit word of the exact 128-bit unsigned product for every pair of operands.",
  ["inputs"],"all 2^128 operand pairs",
  "The test only checks commutativity of the low word on one random all-equal bit pattern.",
  [AR,CM,BR,EV],[("build_mult2_64",AR)],["build_mult2_64 then eval_output"])

p("C10","Bundled 64-bit division circuits compute quotients",
  "The bundled unsigned and signed 64-bit division circuits, loaded through the library, yield the quotient (for the signed one, truncated toward zero, the least dividend divided by -1 giving itself) for every dividend and every non-zero divisor.",
  ["inputs"],"all 64-bit dividends and non-zero divisors",
  "No test touches the division circuits.",
  [AR,CM,BR,EV],[("build_divide_unsigned_64, build_divide_signed_64",AR)],["build_divide_*_64 then eval_output"])

p("C11","Bundled AES-128 circuit equals FIPS-197 AES-128",
  "The bundled AES-128 circuit, loaded through the library, maps every key and plaintext block to the AES-128 ciphertext of FIPS-197, the block being the first and the key the second input, bytes in order and each most significant bit first.",
  ["inputs"],"all 2^256 key/plaintext pairs",
  "The test evaluates the circuit once on an all-equal-bits random input and ignores the result.",
  [CR,CM,BR,EV],[("build_aes128",CR)],["build_aes128 then eval_output"])

p("C12","AllocInt addition, subtraction, negation, product are exact mod 2^N",
  "For every width N and all operand values, integers allocated in a circuit and combined with +, -, unary -, * or the corresponding assigning operators evaluate to the exact two's-complement result modulo 2^N. Operands may be inputs, constants, the same integer twice, or results of other operations, and operands are not changed by being used.",
  ["inputs","configurations"],"all operand values at each listed width; operator chains",
  "One test checks a distributivity equation at N=256 on one random triple, which a wrong but linear operator also satisfies.",
  [INT],[("build_add_circuit, build_sub_circuit, build_mul_circuit and the operator impls",INT)],["AllocInt operators, output(), eval_output"])

p("C13","AllocInt comparisons agree with two's-complement order",
  "For every width N and all operand pairs, equality, inequality, less, less-or-equal, larger and larger-or-equal of allocated integers evaluate to the truth value of that relation between the operands read as N-bit two's-complement integers. In particular exactly one of less, equal and larger holds, also for operands whose difference does not fit in N bits.",
  ["inputs","configurations"],"all operand pairs at each listed width",
  "Tests compare a random x with x+1 and x-1 only, so operands of far distance or opposite sign are never compared.",
  [INT,LG],[("build_less_circuit and derived comparators, build_eq_circuit, build_neq_circuit",INT)],["AllocInt::{eq,neq,less,less_or_eq,larger,larger_or_eq}"])

p("C14","AllocInt shifts are exact for every amount",
  "For every width N, every value and every shift amount, shifting an allocated integer left gives the value times 2^k modulo 2^N and shifting right gives the value divided by 2^k rounded toward minus infinity (sign extending), the result again having exactly N bits.",
  ["inputs","configurations"],"all values, all shift amounts from 0 past N, each listed width",
  "No test calls the shifts directly.",
  [INT],[("shift_left, shift_right",INT)],["AllocInt::{shift_left,shift_right}, output()"])

p("C15","Constants and allocations denote the given value",
  "For every width N, an integer made from a big unsigned number that fits in N bits, from zero, from one, or from at most N existing bits evaluates to exactly that value, zero-extended, least significant bit first; values that fit are always accepted and values that do not fit never produce a silently truncated integer. Bit vectors made from at most N existing bits are zero-padded likewise, and freshly allocated ones expose exactly N new circuit inputs in order.",
  ["inputs","configurations"],"all values below 2^N (and beyond) and all bit counts at each listed width",
  "Only N=8 and N=256 with one() and the prime 11 are exercised; widths that are not a multiple of 8 and the value range are not.",
  [INT,LG],[("from_biguint, from_gate_ids, zero, one, new, output",INT),("AllocBits::from_gate_ids, new, output",LG)],["AllocInt/AllocBits constructors then output()"])

p("C16","AllocBits logic and multiplexing are bitwise exact",
  "For every width N and all operand values, NOT, AND, OR, XOR (and the assigning forms) of allocated bit vectors act bitwise at every position, equality and inequality compare all positions, and the multiplexer yields the first vector when the select bit is false and the second when it is true.",
  ["inputs","configurations"],"all operand values and select bits at each listed width",
  "Tests check one random operand pair at N=256 for not/and/or/xor; equality, inequality, assigning forms and mux are untested.",
  [LG],[("build_*_circuit, operator impls, AllocBits::mux",LG)],["AllocBits operators, eq, neq, mux"])

p("C17","Prime-field addition, subtraction and negation stay canonical",
  "For every odd prime modulus p with room in N bits (p at most 2^(N-2)) and all operands in [0,p), sum, difference and negation of field elements (and the assigning forms) evaluate to the unique representative in [0,p), so that field equality of results coincides with equality modulo p.",
  ["inputs","configurations"],"all operand pairs in [0,p) for each listed modulus and width",
  "The only field test multiplies everything by a product that is always zero, so it passes for any addition that maps 0,0 to 0.",
  [FP,INT],[("AllocFpConfig::build_add_circuit, build_sub_circuit, Neg",FP)],["AllocFp operators, eq, neq, output()"])

p("C18","Prime-field multiplication is multiplication modulo p",
  "For every odd prime modulus p, Montgomery radix R=2^k > p and width N leaving room for the intermediate products (2pR at most 2^(N-1)), and all operands in [0,p), the product of two field elements evaluates to their product modulo p in [0,p), and the Montgomery constants satisfy p*p' = -1 mod R and R2 = R*R mod p.",
  ["inputs","configurations"],"all operand pairs in [0,p) for each listed modulus, radix and width",
  "The test checks a distributivity equation that also holds when every product is zero.",
  [FP,UT],[("build_mul_circuit, build_mont_red, mod_inv, r2",FP)],["AllocFp *, *=; AllocFpConfig fields"])

p("C19","Widening multiplication gives the full double-width product",
  "For every width n and all operands, the widening multiplication module built over a 2n-bit adder yields the exact 2n-bit unsigned product of its two n-bit inputs.",
  ["inputs","configurations"],"all operand pairs at each listed width",
  "Its only test is commented out.",
  [INT],[("build_mul_extend_circuit",INT)],["build_mul_extend_circuit + module + eval_output"])

p("C20","Bit, byte and hex conversions are inverse to each other",
  "For every byte string, converting to bits (little- or big-endian per byte) gives eight bits per byte in that order and converting back gives the same bytes; for every bit string of whole bytes the reverse holds; encoding to hex and decoding gives the same bytes, and decoding accepts exactly the even-length strings of hex digits in either case.",
  ["inputs"],"all byte strings, bit strings and text up to the bounded length",
  "Tests round-trip one random four-byte string, which cannot tell a consistent but wrong bit order apart.",
  [UT],[("bits2bytes_le/be, bytes2bits_le/be, bytes2hex, hex2bytes",UT)],["the six conversion functions"])

p("C21","Extended gcd returns Bezout coefficients of the gcd",
  "For every pair of integers the extended Euclid function returns x, y, d with a*x + b*y = d, where d divides both arguments and equals their greatest common divisor up to sign.",
  ["inputs"],"all integer pairs within the bounded magnitude, both signs and zero",
  "The test uses one pair (111, 30) and checks only the linear identity, which (1,0,a) also satisfies.",
  [UT],[("ext_gcd",UT)],["ext_gcd"])

p("C22","Circuits that compare equal compute the same function",
  "Circuit comparison is reflexive and symmetric, circuits built by the same construction calls compare equal, and two circuits that compare equal have the same inputs and outputs and compute the same outputs for every input, also when they call modules.",
  ["programs","inputs"],"all pairs of bounded circuits incl. module calls, all input bits",
  "Tests use equality only as a round-trip oracle on four one-gate circuits and never compare different circuits.",
  [BC],[("PartialEq for NXAOBoolCircuit, BoolCircuitRef",BC)],["== on circuits and references"])

p("C23","Dangling references and wrong arities never yield a value",
  "Looking up an unknown gate, module, input or output returns an error naming it; declaring an unknown gate as output is refused; evaluating or exporting a circuit whose outputs depend on an unknown gate, calling a module with the wrong number of arguments, calling an unknown module, or evaluating with the wrong number of input bits never produces output bits or text.",
  ["inputs","programs"],"all bounded circuits and all identifiers, valid or not; all argument and input counts",
  "No test exercises any error path.",
  [BC,EV,BR],[("UnknownGate/UnknownModule/UnknownInput/UnknownOutput errors",BC),("length checks in eval_output",EV)],["Result of lookups, output, module, eval_output, write"])

p("C24","Identifiers are unique and keep their meaning",
  "Over any construction history, identifiers handed out for gates, inputs, outputs and modules are never reused within their circuit or registry, and, for modules that are complete when called, what an identifier stands for - the gate's kind and operands, the module's circuit, the gate of an input or output - is never changed by later calls on that circuit, on its sub-circuits, or on other circuits sharing the registry. Circuit references that were cloned observe the same circuit.",
  ["histories"],"all bounded construction histories over two circuits sharing a module registry",
  "Tests build each circuit once and look at nothing but lengths.",
  [BC],[("gate_index, input_map, output_map, gate_map, ModuleStorage",BC)],["get_gate, get_module, input_to_gate_id, output_to_gate_id, get_const_gates"])

p("C25","Gate metadata matches Bristol arity and names",
  "Every gate reports the number of inputs and outputs and the name that the Bristol format gives it (INV 1/1, XOR, AND, OR 2/1, inputs and constants 0/1, a module call its module's counts), and wire and gate identifiers add, compare to zero and print as the numbers they wrap.",
  ["inputs"],"all gate values and all identifier values",
  "No test calls these functions; the writer uses only the names.",
  [GT],[("Gate impls, Add/AddAssign/Zero/Display for WireId and GateId",GT)],["Gate::{input_len,output_len,to_str}, WireId/GateId operators"])

p("C26","Expressions mixing widths and kinds compute exact values end to end",
  "In one circuit that uses integers, bit vectors, prime-field elements and single bits of several widths and configurations side by side, and converts between them by their gate identifiers, every intermediate and final value evaluates to what the same expression over numbers gives, for all input values. Only allocations add circuit inputs. The Bristol text exported from such a circuit, and the circuit read back from that text, compute the same values.",
  ["programs","inputs"],"expressions over the typed operations with any operands within the bound, all input values",
  "The tests use one operation or a short fixed chain of one type and width with one or two random values; none mixes types or widths, and none exports such a circuit.",
  [INT,LG,FP,BC,BR,EV],[("operators of AllocInt, AllocBits, AllocFp on a shared BoolCircuitRef",INT),("from_gate_ids conversions",LG),("module identifiers held by the configurations",INT)],
  ["AllocInt/AllocBits/AllocFp operators, eval_output, BristolNXAOWriter::write, BristolNXAOReader::read"])

p("C27","Refused operations and observations leave circuits unchanged",
  "An operation that returns an error - declaring an unknown gate as output, calling an unknown module or one with the wrong number of arguments, looking up something unknown - and any observation - size queries, lookups, evaluation, export, comparison, cloning, and registering or filling other modules - leaves a circuit as it was: its sizes, the meaning of its identifiers, what it computes, how it compares and what it exports are as if the operation had never been done, whatever is built afterwards.",
  ["histories","inputs"],"every point of a construction history at which such an operation can be inserted, all inputs and constants",
  "No test provokes a refused operation or goes on building after an evaluation or export.",
  [BC,EV,BR],[("module(), output() check before they change counters",BC),("eval_output / write take the circuit by shared reference",EV)],
  ["BoolCircuit::{output,module,...}, NXAOBoolEvaluator, BristolNXAOWriter, PartialEq"])

p("C28","Exports are reproducible",
  "The exported Bristol text and the returned constants depend only on the construction calls of the circuit and its modules: exporting again, after evaluations, through another reference, from another circuit built by the same calls, with modules registered in another of the offered ways, or with further modules in the registry gives the same text.",
  ["programs","histories"],"all circuits within the bound, exports repeated in each of these situations, per-map hash orders",
  "No test exports twice or compares texts; hash map order differs between maps and between runs, so a dependence on it would show only now and then.",
  [BR,BC],[("write_all_gates orders the gate lines",BR),("get_const_gates",BC)],["BristolNXAOWriter::write"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
