"""What each check runs: JOBS (tier, entry, parameters, options) and PROPS (bounds, what lies outside).

tier: 'quick' (run in both tiers), 'thorough' (in addition), 'only-quick'.
options: cost (expected core seconds, longest first), time (limit in seconds), shards/depth (split over cores),
extra (further executor options).
"""
SMALL = ['--steps', '800000000']   # a path of a small circuit that needs more instructions than this does not end
JOBS, PROPS = {}, {}


def prop(pid, jobs, bounds, outside, covers=()):
    JOBS[pid] = jobs
    PROPS[pid] = dict(bounds=bounds, outside=outside, covers=list(covers))


def J(entry, params, cost=1, tier='quick', shards=1, depth=5, time=None, small=True, steps=None):
    kw = dict(cost=cost, time=time or (700 if tier != 'thorough' else 5 * 3600), shards=shards, depth=depth)
    if small:
        kw['extra'] = SMALL
    elif not steps:
        steps = 10_000_000_000
    if steps:
        kw['extra'] = ['--steps', str(steps)]
    return (tier, entry, params, kw)


def T(entry, params, cost=60, **kw):
    return J(entry, params, cost, tier='thorough', **kw)


COMMON = [
    'the semantics given to LLVM IR, std HashMap iteration order (one fixed order per seed; natively random) and the allocator by engine/',
    'rustc/LLVM as compiled here: the IR executed is the optimised one of the release profile',
]

# --- C01
prop('C01', [
    J('h_eval', [0, 0, 2, 2, 1, 0], 5),
    J('h_eval', [1, 0, 2, 2, 2, 1], 9),
    J('h_eval', [1, 0, 2, 2, 1, 0], 11),
    J('h_eval', [0, 0, 1, 3, 1, 2], 1),
    J('h_eval', [0, 0, 0, 3, 1, 0], 1),
    J('h_eval', [0, 0, 3, 2, 1, 4], 9),
    J('h_eval', [0, 0, 2, 3, 1, 1], 70, shards=8),
    J('h_eval', [1, 0, 1, 1, 3, 0], 3),
    J('h_eval', [1, 1, 1, 8, 40, 4, 0]),
    J('h_eval', [1, 1, 2, 20, 200, 10, 6]),
    J('h_eval', [0, 1, 3, 16, 1000, 10, 12]),
    J('h_eval', [1, 2, 60]), J('h_eval', [1, 3, 100]), J('h_eval', [1, 4, 40]), J('h_eval', [1, 2, 2000], 3), J('h_eval', [1, 3, 2000], 3), J('h_eval', [0, 4, 3000], 2),
    J('h_eval', [0, 3, 66000], 15, small=False), J('h_eval', [0, 5, 255]), J('h_eval', [0, 5, 256]), J('h_eval', [0, 5, 257]), J('h_eval', [0, 5, 65536], 30, small=False),
    J('h_eval_grow', [5, 2, 2, 0, 0], 4), J('h_eval_grow', [7, 1, 1, 4, 60, 5, 10], 1), J('h_eval_grow', [7, 1, 2, 9, 200, 5, 40], 3),
    T('h_eval_grow', [5, 2, 3, 0, 0], 400, shards=8), T('h_eval_grow', [5, 1, 4, 0, 6], 400, shards=8), T('h_eval', [0, 5, 131072], 90, small=False), J('h_eval', [0, 1, 7, 64, 20000, 64, 50], 5, small=False),
    T('h_eval', [0, 0, 2, 3, 1, 0], 900, shards=16),
    T('h_eval', [0, 0, 2, 3, 2, 1], 900, shards=16),
    T('h_eval', [1, 0, 3, 2, 2, 4], 100, shards=8),
    T('h_eval', [0, 0, 1, 4, 1, 2], 100, shards=8),
    T('h_eval', [0, 0, 0, 4, 1, 1], 100, shards=8),
    *[T('h_eval', [1, 1, 100 + s, 12, 300, 12, s % 9], 2) for s in range(40)],
    T('h_eval', [0, 1, 8, 64, 100000, 64, 50], 60, small=False), T('h_eval', [0, 3, 200000], 60, small=False),
], 'every circuit of up to 3 inputs and 3 gates over the stated kinds (2 gates over all seven kinds incl. constants, equivalence, identity; 3 gates over NOT/XOR/AND/constant; '
   '3 inputs, 2 gates with inputs added late) with every wiring and every choice of outputs, evaluated once and three times; fixed larger circuits of 40, 200, 1000 and 20000 gates (thorough: 100000), chains of up to 2000 gates, fan-outs of up to 66000 (thorough: 200000) and of exactly 255, 256, 257 and 65536, 3000 duplicated outputs; one evaluator used after every call of the construction of every circuit of 2 operations; '
   'all input and constant values symbolic in each',
   COMMON + ['other circuits of more than 3 gates than the listed fixed ones'],
   ['not', 'xor', 'and', 'or', 'equivalent', 'identity', 'const', 'late input'])

# --- C02
prop('C02', [
    J('h_module', [0, 1, 2], 1), J('h_module', [2, 1, 2], 2), J('h_module', [0, 1, 1], 13),
    J('h_module', [2, 4], 1),
    *[J('h_module', [1, 2, s], 1) for s in range(1, 7)],
    J('h_module', [2, 6, 5], 1), J('h_module', [1, 8, 300], 2), J('h_module', [0, 9, 70], 1), J('h_module', [0, 9, 260], 3), J('h_module', [2, 2, 7], 1),
    J('h_history', [1, 1, 150, 100], 8),
    J('h_eval_grow', [1, 1], 16, shards=2), J('h_eval_grow', [2, 1]), J('h_eval_grow', [2, 5]), J('h_eval_grow', [4]),
    J('h_module_shared', [0], 15, shards=2),
    J('h_module', [0, 0, 1, 1], 120, shards=8),
    T('h_module', [0, 3], 150, shards=8),
    T('h_module', [2, 3], 450, shards=8),
    T('h_module', [0, 0, 2, 1], 500, shards=8),
    T('h_module', [2, 0, 1, 1], 400, shards=8),
    T('h_module', [0, 1, 0], 1500, shards=16),
    *[T('h_module', [1, 2, s], 2) for s in range(10, 60)], T('h_module', [2, 6, 8], 10), T('h_module', [0, 9, 700], 60, small=False), T('h_history', [1, 1000, 3000, 150], 200),
], 'one module of 2 inputs, one chosen gate (NOT/AND/constant) and one (thorough: two) chosen outputs, called once or twice with every argument wiring next to a chosen gate; '
   'two-level nesting with the leaf called from both levels; modules without inputs or outputs, modules returning inputs and constants; modules made by sub_circuit, register_module or in another circuit '
   'of the registry, filled before or after registration, shared by two circuits; callers created before what they call, sub-circuits of sub-circuits; fixed larger units with four calls of nested modules, nesting of depth 5 with every level calling twice (thorough: 8), 300 modules in one registry, modules of 70 and 260 inputs and outputs; '
   '150 (thorough: 3000) fixed histories of 100 calls over up to 9 circuits and 12 registrations on one registry, every circuit evaluated; one evaluator used after every call while a calling circuit grows; all values symbolic',
   COMMON + ['other shapes of larger modules and histories'],
   ['two calls', 'gate before the call', 'nested calls twice', 'module of odd shape', 'registered again', 'nested call in a history'])

# --- C03
prop('C03', [
    J('h_counts', [1, 2], 1), J('h_counts', [1, 1], 9), J('h_counts', [4], 1),
    *[J('h_counts', [2, s], 1) for s in range(1, 5)],
    J('h_counts', [5, 2, 2, 1, 0], 3), J('h_counts', [5, 2, 2, 2, 1], 4), J('h_counts', [5, 1, 3, 1, 2], 1),
    J('h_counts', [0, 1, 1], 72, shards=8),
    J('h_counts_doubling', [58]), J('h_counts', [9, 260], 5, small=False), J('h_counts', [6, 6], 1), J('h_counts', [8, 300], 1), J('h_counts', [7, 3, 3000], 2, small=False), J('h_counts', [7, 1, 5, 8, 300, 20, 0], 1), J('h_history', [2, 1, 150, 100], 10),
    J('h_counts_steps', [2], 3), J('h_counts_steps', [3], 38, shards=4),
    T('h_counts', [3], 80, shards=4), T('h_counts', [0, 2, 1], 500, shards=8), T('h_counts_steps', [4], 500, shards=8),
    T('h_counts', [5, 1, 3, 1, 0], 30), T('h_counts', [5, 2, 3, 1, 1], 80, shards=4), T('h_counts', [1, 0], 700, shards=8),
    *[T('h_counts', [2, s], 2) for s in range(10, 50)], T('h_history', [2, 1000, 3000, 150], 300), T('h_counts', [6, 9], 5),
], 'the units of C02 and C01 (modules complete when called), and every history of 3 (thorough: 4) construction calls after an input with counts compared after each; '
   'modules of 0-2 inputs and 0-3 outputs; dependents of every gate compared as sets; nesting of depth 6, 58 levels that each double the sizes, 300 modules, a module of 260 inputs and outputs, fan-out 3000; 150 (thorough: 3000) fixed histories of 100 calls over up to 9 circuits on one registry',
   COMMON + ['a module that is extended after it was called (the statement is about complete modules)', 'the order and multiplicity of reported dependents'],
   ['sizes compared', 'call', 'two calls'])

# --- C04
prop('C04', [
    J('h_export', [0, 5, 2, 2, 1, 0], 8), J('h_export', [0, 5, 2, 2, 2, 1], 8), J('h_export', [0, 5, 1, 3, 1, 2], 2),
    J('h_export', [0, 5, 1, 1, 3, 0], 3), J('h_export', [0, 5, 0, 2, 1, 0], 1), J('h_export', [0, 5, 3, 0, 3, 0], 1),
    J('h_export', [0, 1, 2], 1), J('h_export', [0, 1, 1], 14), J('h_export', [1, 1, 2], 4), J('h_export', [1, 5, 2, 1, 2, 0], 3),
    *[J('h_export', [0, 2, s], 1) for s in range(1, 5)],
    J('h_export', [0, 4], 1), J('h_export_first', [0], 1), J('h_history', [3, 1, 150, 100], 8),
    J('h_export', [0, 6, 6], 1), J('h_export', [0, 8, 300], 1), J('h_export', [0, 9, 260], 3), J('h_export', [0, 7, 5, 40000], 20, small=False), J('h_export', [0, 7, 1, 3, 8, 300, 12, 0], 1), J('h_export', [0, 7, 1, 4, 8, 3000, 30, 20], 4, small=False), J('h_export', [0, 7, 3, 1500], 5, small=False), J('h_export', [0, 7, 2, 500], 2),
    J('h_export', [0, 0, 1, 1], 125, shards=8),
    T('h_export', [0, 3], 300, shards=8), T('h_export', [0, 0, 2, 1], 500, shards=8), T('h_export', [0, 5, 2, 3, 1, 1], 150, shards=8),
    T('h_export', [0, 5, 2, 3, 1, 0], 1500, shards=16), T('h_export', [1, 5, 2, 2, 2, 1], 100, shards=4),
    *[T('h_export', [1, 2, s], 2) for s in range(10, 50)], T('h_history', [3, 1000, 3000, 150], 200), T('h_export', [0, 7, 1, 5, 8, 20000, 30, 20], 200, small=False),
], 'every circuit of up to 3 gates as in C01 and the units with modules of C02, every output choice (duplicates, inputs, constants, unused gates), fixed circuits of 300, 3000 and 80000 gates, 300 modules, modules of 260 inputs and outputs, nesting of depth 6, and every circuit of 150 (thorough: 3000) fixed histories of 100 calls over up to 9 circuits; the text is checked for its header, single assignment, '
   'assignment before use, outputs last, group sizes, and interpreted on symbolic inputs; requests for every first group size up to two above the number of inputs and constants; the writer used twice',
   COMMON + ['writes to a failing stream', 'other texts of more than some gates than the fixed ones'],
   ['exported', 'constants exported', 'copies exported', 'request fits', 'request too large'])

# --- C05
prop('C05', [
    J('h_import', [2, 1, 0, 0, 0, 0], 1), J('h_import', [1, 2, 1, 1, 0, 0], 2), J('h_import', [1, 1, 0, 1, 1, 1], 1), J('h_import', [2, 1, 1, 1, 1, 0], 1),
    J('h_import', [2, 1, 0, 4, 0, 1], 3), J('h_import', [0, 2, 0, 0, 0, 0], 2), J('h_import', [2, 0, 0, 5, 0, 1], 1),
    *[J('h_import_large', [s, 3 + s % 9, 10 + 15 * s, 1 + s % 7, 6]) for s in range(1, 11)],
    J('h_import_large', [11, 40, 3000, 30, 6], 3, small=False), J('h_import_large', [12, 300, 400, 290, 6], 3, small=False), J('h_import_large', [13, 64, 70000, 40, 0], 13, small=False),
    J('h_import', [2, 2, 0, 0, 0, 0], 80, shards=8),
    T('h_import', [2, 2, 0, 0, 1, 0], 300, shards=8), T('h_import', [1, 3, 1, 0, 0, 0], 100, shards=8), T('h_import', [2, 2, 1, 4, 0, 1], 500, shards=8),
    *[T('h_import_large', [s, 3 + s % 30, 10 + 15 * s, 1 + s % 7, 6], 3) for s in range(11, 80)],
], 'every text of up to 2 inputs and 2 gate lines (thorough: 3) over INV, XOR, AND, OR, EQ, EQW with every wiring, every numbering of the gate wires, unassigned wire numbers, every possible number of outputs, '
   'several splittings into groups, trailing blanks or missing final newline; into an empty circuit and into one with gates, by a fresh and by a used reader; fixed texts of up to 160 lines, of 3000 and 70000 lines, one of 300 inputs and 290 outputs; all input values symbolic',
   COMMON + ['MAND lines', 'texts over these sizes other than the fixed ones'],
   ['INV', 'XOR', 'AND', 'OR', 'EQ', 'EQW'])

# --- C06
prop('C06', [
    J('h_malformed', [0, 0, 7]),
    J('h_malformed', [1, 0, 1], 15, shards=2), J('h_malformed', [1, 1, 6], 41, shards=8),
    J('h_malformed', [2, 0, 1], 20, shards=4), J('h_malformed', [2, 1, 3], 35, shards=4),
    J('h_malformed', [3, 0, 7], 2), J('h_malformed', [4, 0, 7], 2), J('h_malformed', [5, 0, 7], 6), J('h_malformed', [6, 0, 7], 2),
    J('h_malformed', [8, 0, 2], 18, shards=4), J('h_malformed', [9, 0, 1]), J('h_malformed', [9, 1, 3]), J('h_malformed', [9, 2, 3]), J('h_malformed', [9, 3, 3], 5),
    J('h_malformed_reused', [0, 0, 7], 8),
    T('h_malformed', [1, 6, 7], 300, shards=8), T('h_malformed', [2, 3, 7], 500, shards=8), T('h_malformed', [7, 0, 1], 1500, shards=16), T('h_malformed', [7, 1, 6], 3000, shards=24),
    T('h_malformed', [8, 2, 7], 1500, shards=16), T('h_malformed', [9, 4, 3], 60, shards=4), T('h_malformed', [9, 5, 3], 400, shards=8),
], 'seven base texts with one byte replaced or inserted (all byte values), deleted, every truncation, one token or two tokens replaced from a list of 22, one line dropped, doubled or swapped; any text of up to 3 bytes (thorough: 5); '
   'thorough: any two adjacent bytes replaced; by a fresh and a used reader',
   COMMON + ['declared numbers of inputs above 10^6 together with as many wires: a reader may allocate that much before it can know the text is wrong',
             'texts with characters outside the format (non-ASCII, tabs, carriage returns) are only required not to crash',
             'lenient cases (a sign before a number, extra blanks, more or fewer gate lines than declared ...) may be accepted or rejected, but not crash'],
   ['malformed', 'well-formed'])

# --- C07
prop('C07', [
    J('h_roundtrip', [5, 2, 2, 1, 0], 16, shards=2), J('h_roundtrip', [5, 2, 2, 2, 1], 20, shards=2), J('h_roundtrip', [5, 1, 3, 1, 2], 2), J('h_roundtrip', [5, 1, 1, 3, 0], 3),
    J('h_roundtrip', [5, 0, 2, 2, 0], 3), J('h_roundtrip', [5, 3, 0, 3, 0], 1),
    J('h_roundtrip', [1, 2], 1), J('h_roundtrip', [1, 1], 28, shards=4), J('h_roundtrip', [4], 1),
    *[J('h_roundtrip', [2, s], 1) for s in range(1, 7)],
    J('h_roundtrip', [6, 6], 1), J('h_roundtrip', [8, 300], 1), J('h_roundtrip', [9, 260], 3), J('h_roundtrip', [7, 5, 34000], 35, small=False), J('h_roundtrip', [7, 1, 3, 8, 3000, 40, 20], 3, small=False), J('h_roundtrip', [7, 3, 1000], 4, small=False), J('h_roundtrip', [7, 2, 500], 2), J('h_history', [4, 1, 150, 100], 12),
    T('h_roundtrip', [0, 1, 1], 250, shards=8), T('h_roundtrip', [3], 500, shards=8), T('h_roundtrip', [5, 2, 3, 1, 1], 400, shards=8), T('h_roundtrip', [5, 2, 3, 1, 0], 3000, shards=24),
    *[T('h_roundtrip', [2, s], 2) for s in range(10, 60)], T('h_history', [4, 1000, 3000, 150], 300),
], 'the circuits of C04 (a chain of 500, fan-outs of 1000 and 34000, the histories too), written and read back; all input and constant values symbolic',
   COMMON + ['the gate count is compared when every gate is used, there are no constants or calls, and no output needs a copy line'],
   ['read back', 'gate count kept'])

# --- C08..C11
prop('C08', [J('h_linear64', [w, k], 1, small=False) for w in (0, 1) for k in (0, 1, 2)],
     'all values of both 64-bit operands; the circuit loaded alone and called as a module of another circuit', COMMON)
prop('C09', [J('h_mult64', [w], 20, small=False) for w in (0, 1)],
     'all values of both 64-bit operands; the circuit loaded alone and called as a module of another circuit; outputs are the high word, then the low word',
     COMMON)
prop('C10', [J('h_div64', [0, 0], 35, small=False), J('h_div64', [1, 0], 35, small=False), *[J('h_div64', [0, 1, s], 250, small=False) for s in (1, 2, 3, 4)],
              *[T('h_div64', [1, 1, s], 250, small=False) for s in (1, 2, 3, 4)], T('h_div64', [0, 1, 0], 420, small=False)],
     'all dividends and non-zero divisors of 64 bits; the circuit loaded alone and called as a module (the signed one as a module in the thorough tier); the least dividend over -1 wraps to itself',
     COMMON)
prop('C11', [J('h_aes', [0], 40, small=False), J('h_aes', [1], 40, small=False), J('h_aes_reference', [0], 1, small=False)],
     'all 128-bit keys and blocks; the circuit loaded alone and called as a module; the reference reproduces the FIPS-197 example; first input the block, second the key, bytes in order, each most significant bit first',
     COMMON)

# --- C12
W8 = [8, 1, 2, 3, 4, 5, 6, 7, 8]
prop('C12', [
    J('h_int_op', [99] + W8, 9, small=False), J('h_int_op', [99, 1, 13], 6, small=False), J('h_int_op', [99, 1, 16], 9, small=False), J('h_int_op', [99, 1, 31], 22, small=False),
    J('h_int_op', [99, 1, 33], 30, small=False),
    J('h_int_op', [0, 1, 64], 23, small=False), J('h_int_op', [1, 1, 64], 22, small=False), J('h_int_op', [3, 1, 64], 32, small=False), J('h_int_op', [13, 1, 64], 20, small=False),
    J('h_int_const', [99, 6, 1, 2, 3, 4, 5, 8], 2, small=False), J('h_int_const', [99, 2, 16, 32], 15, small=False),
    J('h_int_op', [0, 1, 100], 22, small=False), J('h_int_op', [1, 1, 100], 25, small=False), J('h_int_op', [3, 1, 100], 36, small=False), J('h_int_const', [99, 1, 64], 12, small=False),
    J('h_block', [0, 0, 1, 100], 25, small=False), J('h_block', [1, 0, 1, 80], 30, small=False), J('h_block', [2, 0, 1, 24], 17, small=False), J('h_block', [0, 4, 128, 256, 257, 300], 7, small=False), J('h_block', [1, 4, 128, 256, 257, 300], 21, small=False), J('h_block', [2, 3, 16, 32, 33], 21, small=False),
    *[T('h_int_op', [99, 1, w], 60, small=False) for w in (9, 10, 11, 12, 17, 24, 32)],
    *[T('h_int_op', [k, 1, w], 60, small=False) for w in (63, 64, 65) for k in range(14)],
    T('h_int_const', [99, 1, 128], 160, small=False), T('h_int_const', [99, 1, 17], 10, small=False),
    *[T('h_int_op', [k, 1, w], 90, small=False) for w in (100, 128) for k in range(14)], T('h_block', [2, 1, 64], 30, small=False), T('h_block', [2, 1, 100], 100, small=False),
    T('h_block', [0, 0, 101, 260], 300, small=False, shards=4, depth=3), T('h_block', [1, 0, 81, 200], 300, small=False, shards=4, depth=3), T('h_block', [2, 0, 25, 64], 400, small=False, shards=4, depth=3), T('h_block', [0, 3, 511, 513, 600], 40, small=False), T('h_block', [1, 3, 511, 513, 600], 100, small=False), T('h_block', [2, 1, 128], 200, small=False),
], 'widths 1-8, 13, 16, 31, 33 for every operation and assignment form, 64 and 100 for addition, subtraction, product, 64 also for an assignment chain and constants (thorough: 1-13, 16, 17, 24, 31-33, 63-65, 100, 128 for all); operands inputs, constants, the same integer twice, results; '
   'the adder module at 1-100, 128, 256, 257, 300 (1-260, 511, 513, 600), the subtractor at 1-80, 128, 256, 257, 300 (1-200, 511, 513, 600), the multiplier at 1-24, 32, 33 (1-64, 100, 128); all operand values symbolic',
   COMMON + ['other widths'],
   ['add', 'sub', 'neg', 'mul', 'add_assign', 'sub_assign', 'mul_assign', 'self_add', 'self_sub', 'self_mul', 'chain', 'consts', 'mul_const', 'assign_chain', 'const add', 'const sub', 'const mul', 'const neg'])

# --- C13
prop('C13', [
    J('h_int_cmp', [99] + W8, 5, small=False), J('h_int_cmp', [99, 1, 16], 4, small=False), J('h_int_cmp', [99, 2, 32, 33], 12, small=False), J('h_int_cmp', [99, 1, 64], 28, small=False), J('h_int_cmp', [99, 1, 65], 28, small=False),
    J('h_int_cmp', [99, 1, 100], 30, small=False),
    *[J('h_block', [k, 4, 128, 256, 257, 300], 20, small=False) for k in (3, 4, 5, 6, 7, 8)], *[J('h_block', [k, 0, 1, 66], 16, small=False) for k in (3, 4, 5, 6, 7, 8)],
    *[T('h_block', [k, 0, 67, 140], 120, small=False, shards=2, depth=3) for k in (3, 4, 5, 6, 7, 8)],
    *[T('h_int_cmp', [99, 1, w], 20, small=False) for w in (9, 10, 11, 12, 13, 17, 24, 31, 63)],
    *[T('h_block', [k, 3, 511, 513, 600], 90, small=False) for k in (3, 4, 5, 6, 7, 8)], T('h_int_cmp', [99, 1, 128], 60, small=False),
], 'widths 1-8, 16, 32, 33, 64, 65, 100 (thorough: 1-13, 16, 17, 24, 31-33, 63-65, 100, 128), the modules at 1-66, 128, 256, 257 and 300 (1-140, 511, 513, 600); operands two inputs, one twice, a constant, a computed value; all values symbolic',
   COMMON + ['other widths'], ['two inputs', 'same operand', 'constant', 'computed'])

# --- C14
prop('C14', [
    J('h_int_shift', [99, 4, 1, 2, 3, 4], 3, small=False), J('h_int_shift', [99, 7, 5, 6, 7, 8, 10, 13, 24], 15, small=False), J('h_int_shift', [99, 1, 16], 14, small=False, shards=2, depth=2), J('h_int_shift', [99, 1, 17], 14, small=False, shards=2, depth=2),
    J('h_int_shift', [99, 1, 32], 35, small=False, shards=4, depth=2), J('h_int_shift', [0, 1, 64], 25, small=False, shards=2, depth=1), J('h_int_shift', [1, 1, 64], 25, small=False, shards=2, depth=1), J('h_int_shift', [0, 1, 100], 28, small=False), J('h_int_shift', [1, 1, 100], 28, small=False),
    *[T('h_int_shift', [99, 1, w], 100, small=False, shards=8, depth=2) for w in (9, 31, 33, 63, 64, 65, 128)],
], 'widths 1-8, 10, 13, 16, 17, 24, 32, single shifts at 64 and 100 (thorough: also 9, 31, 33, 63, 65, 128); every amount from 0 to 2N+2, and 64, 65, 4096, 2^32, 2^63, values next to 2^64; of an input and of a computed value, two shifts in a row; all values symbolic',
   COMMON + ['other widths'], ['left', 'right', 'computed', 'right left', 'left right', 'amount above the width'])

# --- C15
prop('C15', [
    J('h_int_big', [0, 4, 1, 2, 3, 4], 1, small=False), J('h_int_big', [0, 4, 7, 8, 9, 16], 2, small=False), J('h_int_big', [0, 3, 32, 64, 65], 40, small=False, shards=4, depth=2),
    J('h_int_big', [0, 1, 140], 60, small=False), J('h_int_alloc', [0, 1, 65], 11, small=False), J('h_bits_alloc', [0, 1, 257], 40, small=False, shards=2, depth=2),
    J('h_int_alloc', [0, 4, 1, 2, 3, 4], 1, small=False), J('h_int_alloc', [0, 3, 8, 16, 33], 9, small=False),
    J('h_bits_alloc', [0, 4, 1, 2, 3, 4], 1, small=False), J('h_bits_alloc', [0, 3, 8, 16, 64], 9, small=False),
    *[T('h_int_big', [0, 1, w], 30, small=False) for w in (5, 6, 10, 11, 12, 13, 17, 24, 31, 33, 63, 128)], T('h_int_big', [0, 1, 256], 600, small=False), T('h_int_alloc', [0, 1, 140], 100, small=False),
    *[T('h_int_alloc', [0, 1, w], 30, small=False) for w in (5, 6, 7, 9, 17, 31, 32, 64)],
], 'widths 1-4, 7-9, 16, 32, 64, 65, big numbers also at 140 and bit vectors at 257 (thorough: more, big numbers at 128 and 256); big numbers of every bit length up to N+9 with all lower bits symbolic; zero, one, every number of existing bits up to N (inputs in any order, computed), N+1 to N+3 bits; 0-2 inputs there before',
   COMMON + ['other widths', 'that a value that does not fit is refused by an error or by a panic is left open: it only must not be truncated'],
   ['fits', 'does not fit', 'zero', 'one', 'few bits', 'too many bits'])

# --- C16
prop('C16', [
    J('h_bits_op', [99, 6, 1, 2, 3, 4, 5, 8], 3, small=False), J('h_bits_op', [99, 2, 16, 32], 7, small=False), J('h_bits_op', [99, 1, 64], 8, small=False), J('h_bits_op', [99, 1, 65], 8, small=False), J('h_bits_op', [99, 1, 128], 12, small=False), J('h_bits_op', [99, 1, 256], 26, small=False),
    *[J('h_block', [k, 3, 200, 257, 300], 5, small=False) for k in (3, 4, 9, 10, 11, 12)], *[J('h_block', [k, 0, 1, 130], 12, small=False) for k in (3, 4, 9, 10, 11, 12)], J('h_bits_op', [99, 4, 6, 12, 24, 100], 8, small=False),
    *[T('h_block', [k, 3, 511, 513, 600], 20, small=False) for k in (3, 4, 9, 10, 11, 12)], T('h_bits_op', [99, 1, 257], 30, small=False),
], 'widths 1-6, 8, 12, 16, 24, 32, 64, 65, 100, 128, 256 (the modules at 1-130, 200, 257, 300; thorough: 511, 513, 600), every operation incl. the assigning forms, the same vector twice, and the multiplexer; all values symbolic',
   COMMON + ['other widths'])

# --- C17
P = lambda w, p, op=99, r=0: [w, op, r, p & (2**64 - 1), p >> 64]
prop('C17', [
    J('h_fp_linear', P(4, 3), 4, small=False), J('h_fp_linear', P(5, 3), 5, small=False), J('h_fp_linear', P(5, 5), 5, small=False), J('h_fp_linear', P(5, 7), 6, small=False),
    J('h_fp_linear', P(6, 11), 7, small=False), J('h_fp_linear', P(6, 13), 8, small=False), J('h_fp_linear', P(7, 31), 11, small=False), J('h_fp_linear', P(8, 61), 11, small=False), J('h_fp_linear', P(8, 17), 11, small=False),
    J('h_fp_linear', P(10, 251), 24, small=False), J('h_fp_linear', P(12, 1021), 22, small=False),
    *[J('h_fp_linear', P(16, 16381, k), 4, small=False) for k in range(12)],
    J('h_fp_linear', P(32, 1073741789, 0), 12, small=False), J('h_fp_linear', P(32, 1073741789, 1), 12, small=False), J('h_fp_linear', P(32, 1073741789, 2), 12, small=False),
    *[J('h_fp_linear', P(64, 2**61 - 1, k), 22, small=False) for k in (0, 1, 2)],
    *[T('h_fp_linear', P(128, p, k), 100, steps=3 * 10**10) for p in (2**89 - 1, 2**126 - 137) for k in (0, 1, 2, 5, 8)], T('h_fp_linear', P(24, 4194301), 35, small=False),
    *[T('h_fp_linear', P(w, p), 80, small=False) for w, p in ((6, 3), (7, 19), (8, 37), (8, 3), (9, 127), (9, 113), (12, 13), (16, 17), (20, 262139), (32, 65537), (32, 1073741789), (33, 2147483647))],
    *[T('h_fp_linear', P(64, 2**61 - 1, k), 80, small=False) for k in range(12)],
], 'moduli 3, 5, 7, 11, 13, 17, 31, 61, 251, 1021, 16381 1073741789 and 2^61-1 at widths 4-64 (thorough: also 19, 37, 113, 127, 262139, 65537, 4194301, 2^31-1, 2^89-1, 2^126-137, widths up to 128), all operands in [0,p) symbolic; chains, the same element twice, zero, one, constants, equality',
   COMMON + ['other moduli and widths', 'room in N bits means p <= 2^(N-2): sums below 2p are compared as signed numbers'],
   ['add', 'sub', 'neg', 'add=', 'sub=', 'self add', 'self sub', 'zero/one', 'eq', 'chain', 'constants', 'neg neg'])

# --- C18
prop('C18', [
    *[J('h_fp_mont', P(w, p, 99, r), 3, small=False) for w, p, r in ((6, 3, 0), (8, 5, 0), (8, 7, 0), (10, 11, 0), (10, 13, 0), (12, 31, 0), (12, 11, 5), (16, 61, 0), (16, 127, 0), (16, 13, 9))],
    *[J('h_fp_mul', P(w, p, 99, r), 12, small=False) for w, p, r in ((6, 3, 0), (8, 5, 0), (8, 7, 0), (10, 11, 0), (12, 31, 0), (12, 11, 5), (16, 61, 0))],
    *[T('h_fp_mont', P(w, p, 99, r), 10, small=False) for w, p, r in ((8, 3, 2), (8, 3, 4), (9, 7, 0), (9, 5, 4), (10, 7, 5), (12, 17, 0), (12, 29, 0), (16, 17, 0), (16, 113, 0), (16, 101, 0), (16, 61, 7), (16, 31, 8))],
    *[T('h_fp_mul', P(w, p, 99, r), 15, small=False) for w, p, r in ((8, 3, 4), (9, 7, 0), (10, 13, 0), (12, 29, 0), (16, 127, 0), (16, 13, 9))],
], 'the Montgomery reduction for moduli 3, 5, 7, 11, 13, 31, 61, 127 (thorough: also 17, 29, 101, 113) at widths 6-16 and radix exponents from the length of p upwards, for all v < p*R; products, squares and the constants for the same kind of moduli',
   COMMON + ['other moduli and widths', 'room means 2*p*R <= 2^(N-1)', 'the product itself is a listed finding: R2 = 0 makes it 0; the check requires the product to be right or 0'],
   ['mul', 'mul=', 'square', 'by one'])

# --- C19
prop('C19', [J('h_block', [13, 0, 1, 18], 22, small=False), J('h_block', [13, 1, 24], 14, small=False), J('h_block', [13, 1, 32], 17, small=False), J('h_block', [13, 1, 64], 30, small=False),
             T('h_block', [13, 1, 33], 20, small=False), T('h_block', [13, 1, 48], 50, small=False), T('h_block', [13, 1, 65], 100, small=False), T('h_block', [13, 1, 100], 300, small=False), T('h_block', [13, 0, 19, 40], 400, small=False, shards=4, depth=3)],
     'operand widths 1-18, 24, 32, 64 (thorough: 1-40, 48, 64, 65, 100), all operand values symbolic', COMMON + ['other widths'])

# --- C20
prop('C20', [*[J('h_bits_bytes', [n]) for n in (0, 1, 2, 3, 5, 32, 200, 300, 1000)], *[J('h_hex_bytes', [n], 2) for n in (0, 1, 2, 3, 4)], *[J('h_hex_text', [n, 0]) for n in (0, 1, 2, 3, 4, 5)], J('h_hex_text', [1, 1]), J('h_hex_text', [2, 1]), *[J('h_hex_long', [n]) for n in (1, 3, 16, 32, 100)], T('h_hex_long', [1000], 100, small=False),
             T('h_hex_bytes', [5], 30), T('h_hex_text', [6, 0], 60, shards=4), T('h_hex_text', [7, 0], 60, shards=4), T('h_hex_text', [3, 1], 60), T('h_hex_text', [4, 1], 60), T('h_bits_bytes', [10000], 10, small=False)],
     'bit conversions of 0-3, 5, 32, 200, 300 and 1000 bytes (thorough: 10000), hex of 0-4 (thorough: 5) bytes and of 16, 32 and 100 (1000) bytes with the kind of each digit fixed and one arbitrary character at the ends or in the middle, every ASCII text of up to 5 (7) characters, and texts with one two-byte character; all byte values symbolic',
     COMMON + ['longer hex texts but those', 'three- and four-byte characters'], ['hex', 'not hex'])

# --- C21
prop('C21', [J('h_ext_gcd', [4, 4], 8, shards=2, depth=2), J('h_ext_gcd', [3, 7], 5), J('h_ext_gcd', [7, 3], 5), J('h_ext_gcd', [1, 12], 5), J('h_ext_gcd', [12, 1], 5), J('h_ext_gcd_wide', [3], 1), J('h_ext_gcd_wide', [40], 8),
             T('h_ext_gcd', [5, 5], 400, shards=4, depth=2), T('h_ext_gcd', [6, 5], 1500, shards=4, depth=2), T('h_ext_gcd_wide', [200], 60)],
     'all pairs of integers of up to 4 bits and of 3 and 7 bits with every sign (thorough: 5 and 6 bits); pairs of eight numbers of up to 255 bits with small common factors and every sign, zero included',
     COMMON + ['other integers'], ['both zero', 'divides'])

# --- C22
prop('C22', [
    J('h_equal_same', [1, 2], 2), J('h_equal_same', [5, 2, 2, 1, 0], 10), J('h_equal_same', [5, 1, 3, 1, 2], 2), J('h_equal_same', [4], 1), J('h_equal_same', [2, 1], 1), J('h_equal_same', [2, 2], 1), J('h_equal_same', [1, 1], 20, shards=2),
    J('h_equal_pair', [2, 1, 1, 1, 0], 2), J('h_equal_pair', [2, 1, 1, 0, 1], 2), J('h_equal_pair', [1, 2, 1, 2, 1], 2), J('h_equal_pair', [1, 2, 1, 1, 0], 28, shards=2), J('h_equal_pair', [2, 2, 1, 1, 1], 71, shards=8),
    J('h_history', [5, 1, 60, 80], 30, shards=4, depth=2), J('h_equal_same', [6, 6], 1), J('h_equal_same', [8, 200], 1), J('h_equal_same', [9, 260], 3), J('h_equal_modules', [0], 6), J('h_equal_registry', [0], 2), J('h_equal_histories', [3], 7),
    T('h_equal_pair', [2, 2, 1, 2, 0], 110, shards=8), T('h_equal_same', [0, 1, 1], 180, shards=8), T('h_equal_same', [3], 220, shards=8), T('h_equal_histories', [4], 240, shards=8),
    T('h_equal_pair', [2, 2, 1, 1, 0], 1000, shards=16), T('h_equal_pair', [1, 3, 1, 2, 0], 400, shards=8),
    *[T('h_equal_same', [2, s], 2) for s in range(10, 40)],
], 'the same program built twice (the circuits of C01 and C02); every pair of circuits of 2 inputs and one or two gates over several kinds of gates; pairs that differ inside called modules or in which module is called; '
   'interleaved histories of 3 (4) calls; every pair of circuits of 60 fixed histories of 80 calls, and of two runs of one; for every pair: reflexive, symmetric, and if equal then the same sizes and the same outputs on all inputs',
   COMMON + ['larger pairs', 'that different circuits compare different is not required'])

# --- C23
prop('C23', [
    J('h_unknown', [0, 1, 1, 1, 0], 1), J('h_unknown', [0, 2, 2, 1, 2], 10, shards=2), J('h_unknown', [1, 3, 4, 20, 3, 0], 1), J('h_dangling', [0], 1), J('h_arity', [0], 1), J('h_foreign', [0], 1),
    T('h_unknown', [0, 2, 2, 1, 0], 160, shards=8),
], 'every circuit of up to 2 gates, every unknown identifier (all 64-bit values outside the ones handed out); gates referring to unknown gates at every operand position; calls with 0 to 2 arguments too many or too few; '
   'unknown modules; 0 to 2 input bits too many or too few; identifiers of another circuit',
   COMMON + ['an unknown gate that no output depends on'],
   ['gate', 'module', 'input', 'output', 'output of unknown', 'call of unknown'])

# --- C24
prop('C24', [J('h_idents', [2], 2), J('h_idents', [3], 30, shards=4), J('h_history', [0, 1, 200, 100], 25, shards=4, depth=2), T('h_history', [0, 1000, 4000, 150], 600, shards=8, depth=2), T('h_idents', [4], 800, shards=16)],
     'every history of 3 (thorough: 4) calls over a circuit, a clone of it, a sub-circuit and another circuit on the same registry, everything handed out compared after each call; 200 (thorough: 4000) fixed histories of 100 calls over up to 9 circuits and 12 registrations (again, through any circuit, sub-circuits of sub-circuits), compared every 4 calls; constant values symbolic',
     COMMON + ['other longer histories', 'a module that is extended after it was called'],
     ['output', 'new sub-circuit', 'registered elsewhere', 'other circuit', 'registered again', 'nested call in a history'])

# --- C25
prop('C25', [J('h_meta', [0]), J('h_meta_call', [0]), J('h_ids', [0]), J('h_print', [8], 9)],
     'every gate kind with all 64-bit identifiers and constant values, module calls of all 16-bit sizes; identifiers: all pairs of 64-bit numbers; printing all 8-bit numbers',
     COMMON + ['printing of identifiers above 255'], ['input', 'const', 'not', 'xor', 'and', 'or', 'module'])

# --- C26
prop('C26', [
    J('h_typed', [2, 4, 1, 0, 0, 0, 0], 1), J('h_typed', [3, 0, 1, 0, 0, 0, 0], 3), J('h_typed', [2, 6, 1, 0, 0, 0, 0], 1), J('h_typed', [2, 2, 1, 0, 0, 13, 4], 8, shards=2, depth=3, small=False),
    J('h_typed', [1, 1, 20, 1, 8, 0, 0], 8, small=False), J('h_typed', [1, 1, 40, 11, 8, 0, 0], 15, small=False), J('h_typed', [1, 2, 20, 1, 4, 13, 4], 24, small=False), J('h_typed', [1, 2, 20, 5, 4, 13, 4], 24, small=False),
    J('h_typed', [0, 3, 20, 1, 8, 0, 0], 10, small=False), J('h_typed', [1, 0, 30, 1, 16, 0, 0], 5, small=False), J('h_typed', [1, 6, 30, 50, 16, 0, 0], 5, small=False), J('h_typed', [0, 5, 12, 1, 3, 0, 0], 40, small=False), J('h_typed', [0, 5, 12, 4, 3, 0, 0], 40, small=False),
    J('h_typed', [2, 0, 2, 0, 0, 0, 0], 80, shards=8),
    T('h_typed', [3, 4, 2, 0, 0, 0, 0], 180, shards=8), T('h_typed', [2, 1, 2, 0, 0, 0, 0], 400, shards=8, small=False), T('h_typed', [2, 2, 2, 0, 0, 13, 4], 2500, shards=16, small=False),
    *[T('h_typed', [1, 1, 40, 100 + 20 * s, 20, 0, 0], 40, small=False) for s in range(10)], *[T('h_typed', [1, 2, 30, 100 + 10 * s, 10, 13, 4], 90, small=False) for s in range(10)],
    *[T('h_typed', [1, 3, 30, 100 + 10 * s, 10, 0, 0], 60, small=False) for s in range(6)], *[T('h_typed', [0, 5, 15, 100 + 4 * s, 4, 0, 0], 120, small=False) for s in range(6)],
], 'every expression of one operation of 19 kinds (widths 1 and 2, 3 and 2, exported too at 2 and 3; with a field of modulus 13 and 5 more kinds at 5 and 10) and of two operations (widths 2 and 3; thorough: also 4 and 7, with fields, exported), '
   'with every choice of operands, shift amounts and variants; fixed expressions of 12 to 40 operations at widths 2 and 3, 3 and 2, 4 and 7, 5 and 10 with fields (exported and read back), 8 and 16, 32 and 64; several configurations of one width in one circuit; '
   'every intermediate value compared; all input values symbolic',
   COMMON + ['other widths, moduli and expressions', 'products of field elements (see the finding of C18)'],
   ['add', 'sub', 'neg', 'mul', 'shift left', 'shift right', 'compare', 'from other width', 'int to bits', 'bits to int', 'and/or/xor', 'not', 'mux', 'bits compare', 'int from a bit', 'assigning', 'constant', 'bit gate',
    'bits from other width', 'fp add', 'fp sub', 'fp neg', 'fp compare', 'fp to int'])

# --- C27
prop('C27', [
    J('h_no_effect', [1, 1, 2, 1], 45, shards=4, depth=3), J('h_no_effect', [1, 1, 2, 2], 45, shards=4, depth=3), J('h_no_effect', [1, 1, 6, 3], 20, shards=2, depth=3), J('h_no_effect', [1, 1, 4], 40, shards=4),
    J('h_no_effect', [1, 0, 7, 1, 3, 8, 60, 8, 0], 45, shards=4, depth=3), J('h_no_effect', [1, 0, 5, 2, 1, 2, 0], 40, shards=4), J('h_no_effect', [1, 0, 5, 1, 2, 1, 1], 28, shards=4),
    T('h_no_effect', [1, 1, 1, 2], 270, shards=8), T('h_no_effect', [1, 1, 1, 1], 600, shards=8), T('h_no_effect', [1, 0, 5, 2, 2, 1, 6], 400, shards=8), T('h_no_effect', [2, 1, 4], 6000, shards=24), T('h_no_effect', [2, 0, 2, 3], 4000, shards=16, depth=3),
    *[T('h_no_effect', [1, 1, 2, s], 50, shards=4, depth=3) for s in range(10, 20)],
], 'one (thorough: two) of 13 kinds of refused operations and observations at every point of the construction of every circuit of 2 inputs and 1 operation and of 1 input and 2 operations (thorough: 2 and 2), of units with a call (several shapes of modules), of fixed units with nested modules - '
   'also while the modules are being built - and of fixed circuits of 60 gates; then sizes, meaning of every identifier, evaluation, comparison with and export of an undisturbed circuit; constants and inputs symbolic',
   COMMON + ['operations that stop the program (a panic) instead of returning an error', 'a failed import, which may leave gates behind that no output uses', 'references to unknown gates as operands, which are accepted and reported later (C23)'],
   ['output of unknown', 'call of unknown', 'too few arguments', 'too many arguments', 'lookups of unknown', 'evaluation', 'export', 'export with a map', 'comparison', 'queries', 'registration', 'sub-circuit', 'clone and registry'])

# --- C28
prop('C28', [
    J('h_export_same', [1, 2], 4), J('h_export_same', [1, 1], 75, shards=8), J('h_export_same', [4], 2), J('h_export_same', [5, 2, 2, 2, 1], 30, shards=4), J('h_export_same', [5, 1, 2, 2, 0], 9), J('h_export_same', [6, 6]), J('h_export_same', [8, 100], 2),
    J('h_export_same', [7, 1, 3, 8, 3000, 40, 20], 4, small=False), *[J('h_export_same', [2, s]) for s in range(1, 9)],
    T('h_export_same', [5, 2, 2, 2, 0], 300, shards=8), T('h_export_same', [5, 2, 3, 1, 1], 900, shards=8), *[T('h_export_same', [2, s], 2) for s in range(10, 60)], T('h_export_same', [8, 1000], 60), T('h_export_same', [0, 1, 1], 900, shards=8),
], 'the units and circuits of C04 (2 operations exhaustively over NOT, XOR, AND and constants, one input and two operations over all kinds; units with one and two calls; fixed ones of up to 3000 gates and 100 modules): exported twice, after an evaluation, from a cloned reference, '
   'built again in four ways of registering the modules, and with a further module in the registry; every hash map has its own iteration order; constants symbolic',
   COMMON + ['other circuits'])
