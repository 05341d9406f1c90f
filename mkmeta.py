#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the tables below (run by hand; both files are committed)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
T = "include/thls/tops/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[T + f if "/" not in f or f.startswith(("softfloat/", "ct/")) else f for f in files],
                  mech=[dict(name=n, where=T + w) for n, w in mech], observe=observe, technique=technique, note=note, na=na))


ORACLE = "Assumes GMP/MPFR and the compiler are right and that C++ execution at -O1 represents the code; inputs are sampled (exhaustive only for tiny formats), the format grid is sampled per seed. "

prop("P01", "Addition is correctly rounded in every format",
     "For every pair of operand formats (exponent width 4 or more, fraction width 2 to 62, also different ones for the two operands) and every pair of bit patterns, add returns the exact sum rounded to nearest-even "
     "in the promoted format as if the exponent were unbounded, then infinity if the exponent is too large and zero if it is too small, both with the sign of the sum. "
     "NaN operands and infinities of opposite sign give NaN, an infinity dominates a finite operand, exact cancellation gives +0, and the sum of two zeros is -0 only if both are -0.",
     ["inputs", "configurations"], "all pairs of bit patterns, all instantiations with E>=4 and 2<=F<=62, equal and mixed operand formats",
     "The tests add a few dozen special values and some thousand random pairs for six formats, and compare against the library's own MPFR reference; alignment distances, ties and cancellation at other widths are never reached.",
     ["fp_flopoco_add_dual_v1.hpp", "fp_flopoco_primitives.hpp"],
     [("dual-path adder (near path, far path, rounding)", "fp_flopoco_add_dual_v1.hpp"), ("add<E,F> entry point with promotion", "fp_flopoco_primitives.hpp")],
     ["return value of thls::add<E,F>(x,y)"],
     "online oracle monitor (exact integer arithmetic) on the real adder under hostile workloads, crash and termination monitor")
prop("P02", "Every alternative adder gives the correctly rounded sum",
     "The single-path and small adders in all their published versions (default, v2, v3 for fraction widths 11 to 26, v4, v5, and the fast adder) return the same correctly rounded sum as the specification of add, "
     "for every operand pair and every supported pair of formats: nearest-even, overflow to infinity, underflow to zero, NaN/infinity/zero rules included.",
     ["inputs", "configurations"], "all pairs of bit patterns, all versions and all formats each version supports (E>=4, F<=62, also E>=2 while F<=2^(E+2); fast adder E>=4, F>=2; v3: 11<=F<=26)",
     "Each version is tested for at most a handful of formats with random operands; the version headers are mutually exclusive, so no test compares them.",
     ["fp_flopoco_add_single_v1.hpp", "fp_flopoco_add_single_v2.hpp", "fp_flopoco_add_single_v3.hpp", "fp_flopoco_add_single_v4.hpp", "fp_flopoco_add_single_v5.hpp"],
     [("single-path align/add/normalise/round", "fp_flopoco_add_single_v1.hpp"), ("count-leading-zeros variants", "fp_flopoco_add_single_v3.hpp"), ("ieee-friendly variant", "fp_flopoco_add_single_v5.hpp")],
     ["return values of add_single, add_small, add_single_v5, add_fast"],
     "online oracle monitor (exact integer arithmetic) on all adder versions under hostile workloads, crash and termination monitor")
prop("P03", "Multiplication and squaring are correctly rounded in every format",
     "For operands that share an exponent width but may have different fraction widths, and for every result fraction width, mul (and square, and the version-1 multiplier behind it) returns the exact product rounded to nearest-even, "
     "exactly the product when the result is wide enough; too large becomes infinity, too small becomes zero, with the product's sign. Zero times infinity and NaN operands give NaN.",
     ["inputs", "configurations"], "all pairs of bit patterns; fraction widths with wFX+wFY+2<=128 and any result fraction width",
     "Tests use a few formats with special values and random operands; ties at widths between truncating and exact, rounding carries into the next binade and range borders for mixed widths are not reached.",
     ["fp_flopoco_mul_v1.hpp", "fp_flopoco_primitives.hpp"],
     [("mul_v1: significand product, rounding, exponent and flag selection", "fp_flopoco_mul_v1.hpp"), ("mul/square entry points", "fp_flopoco_primitives.hpp")],
     ["return values of mul, mul_v1, square"],
     "online oracle monitor (exact integer arithmetic) on the real multiplier, crash monitor")
prop("P04", "Division is correctly rounded in every format",
     "For every pair of operand formats and every pair of bit patterns, div (in versions 1 and 2) returns the exact quotient rounded to nearest-even in the promoted format, infinity when it is too large, zero when it is too small, with the quotient's sign. "
     "0/0, inf/inf and NaN operands give NaN, finite/0 gives infinity, finite/inf gives zero.",
     ["inputs", "configurations"], "all pairs of bit patterns; E>=2, F 1..110, equal and mixed operand formats",
     "Tests divide special values and random operands in a few formats; quotients next to a rounding boundary and the parity-dependent digit recurrence at other widths are not reached.",
     ["fp_flopoco_div_v1.hpp", "fp_flopoco_div_v2.hpp", "fp_flopoco_primitives.hpp"],
     [("radix-4 SRT digit recurrence and final rounding", "fp_flopoco_div_v1.hpp"), ("second version", "fp_flopoco_div_v2.hpp")],
     ["return values of div, div_v1, div_v2"],
     "online oracle monitor (exact integer arithmetic) on both dividers, crash monitor")
prop("P05", "Reciprocal and negation return the specified value",
     "inv (and its version 1) returns the correctly rounded reciprocal and inv_direct the correctly rounded table reciprocal in its result format; inv_faithful returns one of the two representable neighbours of the exact reciprocal, and the exact one when it is representable. "
     "neg returns the negated operand rounded into the requested format; overflow, underflow, zero (1/0 is infinity), infinity and NaN behave as in division and conversion.",
     ["inputs", "configurations"], "all bit patterns; inv F 1..110, inv_faithful for its tested pairs and 2<=F<=56 with equal widths, inv_direct for result fractions up to 50 bits, neg between any two formats",
     "Tests cover few formats; the exponent borders of the reciprocal (where it under- or overflows or rounds up to a power of two) are not reached.",
     ["fp_flopoco_inv_v1.hpp", "fp_flopoco_inv_nr.hpp", "fp_flopoco_neg_v1.hpp", "fp_flopoco_primitives.hpp"],
     [("digit-recurrence reciprocal", "fp_flopoco_inv_v1.hpp"), ("table and Newton steps", "fp_flopoco_inv_nr.hpp"), ("neg", "fp_flopoco_neg_v1.hpp")],
     ["return values of inv, inv_v1, inv_faithful, inv_direct, neg"],
     "online oracle monitor on the real reciprocal and negation, crash monitor")
prop("P06", "fma rounds the exact product plus addend",
     "fma(x,y,z) forms the exact product of x and y and returns x*y+z rounded to nearest-even in the result format, or that sum first rounded to the (at least exact-product-wide) internal format and then converted; "
     "overflow, underflow, exact cancellation (+0), zeros, infinities and NaN behave as in mul, add and convert.",
     ["inputs", "configurations"], "all triples of bit patterns; three independent operand formats (FX+FY<=60, FZ<=62) and any result format (F<=100)",
     "The single fma test uses random operands in one format against the library's own reference.",
     ["fp_flopoco_fma.hpp"],
     [("fma: exact mul, add, convert", "fp_flopoco_fma.hpp")], ["return value of fma<E,F>(x,y,z)"],
     "online oracle monitor (exact integer arithmetic) on the real fma, crash monitor")
prop("P07", "Positive dot products round the exact sum towards zero",
     "dot2_pos_rndd and dot4_pos_rndd return, for positive normal operands, the exact sum of two (four) products rounded down to the format: no carry out of bits that are shifted or truncated away is lost. "
     "Sums that are too large give infinity, too small give zero.",
     ["inputs", "configurations"], "all positive normal operand tuples; dot2 F 1..62, dot4 F 1..20",
     "Tests use random operands; a carry that ripples through a long run of ones from far below has negligible probability there.",
     ["fp_flopoco_dot2_pos_rndd.hpp", "fp_flopoco_dot4_pos_rndd.hpp"],
     [("sorting network, alignment, truncating adder tree", "fp_flopoco_dot4_pos_rndd.hpp"), ("two-term version", "fp_flopoco_dot2_pos_rndd.hpp")],
     ["return values of dot2_pos_rndd, dot4_pos_rndd"],
     "online oracle monitor (exact integer sum) with directed carry-chain workloads, crash monitor")
prop("P08", "Conversion between formats rounds once and keeps specials",
     "Converting or promoting a number between any two formats, including to and from the ieee bit layout, yields the nearest-even rounding of the value in the destination format, infinity when too large, zero when too small, always with its sign; promotion to a format at least as wide in both fields is exact. "
     "Zero, infinity and NaN keep class and sign whatever their unused exponent and fraction bits hold; the ieee layout has no subnormals here: they read as zero and no flopoco number converts to one.",
     ["inputs", "configurations"], "all bit patterns; all pairs of source and destination format in either layout",
     "Tests convert a few values in a handful of width pairs; specials with arbitrary payload and ties at other width differences are not reached.",
     ["fp_convert.hpp", "fp_promote.hpp", "fp_flopoco_convert.hpp", "fp_ieee.hpp"],
     [("convert overloads by width relation", "fp_convert.hpp"), ("promote overloads", "fp_promote.hpp"), ("convert<E,F>()", "fp_flopoco_convert.hpp")],
     ["return values / output arguments of convert, promote"],
     "online oracle monitor on every conversion direction, crash monitor")
prop("P09", "Comparisons order values exactly and consistently",
     "equal, not_equal, less_than, less_than_equal, greater_than and greater_than_equal agree with the exact order of the represented values for any two formats: both zeros are equal, infinities of one sign are equal, and every comparison with NaN is false except not_equal. "
     "equals is true exactly for the same class, sign and value (any NaN equals any NaN; in the ieee layout zeros of either sign are equal), and within_1ulp exactly for equal or adjacent representable values, whatever the unused bits of specials hold.",
     ["inputs", "configurations"], "all pairs of bit patterns; equal and mixed formats",
     "Tests compare a short list of values in four formats; specials with arbitrary unused bits, and values that agree except in one field across formats, are not reached.",
     ["fp_flopoco_ordering.hpp", "fp_flopoco.hpp"],
     [("lexicographic comparison on promoted operands", "fp_flopoco_ordering.hpp"), ("equals / within_1ulp", "fp_flopoco.hpp")],
     ["return values of the comparison functions"],
     "online oracle monitor of all comparison predicates at once (consistency and exact order), crash monitor")
prop("P10", "nextup, nextdown and nextafter step to the adjacent value",
     "nextup and nextdown return the adjacent representable value (from the largest finite to infinity and back, from the smallest positive to +0, from -0 up to +0, from +0 to the smallest positive normal and symmetrically downwards), infinities in their own direction and NaN stay put, and nextafter towards an infinity equals them.",
     ["inputs", "configurations"], "all bit patterns of all formats",
     "Tests take neighbours of a few values near one; steps across binades and at the ends of the range in both signs are not reached.",
     ["fp_flopoco.hpp"], [("nextup / nextdown / nextafter", "fp_flopoco.hpp")], ["return values of nextup, nextdown, nextafter"],
     "online oracle monitor on neighbours, exhaustive for small formats, crash monitor")
prop("P11", "Conversions to and from native numbers, MPFR and text are faithful",
     "Constructing a number from an MPFR value of matching precision and reading it back are exact inverses for every representable value in both layouts; an unrepresentable magnitude throws unless over/underflow is allowed, and then becomes infinity or zero with its sign. "
     "Reading into an MPFR variable of other precision rounds in the requested mode; to_double returns the exact value (rounded where double has not the range or precision), construction from a double keeps the value truncated towards zero to the fraction width and flushes or saturates out-of-range magnitudes with their sign (subnormal doubles count as zero). "
     "The printed string names class, sign and exactly the value.",
     ["inputs", "configurations"], "all bit patterns of all formats; all doubles; all MPFR rounding modes",
     "Tests convert a few values; negative numbers in directed modes, infinities, signed zeros and range borders are not reached.",
     ["fp_flopoco.hpp", "fp_ieee.hpp"], [("constructors from double and mpfr, get, to_double, str", "fp_flopoco.hpp"), ("ieee counterparts", "fp_ieee.hpp")],
     ["return values of get, to_double, to_double_approx, str; constructed bit patterns; exceptions"],
     "online oracle monitor against MPFR and hardware doubles, leak and crash monitor")
prop("P12", "Fixed-width integers compute exact values modulo their width",
     "For every width from 1 to 128, the sum, difference, negation, bitwise operations, increments with carry-in, add/subtract selection and shifts by in-range distances of fixed-width unsigned integers (second operand: a word, or any native int for sums and differences, any non-negative one for the rest) equal the mathematical value modulo two to the width, a product of widths A and B is the exact A+B-bit product, and comparisons agree with the integers. "
     "No operation ever leaves a bit set above the width, and conversions to and from native integers, MPZ values and strings are exact.",
     ["inputs", "configurations"], "all operand values; widths 1..128",
     "Only a few widths are exercised indirectly; the storage-size borders (31/32/33, 63/64/65, 127/128) and mixed widths are not tested systematically.",
     ["fw_uint.hpp", "fw_uint_on_masked_uint.hpp"], [("masked representation and operators", "fw_uint_on_masked_uint.hpp"), ("derived operations", "fw_uint.hpp")],
     ["results of fw_uint operators"], "online oracle monitor (128-bit and GMP integers) with representation invariant monitor, crash monitor")
prop("P13", "Bit-slicing, concatenation, selection and lookup act as defined",
     "get_bits, get_bit, take/drop of low or high bits, zero- and one-padding on either side, extension, resizing, concatenation, bit replication, selection chains and table lookups return exactly the bits their definitions name, for every operand and every combination of widths up to 128, with no bit above the result width; a random word maps distinct bits of the generator's output to every one of its bits.",
     ["inputs", "configurations"], "all operand values; all legal combinations of slice bounds and widths",
     "One test covers a few slices; every arithmetic unit is built from these operations at hundreds of width combinations.",
     ["fw_uint.hpp", "fw_uint_on_masked_uint.hpp"], [("slicing and concat primitives", "fw_uint_on_masked_uint.hpp"), ("select, padding, lut", "fw_uint.hpp")],
     ["results of the structural functions"], "online oracle monitor (bit-string model) with representation invariant monitor, crash monitor")
prop("P14", "Bit heaps conserve the weighted sum through every step",
     "Building a bit heap from integers, merging, padding, shifting and compressing heaps never changes the weighted sum of the bits modulo two to the heap width, collapsing yields exactly that sum, and multiplication through a bit heap equals the exact product for every operand pair, width pair and splitting threshold.",
     ["inputs", "configurations", "programs"], "all operand values; all heap shapes and sequences of merges, pads and compressions",
     "Tests compress a few fixed shapes with random bits; full columns, columns of unequal height and carries out of the top are hardly reached.",
     ["bit_heap.hpp", "bit_heap_mul.hpp"], [("3:2 / 2:2 column compressors and collapse", "bit_heap.hpp"), ("recursive splitting multiplier", "bit_heap_mul.hpp")],
     ["fw_uint_to_bit_heap, merge_bit_heaps, pad_bit_heap, compress, bit_heap_collapse, bit_heap_mul"],
     "conservation monitor: an independent weighted-sum checker reads every intermediate heap, crash monitor")
prop("P15", "Row heaps conserve the sum of their rows",
     "Collecting integers into a row heap and compressing it to two rows preserve the sum of the rows modulo two to the heap width, for every number of rows and every width, and collapsing returns exactly that sum.",
     ["inputs", "configurations", "programs"], "all row values; widths 1..128, 2..16 rows, mixed widths",
     "One test with a handful of shapes and random rows.",
     ["row_heap.hpp"], [("3:2 row compressor", "row_heap.hpp"), ("operator+ and collapse", "row_heap.hpp")],
     ["rows before and after compress, value of collapse"],
     "conservation monitor: an independent sum checker reads the rows after every step, crash monitor")
prop("P16", "The LUT-optimised generator follows its defining recurrence",
     "For every state width N from 1 to 128, tap count T and seed S, lut_opt_spec<N,T,S>::step is the linear map over GF(2) its construction defines: starting from the rotation c[i]=(i+1) mod N, T successive Fisher-Yates shuffles "
     "(for j=N..2 swap element j-1 with element (v>>16) mod j) driven by the 32-bit generator v'=1664525*v+1013904223 started at S give permutations p0..p(T-1), one more shuffle of c gives the output order q, and the k-th most significant bit of the next state "
     "is the exclusive-or of the distinct state bits p0[q[k]]..p(T-1)[q[k]]. Iterating step follows exactly that recurrence for ever, the step of a sum of states is the sum of the steps, zero maps to zero, and the operand is not modified.",
     ["inputs", "configurations", "histories"], "all states, all N, T and S, histories of any length",
     "The test steps a few generators from one state and prints the states; it checks nothing.",
     ["lut_opt.hpp", "ct/ct_vec_permute.hpp", "ct/ct_vec_unique.hpp", "ct/ct_rng_lcg_mod_2y32.hpp"], [("step, tap and output permutations", "lut_opt.hpp")], ["state returned by lut_opt_spec::step"],
     "online trace checker: lock-step reference model and linearity monitor over recorded histories")
prop("P17", "Compile-time vectors and generators match their run-time meaning",
     "Reading, writing, swapping, creating, rotating, permuting, deduplicating and folding compile-time vectors give the same elements as the same operations on an ordinary array; a compile-time generator yields the sequence of its recurrence, and skipping n steps equals n single steps. Compile-time minimum and maximum of up to four values, checked shifts by any distance, and comparisons of non-negative fixed-point constants give the mathematical answer, and argument unpacking calls the function with the elements in order.",
     ["programs", "configurations"], "all vector lengths, indices and operation sequences; all seeds and skip distances",
     "No test covers this directory at all.",
     ["ct/ct_vec.hpp", "ct/ct_vec_create.hpp", "ct/ct_vec_permute.hpp", "ct/ct_vec_unique.hpp", "ct/ct_vec_algorithms.hpp", "ct/ct_rng.hpp", "ct/ct_rng_lcg_mod_2y32.hpp", "ct/ct_rng_lcg_mod_p.hpp", "include/thls/core/constfunc_helpers.hpp", "include/thls/tops/function_utils.hpp"],
     [("balanced-tree vector", "ct/ct_vec.hpp"), ("LCG generators with skip_by", "ct/ct_rng_lcg_mod_p.hpp")], ["element values of the resulting types, printed at run time"],
     "trace checker over randomly generated operation sequences, against a model on ordinary arrays")
prop("P18", "Every arithmetic policy computes like the hardware type it stands for",
     "Programs written against a policy (flopoco, ieee-on-flopoco, native, softfloat) give at every step, for values and results in the normal range, bit for bit the result of the corresponding hardware float or double operation, and results outside it become infinity, zero or NaN in the way the policy's number system defines (subnormal results flush to zero where the format has none). "
     "Comparison operators agree with those of the hardware on every pair including NaN, infinities and signed zeros, compound assignments equal their expanded form, and to<> conversions keep every value.",
     ["inputs", "programs"], "all operand pairs, and random multi-step programs of +,*,/ and comparisons",
     "Tests compare single operations on a few hundred positive and negative values with the policy's own reference; no NaN comparisons, no chains.",
     ["policy_flopoco.hpp", "policy_ieee_on_flopoco.hpp", "policy_native.hpp", "policy_softfloat.hpp", "policy_test.hpp"],
     [("wrapper operators", "policy_flopoco.hpp"), ("ieee wrapper", "policy_ieee_on_flopoco.hpp"), ("softfloat operators", "policy_softfloat.hpp")], ["results of the wrapper operators in program traces"],
     "lock-step trace monitor: every step of random programs compared with the hardware result")
prop("P19", "The bundled softfloat is bit-exact IEEE 754",
     "Softfloat addition, multiplication, division and comparison of 32- and 64-bit numbers return bit for bit the IEEE 754 round-to-nearest-even result, subnormals, signed zeros and infinities included, and NaN exactly when IEEE prescribes it; comparisons with NaN are false, both zeros are equal, and operands are not modified.",
     ["inputs"], "all operand pairs",
     "The only test runs the policy test on normal values; subnormals, ties at the subnormal border and 64-bit division remainders are not reached.",
     ["softfloat/softfloat_inline.hpp", "softfloat/src/f32_div.c", "softfloat/src/f64_div.c", "softfloat/src/f64_mul.c", "softfloat/src/s_roundPackToF32.c", "softfloat/src/s_roundPackToF64.c", "softfloat/src/s_addMagsF64.c", "softfloat/src/s_subMagsF64.c"],
     [("round and pack", "softfloat/src/s_roundPackToF64.c"), ("inline replacements of the primitives", "softfloat/softfloat_inline.hpp")], ["returned bit patterns"],
     "online oracle monitor against the hardware FPU, crash monitor")
prop("P20", "No operation has undefined behaviour, touches foreign memory or leaks",
     "Using any operation of the library on operands of its documented domain never executes undefined behaviour (shifts out of range, signed overflow, misaligned or out-of-bounds access, use of indeterminate values), never touches memory it does not own, never fails an internal assertion, and the native helpers release every resource they acquire.",
     ["inputs", "configurations"], "all operations, all operands, all formats",
     "The tests are built without any sanitizer and never look at leaks.",
     ["fp_flopoco.hpp", "fw_uint_on_masked_uint.hpp", "fp_ieee.hpp", "policy_test.hpp", "bit_heap.hpp"],
     [("shift and width guards", "fw_uint_on_masked_uint.hpp"), ("mpfr init/clear pairing", "fp_flopoco.hpp")], ["sanitizer reports, allocator balance"],
     "AddressSanitizer + UndefinedBehaviorSanitizer + LeakSanitizer builds of every workload; valgrind-free uninitialised-value monitor via MemorySanitizer on the integer-only operations")
prop("P21", "Operations are pure and safe to run concurrently",
     "Every arithmetic, comparison and conversion operation depends only on its operands: repeated, reordered and concurrent executions on any number of threads give identical bits, no operation modifies its operands or shared state, and no data race exists between operations on distinct objects or on shared read-only operands.",
     ["schedules", "inputs"], "all interleavings of concurrent calls; all call orders",
     "All tests are single-threaded and call each operation once per operand.",
     ["fp_flopoco_primitives.hpp", "fw_uint_on_masked_uint.hpp", "fp_flopoco_inv_nr.hpp", "fp_flopoco_div_v1.hpp"],
     [("tables initialised at first use", "fp_flopoco_inv_nr.hpp"), ("value semantics", "fp_flopoco_add_dual_v1.hpp")], ["results per thread, ThreadSanitizer reports"],
     "ThreadSanitizer build plus cross-thread result comparison over recorded logs under injected delays")
prop("P22", "Unused bits of zeros, infinities and NaN never influence a result",
     "Zero, infinity and NaN are fully described by class and sign: replacing their exponent and fraction bits (and the sign of a NaN) by any other bits changes neither the class nor the sign nor the value of the result of any operation, comparison or conversion.",
     ["inputs", "configurations"], "all specials with all payloads in every operand position of every operation",
     "Tests build specials through one constructor, which always zeroes the unused bits.",
     ["fp_flopoco.hpp", "fp_flopoco_add_dual_v1.hpp", "fp_flopoco_mul_v1.hpp", "fp_flopoco_div_v1.hpp", "fp_convert.hpp", "fp_flopoco_ordering.hpp"],
     [("flag-driven selection of the result class", "fp_flopoco_add_dual_v1.hpp"), ("flags kept by conversions", "fp_convert.hpp")], ["pairs of results for operands that differ in unused bits only"],
     "metamorphic online monitor: every execution is repeated with scrambled payloads and the results compared")
prop("P23", "The native reference functions are themselves correct",
     "The MPFR-based reference operations users check hardware against (add, mul, div, inv, faithful inv, neg, convert, square, sqrt, fma, log, exp, pow, ldexp, and the round-down dot products) return the correctly rounded value in the requested format under the same rules for specials, overflow and underflow, and the random operand source yields only the classes and signs enabled in it. Operand lists built for tests keep what they held, contain each documented edge case exactly, and reach the requested length.",
     ["inputs", "configurations"], "all operands, all formats",
     "The tests take these functions as ground truth and never check them.",
     ["fp_flopoco.hpp", "fp_ieee.hpp", "fp_convert.hpp", "fp_flopoco_dot2_pos_rndd.hpp", "fp_flopoco_dot4_pos_rndd.hpp"], [("ref_* functions", "fp_flopoco.hpp"), ("fp_flopoco_random_test_source", "fp_flopoco.hpp")], ["return values of the ref_ functions"],
     "online oracle monitor against exact integer arithmetic and independently rounded MPFR at higher precision")
prop("P24", "Classification, field access and numeric limits describe the format",
     "The class and sign predicates are mutually consistent and agree with the bit pattern for every value of both layouts, field accessors return exactly the stored fields, and every numeric_limits constant (min, max, lowest, infinity, NaN, zeros, ones, digits, exponent bounds, traits) denotes exactly the value its name says.",
     ["inputs", "configurations"], "all bit patterns of all formats",
     "Tests use a few of the constants as operands, none checks them.",
     ["fp_flopoco.hpp", "fp_ieee.hpp"], [("is_* predicates and get_* accessors", "fp_flopoco.hpp"), ("numeric_limits specialisations", "fp_flopoco.hpp")], ["predicate and accessor values"],
     "online oracle monitor, exhaustive over all patterns of small formats")

prop("P25", "Results do not depend on how the library is built or traced",
     "Every hardware operation of the library (words, heaps, generators, floating-point units, conversions, comparisons) computes the same value whether it is built for synthesis (THLS_SYNTHESIS) or for simulation, with or without NDEBUG, at any optimisation level, by any supported compiler and language standard, with either fw_uint backend, and with tracing switched on or off: the value is the one the operation specifies, in every such configuration.",
     ["configurations", "inputs"], "all operations on all operands in every build configuration",
     "The tests are one build: simulation mode, asserts on, one compiler, one standard, tracing off. Nothing runs the code a synthesis tool is handed.",
     ["fp_flopoco.hpp", "fp_flopoco_add_dual_v1.hpp", "fp_flopoco_mul_v1.hpp", "fp_flopoco_div_v1.hpp", "fp_flopoco_fma.hpp", "fw_uint.hpp", "fw_uint_on_masked_uint.hpp", "bit_heap.hpp"],
     [("code under THLS_SYNTHESIS", "fw_uint.hpp"), ("code under if(DEBUG)", "fp_flopoco_add_dual_v1.hpp"), ("asserts", "fw_uint_on_masked_uint.hpp")], ["results of the same workloads in every configuration"],
     "online oracle monitors of the other properties on four further builds of a stratified sample of their instantiations: synthesis mode, NDEBUG -O3 C++17, clang with the default backend, tracing on")

DONE = [l.strip() for l in open(os.path.join(V, "claimed.txt")) if l.strip()]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"] or ORACLE + "A pass says the monitor saw no violation on the executions counted in the evidence file."}
                for p in P if p["id"] in DONE],
     "not_applicable": [{"property": p["id"], "reason": p["na"] or "check not built yet"} for p in P if p["id"] not in DONE],
     "hooks": {"guard": "none", "enable": "no hooks: every observation point is a public function's operands and results", "source_commits": []},
     "notes": "Checks rebuild their instantiations from /repo/include on every run; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
