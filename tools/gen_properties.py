#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one-off helper; the .jsonl is what is committed and read)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": mech, "where": ", ".join(files)}]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

FP = ["include/zm2.h", "src/zm2.cpp"]
prop("F01", "Base-field arithmetic is exact and canonical",
 "For all elements of the base prime field, addition, subtraction, negation, multiplication, squaring, inversion and division by non-zero elements, halving and quartering return exactly the mathematical result modulo p. Results are always the unique reduced representative, so equality, ordering against itself and zero tests agree with the mathematical values. This holds whether or not the result overwrites an operand.",
 ["inputs", "configurations"],
 "all pairs of field elements, all operand/result aliasing patterns, both supported primes, both instruction-scheduling modes, with and without mulx",
 "bn.cpp checks a few hundred fixed or simply-derived values; carries/borrows that only propagate for limbs of all ones or all zeros, and results equal to 0 or p-1, have probability about 2^-64 under such samples.",
 FP, "generated assembly for modular add/sub/neg/mul and the Montgomery inverse with a 512-entry table", [("v_", "4 little-endian 64-bit limbs, Montgomery form, always < p"), ("invTbl_", "powers of two used to correct the almost-inverse")])
prop("F02", "Exponentiation is repeated multiplication for every exponent type",
 "Raising an element of any supported field (base field, its degree 2, 6 and 12 extensions, or a modular ring) to a non-negative exponent given as a native integer, a fixed-capacity big integer or a GMP integer gives the product of that many copies (1 for exponent 0), whatever the exponent's length or bit pattern. A negative exponent is rejected by an exception instead of giving a value. The square-root routine succeeds exactly for squares, and its result squared is the argument.",
 ["inputs"],
 "all bases and all exponents of every supported type, including 0, 1, word-boundary and multi-word exponents with zero words, and negative values of the signed types",
 "Tests raise to r, p and a few fixed or 32-bit exponents only; no test uses a negative, zero or sparse multi-word exponent with each exponent type.",
 ["include/zm.h", "include/bn.h", "include/zm2.h"], "mie::power with per-type block extraction; Fp::squareRoot")
prop("F03", "Extension-field arithmetic is exact",
 "In the tower of degree 2, 6 and 12 over the base field, addition, subtraction, negation, multiplication, squaring, multiplication by the tower constant xi or by base-field elements, halving, and inversion of invertible elements return exactly the element defined by the tower's defining polynomials. Every coefficient of a result is fully reduced. Sparse multiplications by line values agree with the full multiplication.",
 ["inputs", "configurations"],
 "all operands including those with zero, extreme or equal coefficients, result/operand aliasing where the operation is offered in place, both tower constants, all code-generation modes",
 "The tests check Karatsuba/lazy-reduction formulas on a handful of values, mostly on the default curve; the SNARK tower (xi = 9+u) is only reached through whole pairings of fixed points.",
 ["include/bn.h", "src/zm2.cpp"], "Fp2T/Fp6T/Fp12T operations, C++ and generated code, lazy reduction", [("xi", "1+u on the default curve, 9+u on the SNARK curve")])
prop("F04", "Double-width lazy reduction is exact",
 "Products of two field elements kept unreduced in double width, and their sums, differences and negations, always represent the exact value modulo p, and reducing them yields the exact canonical field element. The operations documented as modular keep the value inside the range the reduction accepts, including at zero and at the range boundaries.",
 ["inputs", "configurations"],
 "all double-width values in the range each operation accepts, including 0, p*2^256-1 and extreme limb patterns; both primes; all code-generation modes",
 "Tests use few random values; a wrong carry into the high half or a missed conditional correction shows only for values within 2^-60 of a boundary.",
 ["include/zm2.h", "include/bn.h", "src/zm2.cpp"], "Fp::Dbl and Fp2::Dbl/Fp6::Dbl add, sub, neg, mul, mod, square, mul_xi", [("pN", "p * 2^256, the modulus of double-width values")])
prop("F05", "Frobenius, cyclotomic squaring and final exponentiation are exact powers",
 "For every non-zero element of the degree-12 field the three Frobenius maps equal raising to p, p^2 and p^3; for every element of the cyclotomic subgroup the fast squaring and (default curve) the compressed fixed power equal the ordinary powers. The final exponentiation of every non-zero element f equals f to the power (p^12-1)/r times one fixed multiplier of the curve, so its result always has order dividing r.",
 ["inputs", "configurations"],
 "all non-zero field elements, including elements of subfields, 1, elements with zero coefficients and elements already in the target subgroup, on both curves",
 "Tests apply each map to one fixed element; special elements (zero compressed coordinates, subfield elements) and the SNARK addition chain are not covered.",
 ["include/bn.h", "src/zm2.cpp"], "Fp12T::Frobenius*, sqru, mapToCyclo, final_exp; CompressT::square_n, fixed_power")
prop("F06", "Native integers and big integers convert to field elements exactly",
 "Building a base-field element from any native int (negative ones included), or from a fixed-capacity big integer or numeral below the modulus, yields the element congruent to that number, and reading the element back as a big integer gives the canonical value in [0,p). Conversion and read-back are mutually inverse for every element, and integer operands mixed into field expressions act as that element; low-word and parity queries agree with the canonical value.",
 ["inputs"],
 "all 32-bit ints including INT_MIN, all values in [0,p), in both curves",
 "Tests build elements from a few small ints and fixed strings; INT_MIN and values near p or with zero limbs are never used.",
 ["include/zm2.h", "src/zm2.cpp"], "Fp::set(int|Vuint|string), get, getLow, isOdd, setDirect; implicit conversions in operators")
prop("G01", "Group operations on both curves follow the elliptic-curve group law",
 "Adding, doubling, subtracting and negating points of G1 and of the twist gives the group-law result for every pair of curve points in any projective representation, including equal points, opposite points and the point at infinity. The result is a valid representation of that point, also when it overwrites an operand.",
 ["inputs", "configurations"],
 "all pairs of points on the curve and on the twist (in and outside the order-r subgroup), all non-zero projective scalings, all aliasing patterns, both curves (b = 2, 3, 82)",
 "Tests add multiples of one generator in fixed representation; P+P with different Z, P+(-P), infinity on either side and aliasing are sampled at one or two points at most.",
 ["include/bn.h"], "ecop::ECDouble, ECAdd; EcT operators", [("p[3]", "Jacobian coordinates; infinity iff p[2] is zero")])
prop("G02", "Scalar multiplication is exact for every scalar",
 "Multiplying a point of either group by n gives the n-fold sum for every integer n in each supported scalar type (native signed and unsigned, fixed-capacity big integer, GMP integer), including 0, 1, r-1, r, r+1, values longer than r, scalars with zero words, and negative values of the signed types (the negated point's multiple). The result does not depend on the point's projective representation, on the scalar's type, or on the result overwriting the input.",
 ["inputs", "configurations"],
 "all points and all scalars of every supported type and length",
 "Tests use small and a few fixed scalars; negative and sparse multi-word scalars and cross-type agreement are untested.",
 ["include/bn.h", "include/zm.h"], "ecop::ScalarMult with IntTag block extraction")
prop("G03", "Point validity accepts exactly the curve's points",
 "Building a point of either group from affine or projective coordinates with checking on succeeds if and only if the coordinates satisfy the curve equation (the point at infinity included), and otherwise raises the documented error; the validity query gives the same answer. The answer does not depend on the projective representation, and single-coordinate perturbations of valid points are always rejected.",
 ["inputs", "configurations"],
 "all coordinate pairs and triples over the base field and its quadratic extension, on and off the curve, near misses included, for b = 2, 3 and 82",
 "Tests try one bad point per group.",
 ["include/bn.h"], "ecop::isOnECJac3, isOnTwistECJac3 and the Hom variants; EcT::set, isValid")
prop("G04", "Points mean the same in every representation",
 "Two point objects compare equal exactly when they denote the same group element, whatever their projective scaling; normalising or printing a point or comparing it never changes the element it denotes, and normalised coordinates are the unique affine ones (infinity staying infinity). Equality is an equivalence relation, and zero tests hold exactly for infinity.",
 ["inputs", "histories"],
 "all pairs of points, all projective scalings, all histories of comparing, normalising and printing in between",
 "Tests compare a few points in one representation.",
 ["include/bn.h"], "EcT::normalize (lazy, on const objects), operator==, ecop::NormalizeJac/NormalizeHom", [("p[3] mutable", "coordinates that comparison and printing may rescale")])
prop("G05", "The twist endomorphisms are the Frobenius endomorphism and its powers",
 "For every point of the twist, the affine endomorphisms used by the pairing equal the p-power Frobenius map carried to the twist (coordinate-wise p-th power after untwisting), respectively its square, up to the sign the pairing uses. On the order-r subgroup the map multiplies points by p modulo r, and images always lie on the twist.",
 ["inputs", "configurations"],
 "all twist points, inside and outside the order-r subgroup, both curves",
 "Tests check fixed outputs for a single point, on the default curve.",
 ["include/bn.h"], "ecop::FrobEndOnTwist_1, _2, _8 and the constants computed at initialisation")
prop("P01", "The pairing is exactly the specified optimal ate pairing",
 "For every point P of G1 and Q of G2 the pairing equals the textbook reduced optimal ate pairing of (Q,P) raised to the library's fixed final-exponentiation multiplier. The value is 1 if either point is infinity, and the same for every projective representation of the points and through each pairing entry point.",
 ["inputs", "configurations"],
 "all pairs of points in G1 x G2, in affine and projective form, both curves (b = 2, 3, 82), all code-generation modes",
 "bn.cpp compares one constant value per curve and otherwise relies on bilinearity at fixed points.",
 ["include/bn.h", "src/zm2.cpp"], "opt_atePairing, opt_atePairingJac, point/line evaluation, final exponentiation")
prop("P02", "The pairing is bilinear, non-degenerate and of order r",
 "e(aP, bQ) = e(P,Q)^(ab), e(P+P',Q) = e(P,Q)e(P',Q) and e(P,Q+Q') = e(P,Q)e(P,Q') for all points and scalars; every value raised to r is 1; e(P,Q) differs from 1 whenever neither point is infinity. Hence signature, key-agreement and product checks built on it accept exactly the valid instances.",
 ["inputs", "configurations"],
 "all points of G1, G2 and all scalars (zero, negative multiples via r, longer than r), both curves",
 "Tests check bilinearity for a couple of fixed scalars on the generator.",
 ["include/bn.h", "src/zm2.cpp"], "whole pairing pipeline together with scalar multiplication and exponentiation")
prop("P03", "Precomputed and product pairings equal direct pairings",
 "A Miller loop run from precomputed line coefficients of Q, followed by the final exponentiation, gives the same value as the direct pairing for every P and Q other than infinity (these routines take affine points), and the two-pair product loop gives the product of the two pairings. Precomputation depends only on the group element Q (not on its representation), returns Q normalised, leaves its input unchanged, can replace an earlier result in the same container, and can be reused for any number of evaluations.",
 ["inputs", "histories", "configurations"],
 "all pairs (and pairs of pairs) of points, all representations of Q, coefficient vectors reused across evaluations, both curves",
 "Only two fixed point pairs are used, mostly by the SNARK test.",
 ["include/bn.h"], "components::precomputeG2, millerLoop, millerLoop2")
prop("K01", "Results do not depend on code generation or build configuration",
 "Every public operation returns bit-identical results for every supported initialisation option (instruction-scheduling mode automatic, 0 or 1; mulx enabled or disabled), for debug and release builds, for compiler optimisation levels, and for every permitted big-integer capacity.",
 ["configurations", "inputs"],
 "all option combinations x build configurations, over the same operation transcript",
 "The test suite runs the default curve under four option combinations and compares with constants; SNARK builds and debug or other-capacity builds are not run with options at all.",
 ["include/bn.h", "src/zm2.cpp", "include/zm.h", "common.mk"], "CPU detection and per-option code emission; assert-only and capacity-dependent paths")
prop("K02", "Initialisation yields the documented curve parameters and is repeatable",
 "After initialisation with a supported curve the published parameters (p, r, trace, z, curve and twist coefficients, Frobenius constants, loop recoding) satisfy their defining equations and the documented values, and initialising again, with any options and at any time between operations, changes neither parameters nor any result, and switching between the supported curves of a build gives each its own results. A request for an unsupported curve stops with a diagnostic instead of continuing.",
 ["configurations", "histories"],
 "all supported curves and option combinations, any number of repeated initialisations interleaved with operations",
 "Tests initialise once per process and compare some constants of the default curve.",
 ["include/bn.h", "src/zm2.cpp"], "Param::init, Fp::setModulo, zmInit, signed-digit recoding of the loop constant")
prop("K03", "Operations are pure: inputs untouched, results history-independent",
 "Every operation reads its inputs without changing them (unless the caller passed the same object as output) and its result depends only on the values of its inputs, never on which operations ran before, on the previous content of the output object or on repetition. Library-wide state is not changed by any operation after initialisation.",
 ["histories", "inputs"],
 "all sequences of operations over shared operands; arbitrary garbage in output objects",
 "Unit tests run each operation once, into fresh objects, in one fixed order.",
 ["include/bn.h", "include/zm2.h", "src/zm2.cpp", "src/zm.cpp"], "static tables and generated code shared by all operations; in-place temporaries")
prop("I01", "Unsigned big-integer arithmetic is exact within capacity",
 "For all values whose results and operand-size sums fit the configured capacity, addition, subtraction of a smaller value, multiplication, quotient and remainder by non-zero divisors, shifts, comparison, bit length and bit tests equal the integer results, in every aliasing pattern. Representations are always normalised (no leading zero word), so equality is value equality.",
 ["inputs", "configurations"],
 "all operand values and lengths up to capacity, all shift counts and bit indices, all aliasing patterns, capacities from the documented minimum up",
 "test_zm samples random values; double-precision quotient estimation and carry chains fail only for rare limb patterns.",
 ["include/zm.h", "src/zm.cpp"], "VuintT operators; generated addN/subN/mul1 etc.; floating-point quotient estimate in division", [("size_", "number of significant limbs; top limb non-zero unless the value is 0")])
prop("I02", "Signed big-integer arithmetic follows floor-division integer semantics",
 "For all signed values within capacity, addition, subtraction, multiplication, negation, comparison, left shift and conversion from every native integer equal the integer results; quotient and remainder follow floor division (the remainder has the divisor's sign). Zero has no sign: it is equal to, ordered with and printed like zero however it was produced.",
 ["inputs"],
 "all sign combinations, magnitudes and aliasing patterns, native extremes included",
 "test_zm checks a table of small values.",
 ["include/zm.h"], "VsintT", [("isNeg_", "sign flag kept beside the magnitude")])
prop("I03", "Modular-ring arithmetic is exact",
 "In the ring of integers modulo any chosen m > 1, construction from native integers (negative ones down to -m), big integers, words and numerals, and addition, subtraction, negation, multiplication (and, for prime m, inversion and division) give the exact reduced representative in [0,m), in every aliasing pattern. Rings with different tags are independent, and changing one modulus does not affect another.",
 ["inputs", "histories"],
 "all moduli within half the capacity, all elements, small moduli included",
 "Tests use two or three moduli and a few elements.",
 ["include/zm.h"], "ZmZ")
prop("I04", "Requests beyond capacity or domain never yield a wrong answer silently",
 "When a big-integer result would exceed the configured capacity, a subtraction would go below zero, a negative value would be right-shifted, or a negative native integer of larger magnitude than the modulus is assigned, the library stops with a diagnostic and non-zero exit status instead of returning a wrong value or writing outside the object.",
 ["inputs", "configurations"],
 "all operations and operands that cross the capacity or domain boundary by any amount",
 "No test crosses the boundary, since the process ends.",
 ["include/zm.h"], "FixedBuffer::verify, local::errExit")
prop("S01", "Text output parses back to the same value",
 "Every value of every printable type (big integers, signed big integers, base and extension field elements, points of both groups including infinity) printed in decimal, or in hexadecimal where offered, is the canonical numeral of its value, and parsing that text by string or stream gives an equal value. Several values separated by white space in one stream are read back in order.",
 ["inputs"],
 "all values including zero, words with leading zeros and values filling the capacity the decimal reader supports; both bases; single values and streams of several",
 "Tests print and parse a few values.",
 ["include/zm.h", "include/zm2.h", "include/bn.h"], "toString/set/operator<</operator>>; zero padding of inner words")
prop("S02", "Malformed text is rejected by an exception",
 "Text that is not a numeral of the documented form (decimal digits, or 0x followed by hexadecimal digits; an optional leading minus only for signed integers), an extension-field element with wrong brackets or separators, a point without its separator, and a pair of coordinates that is not on the curve, raise an exception on parsing, and extracting a number from a stream that does not hold one sets the stream's fail state: never a silently invented value, a process exit, a crash or a hang. A rejected parse leaves other objects untouched and later parses unaffected.",
 ["inputs"],
 "all byte strings up to several hundred characters whose runs of digits fit the capacity (longer ones are I04), in particular single-character corruptions of valid text",
 "Tests parse only well-formed text and one bad point string.",
 ["include/zm.h", "include/zm2.h", "include/bn.h"], "VuintT::set(string), getDigits, the Fp2/Fp6/Fp12/EcT extraction operators")
prop("M01", "Every documented use is free of memory errors and undefined behaviour",
 "Whatever valid arguments are passed to any public operation, the library reads and writes only the objects it was given and its own tables, reads no uninitialised memory, and executes no undefined behaviour; its internal assertions hold.",
 ["inputs", "histories", "configurations"],
 "all operations on all valid inputs in debug and release builds, both curves",
 "The suite runs without sanitizers and with assertions compiled out.",
 ["include/zm.h", "include/zm2.h", "include/bn.h", "src/zm.cpp", "src/zm2.cpp", "java/bn254_if.hpp"], "raw limb pointers, fixed-capacity buffers, alloca scratch, generated code")
prop("M02", "Generated code obeys the calling convention and touches only its operands",
 "Each routine produced by run-time code generation preserves every register and flag the platform ABI requires, balances the stack, and reads and writes only its operand objects, for all operand values, alignments the types allow, and aliasing patterns, in every code-generation mode.",
 ["inputs", "configurations"],
 "all generated routines x operand values x operand placements (including next to unmapped pages) x modes, both curves",
 "Compiler sanitizers and unit tests cannot see inside generated code: a clobbered callee-saved register only matters if the compiler happened to use it.",
 ["src/zm2.cpp", "src/zm.cpp"], "Xbyak-emitted prologues/epilogues, hand register allocation")
prop("T01", "After initialisation, concurrent use is race-free and gives sequential results",
 "Once initialisation has completed, any number of threads may concurrently run any operations on their own output objects while sharing read-only inputs (points in normalised form), with no data race, and each gets exactly the result it would get alone. No operation writes library-wide state after initialisation.",
 ["schedules", "inputs"],
 "all interleavings of operations of any number of threads over shared normalised inputs",
 "No test uses threads.",
 ["include/bn.h", "include/zm2.h", "include/zm.h", "src/zm2.cpp"], "static tables, function pointers and generated code shared by all threads; lazy normalisation on const points")
prop("J01", "The Java binding computes what the C++ library and its documentation specify",
 "Through the Java classes every documented operation (big integers, field elements of degree 1, 2 and 12, points of both groups, pairing, text conversion, group order) gives the mathematically specified result, updates only the receiver, and agrees with the native library; sub-object accessors refer to the live component. Coordinates off the curve, malformed numerals and division by zero are reported as exceptions instead of ending the virtual machine or storing a wrong value.",
 ["inputs", "histories"],
 "all operation sequences over the documented Java classes",
 "BN254Test and java_api run one fixed scenario.",
 ["java/bn254_if.hpp", "java/bn254_if.i", "java/java.md"], "wrapper classes over bn:: types, SWIG glue and exception mapping")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
