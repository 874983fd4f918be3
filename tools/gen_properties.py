#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property list)."""
import json, os
A = "include/nil/crypto3/algebra/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[f if f.startswith("include") else A + f for f in files],
                               state=state or [],
                               mechanism=[dict(name=n, where=(w if w.startswith("include") else A + w)) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

NOTEST = ("The repository's running tests are a dozen static_asserts over matrix and vector literals; nothing in them "
          "instantiates this code, and the Boost tests that would need the absent multiprecision library and sample a few points. ")

p("C01", "Vector and matrix elementwise operators act on every component",
  "For vectors and matrices of every size and element type, ==, !=, +, *, / between containers of one shape or between a container and a scalar, "
  "and elementwise, cast, conj, sqrt, real, imag and abs, yield in each position exactly the scalar operation applied to that position's operands, with the operand order as written. "
  "Equality holds if and only if all positions are equal, and no operation changes its arguments.",
  ["inputs"], "all container sizes and element types (integers with their wrap-around, floating point incl. negative zero, infinities and NaN, complex), all component values",
  "The quantifier is every size and value; the static_asserts check operator+, == and != on one 3-vector of ints.",
  ["vector/operators.hpp", "vector/math.hpp", "vector/utility.hpp", "vector/vector.hpp", "matrix/operators.hpp", "matrix/math.hpp", "matrix/utility.hpp", "include/nil/crypto3/detail/same_value.hpp"],
  [("elementwise", "vector/utility.hpp"), ("elementwise", "matrix/utility.hpp"), ("operators", "vector/operators.hpp"), ("operators", "matrix/operators.hpp")],
  ["return values of the free operators and functions on vector/matrix"])

p("C02", "Vector and matrix shape operations only move elements",
  "Access, rows and columns, slice, concat, rotate, iota, fill, generate, linspace, transpose, hermitian, submat, reshape, repmat, swaprow, swapcol, horzcat, vertcat, as_row, as_column and identity "
  "place in every output position exactly the element their documentation names, for every shape and every index or rotation amount. "
  "Out-of-range row, column or submatrix indices are rejected with an exception, never by reading outside the container.",
  ["inputs"], "all shapes including non-square and 1xN, all indices incl. out of range and extreme ones, all rotation amounts incl. negative",
  "The tests look at one 3x3 and one 4-vector; index arithmetic errors only show on non-square shapes, negative rotations or out-of-range indices.",
  ["vector/utility.hpp", "vector/vector.hpp", "matrix/utility.hpp", "matrix/matrix.hpp", "matrix/math.hpp"],
  [("index arithmetic of generate lambdas", "matrix/utility.hpp"), ("bounds checks", "matrix/matrix.hpp"), ("rotate/slice/concat", "vector/utility.hpp")],
  ["return values; AddressSanitizer/UBSan reports"])

p("C03", "Vector and matrix reductions and products match their definitions",
  "sum, accumulate, dot (second argument conjugated), min, max, min_index, max_index (first extremal position), trace, macs, mars, matmul, vectmatmul, matvectmul and kron return the value their documented formula defines, "
  "over integers exactly and over floating-point and complex elements within rounding.",
  ["inputs"], "all sizes, all element values including ties, negatives and extremal positions",
  "Tests check one sum and one 3x3 matmul; ties, all-negative data, non-square products and complex elements are not reached.",
  ["vector/math.hpp", "vector/utility.hpp", "matrix/math.hpp"],
  [("accumulate", "vector/utility.hpp"), ("sum/min/max/dot", "vector/math.hpp"), ("matmul, kron, macs, mars, trace", "matrix/math.hpp")],
  ["return values of the reductions"])

p("C04", "Gauss-Jordan solves: rref, rank, det and inverse are the true ones",
  "For every real matrix that is well conditioned relative to the documented tolerance, rank is the true rank, rref the unique reduced row echelon form, det the determinant, "
  "and inverse either the inverse or, exactly when the matrix is singular, an exception. The results do not depend on row order or on a common scale of the entries.",
  ["inputs"], "all shapes; integer-valued matrices of every rank, zero matrices, row permutations, power-of-two scalings",
  "One 2x2 and one 3x3 matrix are tested, and det is never called; pivot choice, sign and scale only show on other matrices.",
  ["matrix/math.hpp"], [("gauss_jordan_impl", "matrix/math.hpp"), ("tolerance max(N,M)*eps*mars", "matrix/math.hpp")],
  ["rank(), rref(), det(), inverse() results against exact rational elimination"])

p("C05", "Scalar functions terminate with accurate results",
  "sqrt, nthroot, exponentiate, abs and conj return the mathematical value within a few units in the last place (abs and conj exactly) for every argument in their domain, reject negative radicands with an exception, and always terminate.",
  ["inputs"], "all non-negative doubles and floats incl. 0, subnormals, huge values and infinity; all int exponents, degrees 1 to 1000 (accuracy of nthroot: normal numbers); complex arguments",
  "No test calls them; convergence loops hang or lose accuracy only for particular magnitudes.",
  ["scalar/math.hpp"], [("Newton iterations", "scalar/math.hpp"), ("square and multiply", "scalar/math.hpp")],
  ["return values, CPU-time watchdog"])

p("C06", "Compile-time and run-time evaluation agree and are free of UB",
  "Evaluating the library's constexpr vector, matrix, scalar, field and curve operations in a constant expression gives bit for bit the value obtained by calling them at run time on the same arguments, and no such evaluation has undefined behaviour. "
  "Every vector, matrix and scalar operation, and every arithmetic operation declared constexpr on field elements and points other than scalar multiplication (whose recoding allocates), is usable in a constant expression.",
  ["inputs", "configurations"], "every constexpr operation, sample arguments of each kind; optimisation levels 0-3, two compilers",
  "The static_asserts only run the compile-time side, for a handful of vector and matrix functions.",
  ["vector/math.hpp", "matrix/math.hpp", "scalar/math.hpp", "fields/detail/element/fp.hpp", "curves/detail/scalar_mul.hpp", "include/nil/crypto3/detail/make_array.hpp"],
  [("constexpr functions", "matrix/math.hpp"), ("constexpr field elements", "fields/detail/element/fp.hpp")],
  ["paired constant-evaluated and run-time results of the same expression"])

p("C07", "Prime-field elements compute in Z/p",
  "For every predefined prime field, +, -, *, unary minus, doubling, squaring, increments and decrements, inversion, pow with built-in and multiprecision exponents, comparison, equality and conversion from integers agree with arithmetic modulo the field's modulus, "
  "for every pair of elements, in value and compound-assignment forms alike, including aliased operands.",
  ["inputs"], "every field in the library, all elements: exhaustive on small primes, random and boundary values (0, 1, p-1, values >= p at construction) on the real moduli",
  NOTEST, ["fields/detail/element/fp.hpp", "fields/field.hpp", "fields/params.hpp", "fields/detail/element/operations.hpp", "fields/detail/exponentiation.hpp"],
  [("element_fp", "fields/detail/element/fp.hpp"), ("mixed element/integer operators", "fields/detail/element/operations.hpp")],
  ["element values read back as integers after each operation"])

p("C08", "Extension towers compute in the quotient ring they name",
  "Fp2, Fp3, Fp4, Fp6 (both towers) and Fp12 elements add, subtract, negate, double, multiply, square, invert, raise to powers and multiply by sparse or special elements exactly as polynomials modulo the tower's irreducible binomials do. "
  "Whenever a specialised routine (sparse product, non-residue product, cyclotomic squaring or power, unitary inverse) applies, it equals the general operation.",
  ["inputs"], "every extension field instantiated by the library, all elements incl. zero coordinates and subfield elements; also towers over small primes",
  NOTEST, ["fields/detail/element/fp2.hpp", "fields/detail/element/fp3.hpp", "fields/detail/element/fp4.hpp", "fields/detail/element/fp6_2over3.hpp", "fields/detail/element/fp6_3over2.hpp", "fields/detail/element/fp12_2over3over2.hpp"],
  [("Karatsuba/complex multiplication and squaring", "fields/detail/element/fp12_2over3over2.hpp")],
  ["coordinates after each operation"])

p("C09", "Frobenius maps are p-power maps",
  "For every extension field, Frobenius_map(k) equals raising to the power p^k for every k, on every element. On the cyclotomic subgroup the cyclotomic squaring, exponentiation and unitary inverse agree with the general ones.",
  ["inputs"], "every extension field of every curve, every power k in and beyond the period, all elements",
  NOTEST, ["fields/detail/extension_params/bls12/fp12_2over3over2.hpp", "fields/detail/extension_params/alt_bn128/fp12_2over3over2.hpp", "fields/detail/extension_params/mnt4/fp4.hpp", "fields/detail/extension_params/mnt6/fp6_2over3.hpp", "fields/detail/extension_params/edwards/fp6_2over3.hpp", "fields/detail/element/fp12_2over3over2.hpp"],
  [("Frobenius_coeffs tables", "fields/detail/extension_params/bls12/fp12_2over3over2.hpp")],
  ["Frobenius_map(k) against pow(p^k)"])

p("C10", "Square roots and quadratic-residue tests are right",
  "For every element a of a prime or quadratic/cubic extension field, is_square is true exactly when a is a square; for every square (zero included) sqrt terminates and its square is a.",
  ["inputs"], "every field with square roots, all elements: squares, non-squares, zero, one; exhaustive over small fields",
  NOTEST, ["fields/detail/element/fp.hpp", "fields/detail/element/fp2.hpp", "fields/detail/element/fp3.hpp"],
  [("ressol", "fields/detail/element/fp.hpp"), ("Tonelli-Shanks", "fields/detail/element/fp2.hpp")],
  ["is_square() and sqrt()^2"])

p("C11", "Field constants are mutually consistent",
  "For every predefined field the published constants satisfy their definitions: the modulus is an odd prime of the declared bit size, (p-1)/2 and the two-adicity decomposition are exact, the generator and non-residues are non-residues, roots of unity have exactly the declared order, "
  "and the extension fields' non-residues make the towers irreducible.",
  ["configurations"], "every field and every constant in the library",
  NOTEST, ["fields/arithmetic_params/bls12.hpp", "fields/arithmetic_params/mnt4.hpp", "fields/arithmetic_params/mnt6.hpp", "fields/arithmetic_params/edwards.hpp", "fields/arithmetic_params/alt_bn128.hpp", "fields/bls12/base_field.hpp", "fields/secp/secp_k1/base_field.hpp"],
  [("arithmetic_params", "fields/arithmetic_params/bls12.hpp"), ("modulus and group_order_minus_one_half", "fields/bls12/base_field.hpp")],
  ["constants read from the types at run time"])

p("C12", "Short Weierstrass point arithmetic is the group law",
  "In every short Weierstrass coordinate system, addition, subtraction, negation, doubling, mixed addition and their in-place forms compute the chord-and-tangent group law on the curve y^2 = x^3 + ax + b, for every pair of points, "
  "including the identity, equal points, opposite points, points of order two and any representative of a projective class.",
  ["inputs"], "all pairs of points with all representatives: exhaustive over small curves with a = 0, a = -3 and general a; random and special points on the real curves",
  NOTEST, ["curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp", "curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp", "curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp", "curves/detail/forms/short_weierstrass/projective/element_g1.hpp", "curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp", "curves/detail/forms/short_weierstrass/element_g1_affine.hpp"],
  [("add/dbl/madd formula structs", "curves/detail/forms/short_weierstrass/jacobian/add_2007_bl.hpp"), ("special-case handling", "curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp")],
  ["affine value of each result"])

p("C13", "Edwards and twisted Edwards point arithmetic is the group law",
  "In every Edwards and twisted Edwards coordinate system (affine, inverted, extended), addition, subtraction, negation, doubling and mixed addition compute the unified Edwards law of the curve, for every pair of points the representation can express, the neutral element and small-order points included.",
  ["inputs"], "all pairs of points with all representatives: exhaustive over small complete curves; random and small-order points on the real curves",
  NOTEST, ["curves/detail/forms/edwards/inverted/element_g1.hpp", "curves/detail/forms/twisted_edwards/element_g1_affine.hpp", "curves/detail/forms/twisted_edwards/inverted/element_g1.hpp", "curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp"],
  [("add/dbl/madd formula structs", "curves/detail/forms/twisted_edwards/extended_with_a_minus_1/add_2008_hwcd_3.hpp")],
  ["affine value of each result"])

p("C14", "Conversions between coordinates and curve models preserve points",
  "Converting a point between affine, projective, Jacobian, inverted and extended coordinates and back gives the same point, for every point and representative. "
  "The Montgomery/twisted Edwards birational maps are inverse group homomorphisms wherever they are defined.",
  ["inputs"], "all points and representatives, exhaustive on small curves; random points on the real ones",
  NOTEST, ["curves/detail/forms/montgomery/element_g1_affine.hpp", "curves/detail/forms/twisted_edwards/element_g1_affine.hpp", "curves/detail/forms/short_weierstrass/element_g1_affine.hpp"],
  [("to_affine/to_projective/to_twisted_edwards/to_montgomery", "curves/detail/forms/montgomery/element_g1_affine.hpp")],
  ["coordinates before and after conversion"])

p("C15", "Point equality and validity tests decide the curve",
  "Two point objects compare equal exactly when they represent the same point, whatever their representatives; is_zero holds exactly for the neutral element; "
  "is_well_formed is true for every representative of every curve point and false for every coordinate tuple that is not on the curve.",
  ["inputs"], "all coordinate tuples over small fields, all representatives; perturbed points on the real curves",
  NOTEST, ["curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp", "curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp", "curves/detail/forms/edwards/inverted/element_g1.hpp"],
  [("operator==, is_well_formed, is_zero", "curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp")],
  ["boolean results over enumerated coordinate tuples"])

p("C16", "Curve constants describe real prime-order groups",
  "For every predefined curve and coordinate system, zero() is the neutral element, one() is a curve point of exactly the declared prime order (the scalar field's modulus), the curve coefficients are those of the published curve, and the coordinate systems of one curve agree on the generator. ",
  ["configurations"], "every curve group (G1 and G2) in the library, every coordinate system it is offered in",
  NOTEST, ["curves/detail/bls12/381/short_weierstrass_params.hpp", "curves/detail/mnt4/298/short_weierstrass_params.hpp", "curves/detail/secp_k1/256/short_weierstrass_params.hpp", "curves/detail/curve25519/params.hpp", "curves/detail/jubjub/params.hpp"],
  [("one_fill/zero_fill, a, b, cofactor", "curves/detail/bls12/381/short_weierstrass_params.hpp")],
  ["constants read at run time"])

p("C17", "Scalar multiplication is repeated addition",
  "For every curve group and every scalar given as field element, unsigned integer or multiprecision integer, scalar * P equals P added to itself that many times; it is additive in the scalar and in the point, scalars 0, 1 and order-1 included, "
  "and subgroup_check holds exactly for the points that the group order annihilates.",
  ["inputs"], "all scalars in [0, order] and beyond, all points incl. identity and non-subgroup points; exhaustive on small groups",
  NOTEST, ["curves/detail/scalar_mul.hpp", "curves/detail/subgroup_check.hpp", "curves/detail/bls12/g1.hpp", "curves/detail/bls12/g2.hpp"],
  [("wNAF and double-and-add", "curves/detail/scalar_mul.hpp")],
  ["results of scalar * point"])

p("C18", "Pairings are bilinear and non-degenerate",
  "For every pairing-friendly curve with a pairing, the reduced pairing of subgroup points satisfies e(aP,bQ) = e(P,Q)^(ab) and e(P+P',Q) = e(P,Q)e(P',Q) and likewise in the second argument, equals one if either argument is the identity, "
  "and is an element of order exactly r on the generators.",
  ["inputs"], "all subgroup points and scalars, identity included",
  NOTEST, ["algorithms/pair.hpp", "pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp", "pairing/mnt4/298/ate_miller_loop.hpp", "pairing/mnt6/298/ate_miller_loop.hpp", "pairing/edwards/183/ate_miller_loop.hpp"],
  [("Miller loops and final exponentiation", "pairing/forms/short_weierstrass/jacobian_with_a4_0/final_exponentiation.hpp")],
  ["values of pair_reduced on scalar multiples"])

p("C19", "Pairing stages compose: precomputation, double Miller loop, final exp",
  "The double Miller loop on two pairs equals the product of the single loops after final exponentiation; pairing through precomputed arguments equals the direct pairing and precomputed values are reusable; "
  "the final exponentiation raises every non-zero target-field element to the fixed exponent its definition names.",
  ["inputs"], "all pairs of points, all non-zero target-field elements (not only Miller outputs)",
  NOTEST, ["pairing/forms/short_weierstrass/jacobian_with_a4_0/final_exponentiation.hpp", "pairing/mnt4/298/ate_double_miller_loop.hpp", "pairing/mnt6/298/final_exponentiation.hpp", "pairing/edwards/183/final_exponentiation.hpp"],
  [("precompute structs", "pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp"), ("final exponentiation chains", "pairing/mnt4/298/final_exponentiation.hpp")],
  ["stage outputs compared with products and plain powers"])

p("C20", "Multi-exponentiation equals the naive sum",
  "For every list of points and scalars and every policy (naive, Bos-Coster, BDLO12) and chunk count, multiexp and multiexp_with_mixed_addition equal the sum of scalar*point, including empty lists, repeated and identity points, zero, one and maximal scalars, and inner_product likewise.",
  ["inputs", "configurations"], "all list lengths, chunk counts, scalar distributions, policies, groups",
  NOTEST, ["multiexp/multiexp.hpp", "multiexp/policies.hpp", "multiexp/inner_product.hpp"],
  [("policies", "multiexp/policies.hpp"), ("chunking", "multiexp/multiexp.hpp")],
  ["result against direct sum"])

p("C21", "wNAF and fixed-base window exponentiation equal plain multiplication",
  "fixed_window_wnaf_exp with any window size and opt_window_wnaf_exp with any table equal scalar*base, every entry of a fixed-base window table is the multiple of the base its position names, and windowed_exp, batch_exp and batch_exp_with_coeff over such a table equal elementwise scalar*base (times the coefficient), for every base, scalar, window and table size; the window chosen for a number of scalars is the one the curve's table names.",
  ["inputs", "configurations"], "all scalars, window sizes 1..n, table sizes, batch lengths, batch coefficients",
  NOTEST, ["wnaf.hpp", "multiexp/multiexp.hpp"],
  [("fixed_window_wnaf_exp, opt_window_wnaf_exp", "wnaf.hpp"), ("get_window_table, windowed_exp, batch_exp", "multiexp/multiexp.hpp")],
  ["results against scalar*base"])

p("C22", "Hash-to-curve maps land on the curve and follow the standard map",
  "The simplified SWU map sends every field element to a point of the isogenous curve with matching sign and equals the published map, the isogeny sends that curve's points homomorphically to points of the target curve "
  "(its kernel to the identity), and their composition is the published map to the target curve for every field element.",
  ["inputs"], "all field elements incl. exceptional ones (0, and those with zero denominators), all isogenous-curve points",
  NOTEST, ["curves/detail/h2c/h2c_m2c.hpp", "curves/detail/h2c/h2c_iso_map.hpp"],
  [("map_to_curve_simple_swu", "curves/detail/h2c/h2c_m2c.hpp"), ("iso_map", "curves/detail/h2c/h2c_iso_map.hpp")],
  ["map outputs checked against the curve equations"])

p("C23", "Point and field serialisation round-trips",
  "Serialising any subgroup point of a supported curve and deserialising the bytes returns the same point, the byte string follows the documented compressed or uncompressed format and depends on nothing but the point, "
  "field elements round-trip with success status through their fixed-width little-endian form, and malformed flags, lengths or coordinates (off the curve, not below the modulus) are reported (assertion or failure status) rather than decoded to another value.",
  ["inputs"], "all points incl. identity and both signs, any prior contents of the output buffer, mutated byte strings",
  NOTEST, ["marshalling.hpp", "curves/detail/marshalling.hpp"],
  [("flag bytes, sign tests, recover_x", "marshalling.hpp")],
  ["bytes and decoded points"])

p("C24", "Random elements are uniform members of their structure",
  "random_element of a field yields canonical elements covering the whole field uniformly, of an extension field independent uniform coordinates, and of a curve group points of the prime-order subgroup; the same generator state gives the same element.",
  ["inputs", "histories"], "all generator states; distribution over many draws on small and real fields",
  NOTEST, ["random_element.hpp"], [("uniform_int_distribution over [0, modulus]", "random_element.hpp")],
  ["drawn elements, chi-square statistic on small fields"])

p("C25", "Number-theoretic helpers are exact",
  "Primality, factorisation and totient helpers return the mathematically correct value for every argument in range and always terminate.",
  ["inputs"], "all arguments up to a bound exhaustively, random larger ones",
  NOTEST, ["primes.hpp", "totient.hpp"], [("Pollard rho and Miller-Rabin", "primes.hpp"), ("totient_list", "totient.hpp")],
  ["return values against a sieve"])

p("C26", "Byte, bit and metaprogramming helpers do what they are named",
  "strxor xors element by element into the output for every length and aliasing; the unbounded shifts equal multiplication or division by a power of two for every shift amount; array builders preserve element order; state_adder adds elementwise; same-value and unsigned-type helpers select exactly the documented value or type.",
  ["inputs"], "all lengths, aliasing, shift amounts (also beyond the width), all type parameters used",
  NOTEST, ["algorithms/strxor.hpp", "include/nil/crypto3/detail/unbounded_shift.hpp", "include/nil/crypto3/detail/make_array.hpp", "include/nil/crypto3/detail/make_uint_t.hpp", "include/nil/crypto3/detail/same_value.hpp", "include/nil/crypto3/detail/state_adder.hpp", "include/nil/crypto3/detail/octet.hpp"],
  [("strxor", "algorithms/strxor.hpp"), ("unbounded_shl/shr", "include/nil/crypto3/detail/unbounded_shift.hpp")],
  ["return values and output buffers under sanitizers"])

p("C27", "Type traits classify every type of the library correctly",
  "is_field, is_extended_field, is_field_element, is_extended_field_element, is_curve (a curve with both pairing groups and a target field), is_curve_group, is_group_element, is_g1/is_g2_group_element, has_mixed_add, is_complex, remove_complex and the container, iterator and policy (hash, cipher, codec, mac, kdf, passhash) detection traits are true for exactly the types that model the concept; a lookalike type missing one required member does not.",
  ["configurations"], "every field, curve, group, element, container and complex type and near-miss types lacking one member",
  NOTEST, ["type_traits.hpp", "include/nil/crypto3/detail/type_traits.hpp"],
  [("member detection", "type_traits.hpp")],
  ["trait values recorded for a catalogue of types"])

p("C28", "Hashing and printing are consistent with equality",
  "Equal field elements have equal hashes and equal printed forms, however they were computed, and different ones print differently; printed field elements, points and pairing precomputations are well-formed JSON that contains every coordinate.",
  ["inputs"], "all elements, different operation histories reaching the same value",
  NOTEST, ["fields/detail/element/fp.hpp", "fields/detail/element/fp2.hpp", "curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp", "pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp"],
  [("operator<<, std::hash", "fields/detail/element/fp.hpp")],
  ["hash values and printed text"])

p("C29", "Concurrent use on shared read-only inputs is race free and deterministic",
  "Threads that call field, curve, pairing, multi-exponentiation, serialisation, number theory, vector and matrix operations concurrently on shared constant inputs never race and obtain exactly the results a single thread obtains, from the first call on.",
  ["schedules", "inputs"], "any interleaving of read-only use by several threads, including first use of static constants",
  "No test starts a thread; races on lazily initialised or hidden mutable state need concurrent first use to show.",
  ["fields/detail/element/fp.hpp", "curves/detail/scalar_mul.hpp", "multiexp/multiexp.hpp", "algorithms/pair.hpp"],
  [("constexpr static constants, no hidden mutable state", "fields/detail/element/fp.hpp")],
  ["ThreadSanitizer reports and per-thread results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P))
