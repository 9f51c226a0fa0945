"""Source of properties.jsonl and of the checks list in MANIFEST.json: run tools/gen.py after editing."""
A = "include/nil/crypto3/algebra/"
D = "include/nil/crypto3/detail/"
PROPS = []


def P(id, title, statement, text, tests, files, mech, tech, note, over=("inputs",), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, tests=tests, files=files, mech=mech, tech=tech, note=note, observe=list(observe)))


NB = "Model-checked by exhaustive enumeration on the real templates within the bounds recorded in the evidence file; trusts the compiler and the small model in checks/. "

P("C01", "Vector arithmetic and comparison act element by element",
  "For every length, scalar type and content, adding, multiplying (vector with vector, vector with scalar on either side) and dividing (vector by vector, scalar by vector) gives the vector whose i-th element is that operation applied to the i-th operands in the written order; elementwise and cast apply the function to each position exactly once. Two vectors are equal exactly when all elements are equal, and unequal exactly when they are not equal. Operands are never modified.",
  "all vector lengths, element values and scalar types, including non-commutative ones",
  "test/vector.cpp has one static_assert for + and one each for == and != on length-3 int vectors; no other operator, length, position or type is exercised.",
  [A + "vector/operators.hpp", A + "vector/utility.hpp", A + "vector/vector.hpp"],
  [("element loops in operator+,*,/,==,!=", A + "vector/operators.hpp"), ("elementwise / cast", A + "vector/utility.hpp")],
  "exhaustive explicit-state enumeration of operand vectors on the real templates against a per-element model", NB)
P("C02", "Vector construction, access and restructuring move every element to its place",
  "make_vector, the deduction guides, fill, iota, generate and linspace produce exactly the documented elements for every length; indexing and iteration visit every element once in order. rotate(v, n) gives element i of the result from position i+n modulo the length for every int n of either sign, slice(v, s) gives the M elements starting at s, and concat gives the elements of the first operand followed by those of the second. Any sequence of these operations permutes or copies elements as a list would.",
  "all lengths, shifts (including negative and extreme ones), slice positions and operation sequences",
  "test/vector.cpp checks iota, fill, generate and slice at one length each; rotate, concat, linspace and iteration are not tested at all.",
  [A + "vector/utility.hpp", A + "vector/vector.hpp"],
  [("rotate / slice / concat / iota / linspace / fill / generate", A + "vector/utility.hpp"), ("operator[] and iterators", A + "vector/vector.hpp")],
  "explicit-state search over arrangements reachable by operation sequences, plus exhaustive enumeration of lengths, shifts and offsets against a list model", NB, over=("inputs", "histories"))
P("C03", "Vector reductions and element-wise maths are correct for every position",
  "sum, accumulate (a left fold from the initial value), dot (second operand conjugated), min and max return the mathematical value for every content; min_index and max_index return the first index holding the extreme. conj, abs, real, imag and sqrt of a vector apply the scalar function to every element, and sqrt throws if any element is negative.",
  "all lengths, positions of extremes and ties, signs and real or complex contents",
  "test/vector.cpp has a single sum of three ints; dot, min, max, indices and the element-wise functions are untested.",
  [A + "vector/math.hpp", A + "vector/utility.hpp", A + "scalar/math.hpp"],
  [("reductions", A + "vector/math.hpp"), ("accumulate", A + "vector/utility.hpp")],
  "exhaustive enumeration of vector contents and extreme positions on the real templates against a reference fold", NB)
P("C04", "Matrix access and restructuring are faithful to row-major coordinates",
  "row, column and element access return the addressed cells and throw for any row or column index out of range; submat returns the addressed block and throws exactly when the block does not fit, whatever the offsets. transpose, swaprow, swapcol, horzcat, vertcat, reshape, repmat, as_row, as_column, fill, generate and identity give for every shape the matrix defined by their documented index formula. Sequences of these operations behave like the same edits on a table of cells.",
  "all shapes (square or not), index values including huge ones, contents and operation sequences",
  "test/matrix.cpp checks single examples on 3x3 and 2x2 matrices; no non-square swap, no out-of-range index, no reshape, repmat or vertcat.",
  [A + "matrix/matrix.hpp", A + "matrix/utility.hpp", A + "matrix/math.hpp"],
  [("row / column / operator[]", A + "matrix/matrix.hpp"), ("restructuring functions", A + "matrix/utility.hpp"), ("transpose", A + "matrix/math.hpp")],
  "explicit-state search over all reachable cell arrangements, plus exhaustive enumeration of shapes and index values against a table model", NB, over=("inputs", "histories"))
P("C05", "Matrix element-wise arithmetic, comparison and conjugation act cell by cell",
  "For every shape and content, +, *, / between matrices and between a matrix and a scalar on either side, elementwise and cast give in each cell the operation on the corresponding cells; == and != compare all cells. conj conjugates each cell, real and imag take the parts of each cell, and hermitian is the transpose of the conjugate.",
  "all shapes, contents and scalar types (integer, floating, complex, exact rational, non-commutative)",
  "No matrix operator other than == on literal examples is exercised by the tests.",
  [A + "matrix/operators.hpp", A + "matrix/utility.hpp", A + "matrix/math.hpp"],
  [("operators", A + "matrix/operators.hpp"), ("elementwise", A + "matrix/utility.hpp"), ("conj / hermitian / real / imag", A + "matrix/math.hpp")],
  "exhaustive explicit-state enumeration of operand matrices on the real templates against a per-cell model", NB)
P("C06", "Matrix, vector and Kronecker products equal their defining sums",
  "For every compatible shape and content, matmul, vectmatmul and matvectmul equal the sums of products of the corresponding row and column (left factor first), and kron places a[i][j]*b[k][l] at row i*P+k, column j*Q+l. Chains of products equal the reference product.",
  "all shapes, contents and scalar types, including non-commutative ones",
  "test/matrix.cpp multiplies one 3x3 matrix by itself and one 2x2 by a 2x1; kron and the vector products are untested.",
  [A + "matrix/math.hpp"], [("matmul / vectmatmul / matvectmul / kron", A + "matrix/math.hpp")],
  "exhaustive enumeration of unit-matrix pairs per shape and of small contents, explicit-state search over product chains", NB, over=("inputs", "histories"))
P("C07", "Row reduction and rank are correct for every matrix",
  "rref returns the unique reduced row echelon form and rank its number of non-zero rows, for every shape and content: exactly for exact scalar types, within rounding for floating point at any common scale of the entries. With an explicit tolerance, pivots below it do not count and pivots above it do. rref is idempotent.",
  "all shapes, contents (including zero matrices, zero columns, rank-deficient ones) and magnitudes",
  "test/matrix.cpp reduces one 3x3 matrix; zero rows or columns, other shapes, scaling and the tolerance overload (which did not compile) are not tested.",
  [A + "matrix/math.hpp"], [("gauss_jordan_impl, rref, rank", A + "matrix/math.hpp")],
  "exhaustive enumeration of all small matrices over rationals, GF(2), GF(3), GF(5) and doubles against a reference reduction", NB)
P("C08", "Determinant and inverse are correct, and singular matrices are refused",
  "det equals the determinant for every square matrix (zero exactly for singular ones over exact scalars), with the right sign and scale. inverse returns the two-sided inverse for every invertible matrix whatever the magnitude of its entries and throws for every singular one.",
  "all sizes, contents, pivot orders and magnitudes",
  "test/matrix.cpp inverts the identity and one 2x2 matrix; det is not tested (it returned the reciprocal).",
  [A + "matrix/math.hpp"], [("gauss_jordan_impl, det, inverse", A + "matrix/math.hpp")],
  "exhaustive enumeration of all small square matrices and of permutation/transvection/companion families up to 8x8 against a reference elimination", NB)
P("C09", "Matrix norms and trace equal their definitions",
  "macs is the largest column sum of absolute values, mars the largest row sum of absolute values, and trace the sum of the diagonal, for every shape and content.",
  "all shapes and contents, any position of the dominating row, column or cell",
  "None of the three is tested.",
  [A + "matrix/math.hpp", A + "vector/math.hpp"], [("macs / mars / trace", A + "matrix/math.hpp")],
  "exhaustive enumeration of small matrices and of every dominating cell position on the real templates", NB)
P("C10", "Scalar maths functions terminate and are accurate",
  "sqrt and nthroot terminate for every non-negative argument (zero, denormal, huge, infinite or NaN included) with a result accurate to a few units in the last place, and throw for negative arguments. exponentiate(x, n) equals x to the n for every int n of either sign, abs is the magnitude (also for complex arguments) and conj the complex conjugate.",
  "all floating-point arguments and integer exponents or degrees",
  "The scalar functions have no test; sqrt(0) and most nthroot calls did not terminate.",
  [A + "scalar/math.hpp"], [("Newton iterations and square-and-multiply", A + "scalar/math.hpp")],
  "exhaustive enumeration of a bounded argument grid (all exponents x leading mantissa bits, all small degrees) with a termination watchdog", NB + "Arguments outside the grid are not covered. ")
P("C11", "Bit, byte and sequence helpers compute their defining formula",
  "Unbounded shifts give the shifted word and zero once the shift reaches the word width, low_bits and high_bits keep exactly the requested number of bits, make_uint_t packs words most significant first and extract_uint_t reads them back. make_array copies the first N elements, strxor writes the exclusive or of both inputs and returns the end of the output, and state_adder adds the common prefix in place.",
  "all words, shift amounts, positions and sequence lengths",
  "No test includes these helpers.",
  [D + "unbounded_shift.hpp", D + "make_uint_t.hpp", D + "make_array.hpp", D + "state_adder.hpp", D + "same_value.hpp", D + "octet.hpp", A + "algorithms/strxor.hpp"],
  [("shift and mask helpers", D + "unbounded_shift.hpp"), ("packing", D + "make_uint_t.hpp"), ("strxor", A + "algorithms/strxor.hpp")],
  "exhaustive enumeration of widths, shift amounts, byte values and lengths on the real templates", NB)
FE = A + "fields/detail/element/"
NC = "Model-checked by exhaustive enumeration on the real templates within the bounds recorded in the evidence file. The multiprecision library the headers need is absent here, so shim/ supplies a small functional substitute: the checks trust that shim, the compiler and the reference model in lib/. "
P("C12", "Prime field elements obey modular arithmetic",
  "For every prime field, modulus and operand, addition, subtraction, negation, multiplication, squaring, doubling, increment, decrement, inversion and the mixed element/integer operators give the residue of the integer result, and pow(a, n) equals a multiplied n times for every n >= 0. is_square decides quadratic residuosity and sqrt of a square (zero included) is a root of it; comparison, ordering, hashing and stream output agree with the canonical residue; constructing from any machine integer of either sign or any wide number gives its residue. Compound assignment, also with both operands the same object, changes only its target.",
  "all moduli, operands, exponents and sequences of in-place updates",
  "test/fields.cpp needs a multiprecision library that is absent here and samples a handful of operands per field; it does not build in the baseline.",
  [FE + "fp.hpp", FE + "operations.hpp", A + "fields/detail/exponentiation.hpp"], [("element_fp", FE + "fp.hpp"), ("mixed integer operators", FE + "operations.hpp"), ("square and multiply", A + "fields/detail/exponentiation.hpp")],
  "exhaustive enumeration of all elements and element pairs of small prime fields, all in-place update histories to a depth, and boundary grids on shipped fields, against modular integers", NC, over=("inputs", "histories"))
P("C13", "Extension field elements obey polynomial arithmetic modulo their non-residues",
  "For fp2, fp3, fp4, fp6 (both towers) and fp12 over every prime and valid non-residue, addition, subtraction, negation, doubling, multiplication (by an element, by a base field element, by the non-residue), squaring and inversion equal schoolbook arithmetic in the tower, and every ring and field law holds. Compound assignment and aliased operands change only their target; zero, one, is_zero, is_one, comparison, hashing and stream output reflect the coordinates.",
  "all primes, non-residues, operands and aliasing patterns",
  "test/fields.cpp does not build in the baseline and uses a few fixed operands per curve field.",
  [FE + x for x in ("fp2.hpp", "fp3.hpp", "fp4.hpp", "fp6_2over3.hpp", "fp6_3over2.hpp", "fp12_2over3over2.hpp")], [("Karatsuba products and inversion formulas", FE + "fp12_2over3over2.hpp"), ("fp2 / fp3", FE + "fp2.hpp")],
  "exhaustive enumeration of all elements or pairs of tiny extension fields (and of all coordinate patterns for the large towers) on the real templates against a schoolbook tower model", NC)
P("C14", "Frobenius maps, cyclotomic operations and sparse products are as defined",
  "Frobenius_map(i) of any extension element equals its p^i-th power for every i. For elements of norm one unitary_inversed equals the inverse, for elements of the cyclotomic subgroup cyclotomic_squared equals the square and cyclotomic_exp(n) the n-th power, for every exponent. The sparse products mul_by_045, mul_by_024, mul_by_023 and mul_by_2345 equal the full product with the sparse operand they describe.",
  "all elements, powers of Frobenius, exponents and sparse operands",
  "test/fields.cpp does not build in the baseline and checks one fixed element per field.",
  [FE + x for x in ("fp2.hpp", "fp3.hpp", "fp4.hpp", "fp6_2over3.hpp", "fp6_3over2.hpp", "fp12_2over3over2.hpp")] + [A + "fields/detail/exponentiation.hpp"], [("Frobenius_map", FE + "fp12_2over3over2.hpp"), ("cyclotomic_squared / cyclotomic_exp", FE + "fp12_2over3over2.hpp"), ("sparse products", FE + "fp12_2over3over2.hpp")],
  "exhaustive enumeration of the elements (or of whole cyclotomic subgroups) of tiny towers on the real templates against plain powers and products", NC)
P("C15", "Powers, residue tests and roots in extension fields are right and terminate",
  "pow(n) equals repeated multiplication for every exponent in every extension field. is_square says exactly which elements of fp2 and fp3 are squares, and sqrt of every square, zero included, terminates and returns a root.",
  "all elements, exponents and 2-adicities of the field",
  "test/fields.cpp does not build in the baseline; its square-root cases are a few fixed elements (sqrt of zero did not terminate).",
  [FE + "fp2.hpp", FE + "fp3.hpp", A + "fields/detail/exponentiation.hpp"], [("Tonelli-Shanks loops", FE + "fp2.hpp"), ("power()", A + "fields/detail/exponentiation.hpp")],
  "exhaustive enumeration of all elements of tiny extension fields over a range of 2-adicities, with a termination watchdog", NC)
XP = A + "fields/detail/extension_params/"
P("C16", "Shipped field constants satisfy their defining equations",
  "For every shipped prime field the modulus is the published prime, of the stated bit length, and the generator generates its group; every arithmetic parameter set satisfies t*2^s = q-1 with t odd, its root of unity has order exactly 2^s, and its residue, generator, halved-order and Montgomery constants have the values their names state. For every shipped extension field the non-residues make each tower level a field, Frobenius_map and products agree with the tower arithmetic they define, and the square-root constants give correct is_square and sqrt.",
  "all shipped fields, versions and constants",
  "test/fields.cpp does not build in the baseline and never touches most constants; bn128, MNT6 and Edwards extension constants were wrong.",
  [A + "fields/arithmetic_params/" + x for x in ("bls12.hpp", "alt_bn128.hpp", "mnt4.hpp", "mnt6.hpp")] + [XP + "bls12/fp12_2over3over2.hpp", XP + "mnt6/fp6_2over3.hpp", A + "fields/params.hpp"], [("field constants", A + "fields/alt_bn128/base_field.hpp"), ("arithmetic parameters", A + "fields/arithmetic_params/alt_bn128.hpp"), ("Frobenius coefficients and non-residues", XP + "alt_bn128/fp12_2over3over2.hpp")],
  "exhaustive enumeration of every shipped constant and of every basis element, basis pair and Frobenius power of each shipped extension against a tower model", NC + "Primality is by Miller-Rabin and generators are tested against the prime factors below 20000 of the group order. ")
FO = A + "curves/detail/forms/"
SWF = [FO + "short_weierstrass/" + x for x in ("element_g1_affine.hpp", "jacobian/element_g1.hpp", "jacobian_with_a4_0/element_g1.hpp", "jacobian_with_a4_minus_3/element_g1.hpp", "projective/element_g1.hpp", "projective_with_a4_minus_3/element_g1.hpp")]
P("C17", "Short Weierstrass points obey the group law in every coordinate system",
  "For every non-singular curve y^2 = x^3 + ax + b and every pair of points in any representation (any Z, any encoding of infinity), addition, subtraction, negation, doubling, compound assignment and mixed addition give the chord-and-tangent sum, in affine, Jacobian (general, a = 0, a = -3) and projective (general, a = -3) coordinates, over prime and extension fields. This includes equal and opposite points, points of order 2, infinity on either side and aliased operands; operands other than the target are unchanged.",
  "all curves, point pairs, representations and operation sequences",
  "test/curves.cpp does not build in the baseline and adds a handful of precomputed points; doubling through mixed_add and points of order 2 were never reached.",
  SWF + [FO + "short_weierstrass/jacobian/add_2007_bl.hpp", FO + "short_weierstrass/jacobian/madd_2007_bl.hpp", FO + "short_weierstrass/projective/add_1998_cmo_2.hpp"],
  [("point operations", FO + "short_weierstrass/jacobian/element_g1.hpp"), ("addition, doubling and mixed addition formulas", FO + "short_weierstrass/jacobian_with_a4_0/dbl_2009_l.hpp")],
  "exhaustive enumeration of curves over tiny fields, all representations of all points and all pairs, on the real templates against the affine group table; every representation is a state, so one-step closure covers operation histories", NC + "Larger fields are covered for a stated fraction of their curves and representations. ", over=("inputs", "histories"))
P("C18", "Short Weierstrass equality, validity, conversions and text form are right",
  "Two representations compare equal exactly when they stand for the same point; is_zero accepts exactly the encodings of infinity and is_well_formed exactly the coordinate triples that satisfy the curve equation. to_affine and to_projective keep the point for every representation, copies and assignment keep every coordinate, and the text form is the JSON object with members X, Y and (where present) Z.",
  "all curves, coordinate triples and pairs of representations",
  "test/curves.cpp does not build in the baseline and checks these on a few fixed points.",
  SWF, [("comparison and is_well_formed", FO + "short_weierstrass/projective_with_a4_minus_3/element_g1.hpp"), ("to_affine / to_projective", FO + "short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp")],
  "exhaustive enumeration of every coordinate triple and every pair of representations over tiny fields on the real templates", NC + "A point that coincides with the affine infinity marker cannot be told apart after to_affine and is left out. ")
EDF = [FO + "twisted_edwards/element_g1_affine.hpp", FO + "twisted_edwards/extended_with_a_minus_1/element_g1.hpp", FO + "twisted_edwards/inverted/element_g1.hpp", FO + "montgomery/element_g1_affine.hpp"]
P("C19", "Edwards, twisted Edwards and Montgomery points obey their group law",
  "For every twisted Edwards curve ax^2 + y^2 = 1 + dx^2y^2 and every pair of points whose sum the affine law defines, affine and extended (a = -1) addition, subtraction, negation, doubling, mixed addition and compound assignment give that sum in every representation, and inverted coordinates do so for every point without a zero coordinate and the neutral one. The same holds for the Edwards inverted formulas (parameters c, d), and for affine Montgomery points By^2 = x^3 + Ax^2 + x including the point at infinity and 2-torsion.",
  "all curves, point pairs, representations and operation sequences",
  "test/curves.cpp does not build in the baseline and uses a few precomputed points; equal points in mixed_add and the negated point at infinity were never reached.",
  EDF + [FO + "twisted_edwards/extended_with_a_minus_1/" + x for x in ("add_2008_hwcd_3.hpp", "madd_2008_hwcd_2.hpp", "dbl_2008_hwcd.hpp")] + [FO + "twisted_edwards/inverted/add_2008_bbjlp.hpp", FO + "edwards/inverted/add_2007_bl.hpp", FO + "edwards/inverted/dbl_2007_bl.hpp", FO + "edwards/inverted/madd_2007_bl.hpp"],
  [("point operations", FO + "twisted_edwards/extended_with_a_minus_1/element_g1.hpp"), ("formulas", FO + "twisted_edwards/extended_with_a_minus_1/madd_2008_hwcd_2.hpp")],
  "exhaustive enumeration of curves over tiny fields, all representations of all points and all pairs, on the real templates against the affine addition laws", NC + "The Edwards inverted element class does not compile (it includes a header the repository lacks); its formulas run on a stand-in element. ", over=("inputs", "histories"))
P("C20", "Edwards and Montgomery equality, validity and form conversions are right",
  "Equality holds exactly for representations of the same point, is_zero and is_well_formed accept exactly the neutral element and the points of the curve, and conversions between affine, inverted and extended coordinates keep the point. Conversion between twisted Edwards and Montgomery form is a bijective group homomorphism and its two directions are inverse to each other, whatever square factor relates B to 4/(a-d). The text form is the JSON object of the coordinates.",
  "all curves, coordinate tuples, pairs of representations and related curve pairs",
  "test/curves.cpp does not build in the baseline and converts a few JubJub and curve25519 points.",
  EDF, [("to_montgomery", FO + "twisted_edwards/element_g1_affine.hpp"), ("to_twisted_edwards", FO + "montgomery/element_g1_affine.hpp")],
  "exhaustive enumeration of every coordinate tuple, pair of representations and related curve pair over tiny fields on the real templates", NC)
P("C21", "Scalar multiplication equals repeated addition for every scalar",
  "For every point, in every form and coordinate system and with any Z, and every scalar k (zero, values beyond the group order, multiples of it), k times the point equals the point added k times. This holds through every interface: products with wide integers, std::size_t, modular numbers and scalar field elements on either side, *=, construction and assignment of a point from an integer (that multiple of the generator), and subgroup_check.",
  "all curves, points, representations and scalars",
  "test/curves.cpp does not build in the baseline and multiplies by a few constants; a scalar whose prefix passes the group order met the mixed addition of equal points.",
  [A + "curves/detail/scalar_mul.hpp", A + "curves/detail/subgroup_check.hpp"] + SWF[1:3] + EDF[:2], [("double and add", A + "curves/detail/scalar_mul.hpp"), ("operator overloads", A + "curves/detail/scalar_mul.hpp"), ("subgroup_check", A + "curves/detail/subgroup_check.hpp")],
  "exhaustive enumeration of every point and every scalar up to beyond twice the group order on tiny curves through every overload, against the group table", NC)
P("C22", "The shipped curves have valid parameters and their groups are computed exactly",
  "For every curve the library ships, the coefficients and the generator of each group are the published ones and satisfy the curve equation, the generator has exactly the order of the scalar field and the group size fits Hasse's bound. Multiples of the generator in each coordinate system that suits the coefficients add, subtract, double, convert, compare and multiply exactly as integers on the curve do, at full field width, with either affine encoding of infinity a build can select (STANDARD_EC_INF_POINTS). The shipped Edwards/Montgomery pairs are maps of each other.",
  "all points and scalars of every shipped curve",
  "test/curves.cpp does not build in the baseline and covers a few curves with a handful of literal points; the G2 doublings and some field types did not even compile.",
  [A + "curves/bls12.hpp", A + "curves/alt_bn128.hpp", A + "curves/mnt4.hpp", A + "curves/mnt6.hpp", A + "curves/secp_k1.hpp", A + "curves/secp_r1.hpp", A + "curves/jubjub.hpp", A + "curves/pallas.hpp", A + "curves/ed25519.hpp", A + "curves/edwards.hpp"],
  [("parameters of each curve", A + "curves/detail/*/params.hpp and types.hpp"), ("group types of each curve", A + "curves/*.hpp")],
  "exhaustive enumeration of a bounded closed set of multiples of each generator (pairwise sums, all conversions and scalars near the group order) on the real types against an independent big-integer model", NC, over=("inputs", "configurations"))
P("C23", "Windowed and fixed-base exponentiation give the scalar multiple",
  "For every base, scalar (zero included) and window size, fixed_window_wnaf_exp and opt_window_wnaf_exp return scalar times base, whatever the window table of the group. get_exp_window_size returns the largest window whose threshold does not exceed the number of scalars, 1 below the first threshold (zero scalars included), 17 for an empty table, and never more than 14 in a LOWMEM build. For scalars within scalar_size bits, windowed_exp, batch_exp and batch_exp_with_coeff over the table of get_window_table return the (coefficient times the) scalar times the base at every position.",
  "all groups, bases, scalars, window sizes and tables",
  "No test calls any of these functions; a request for zero scalars read outside the table.",
  [A + "wnaf.hpp", A + "multiexp/multiexp.hpp", A + "curves/params/wnaf/bls12.hpp", A + "curves/params/multiexp/bls12.hpp"], [("fixed_window_wnaf_exp / opt_window_wnaf_exp", A + "wnaf.hpp"), ("get_window_table / windowed_exp / batch_exp", A + "multiexp/multiexp.hpp")],
  "exhaustive enumeration of scalars, windows and window tables over a symbolic free abelian group, tiny curves and the shipped groups on the real templates", NC, over=("inputs", "configurations"))
P("C24", "Multi-scalar multiplication equals the sum of the products for every method",
  "For every length (empty included), every vector of bases and of scalars (all zero, equal, opposite, with any bit lengths) and every number of chunks from 1, multiexp and multiexp_with_mixed_addition return the sum of scalar times base with each of the methods naive_plain, BDLO12 and bos_coster, and inner_product returns the inner product of two vectors of field elements. Inputs are not modified.",
  "all lengths, vectors of bases and scalars, chunk counts and methods",
  "test/multiexp.cpp does not build in the baseline and compares methods with one another on one repeated random point; all-zero scalars threw.",
  [A + "multiexp/multiexp.hpp", A + "multiexp/policies.hpp", A + "multiexp/inner_product.hpp"], [("multiexp, multiexp_with_mixed_addition", A + "multiexp/multiexp.hpp"), ("BDLO12 buckets, Bos-Coster heap", A + "multiexp/policies.hpp")],
  "exhaustive enumeration of scalar vectors over symbolic bases (sound for every abelian group), of point and scalar pairs on tiny curves and structured vectors on shipped curves, on the real templates", NC)
PA = A + "pairing/"
P("C25", "Pairings are bilinear, non-degenerate and the stated ate pairing",
  "For every pairing curve the library ships and all points P of G1 and Q of G2 (infinity included, in any representation), pair_reduced(aP, bQ) = pair_reduced(P, Q)^(ab), the result has the group order and is not 1 for the generators. pair_reduced is the final exponentiation of pair, which is the Miller loop of the precomputed points; miller_loop over precomputed points is the textbook Miller function of the loop count; double_miller_loop is the product of two loops; final_exponentiation raises to the stated multiple of (q^k-1)/r. Precomputation depends only on the point, not on its representation.",
  "all pairs of points, scalars and representations of every pairing curve",
  "test/pairing.cpp does not build in the baseline and checks a few fixed pairs; the point at infinity of G2 gave a value other than one.",
  [PA + x for x in ("bls12.hpp", "mnt4.hpp", "mnt6.hpp", "edwards.hpp", "alt_bn128.hpp", "mnt4/298/ate_miller_loop.hpp", "edwards/183/ate_miller_loop.hpp", "ate_miller_loop.hpp", "final_exponentiation.hpp")] + [A + "algorithms/pair.hpp"],
  [("Miller loops, precomputations and final exponentiations", PA + "bls12.hpp and the policy headers it includes"), ("pairing front end", A + "algorithms/pair.hpp")],
  "exhaustive enumeration of all point pairs of tiny pairing curves (embedding degrees 4, 6 and 12) and of a bounded closed set of multiples of the generators of each shipped curve, on the real templates, against textbook Miller and tower models", NC + "The alt_bn128 pairing does not compile (known finding); the Edwards loop runs over |t-1|, so its value is the inverse of the signed ate pairing. ", over=("inputs", "configurations"))
PT = PA + "detail/forms/short_weierstrass/"
P("C26", "Precomputed points compare and print faithfully; the pairing front end delegates",
  "Two precomputed points, line or conic coefficients are equal exactly when every component is equal, coefficient lists of any length included. Their text form is a JSON object whose members are the components in order, with each coefficient list as an array of arrays. For every pairing policy, precompute_g1, precompute_g2, miller_loop, double_miller_loop, final_exponentiation, pair and pair_reduced pass exactly their arguments, in order, to the policy and return its result; pair_reduced is the final exponentiation of pair. Arguments are not modified.",
  "all component values, coefficient list lengths, policies and arguments",
  "No baseline test instantiates these headers; the text form of every precomputed G2 point was not JSON (a comma after the last coefficient).",
  [PT + "jacobian_with_a4_0/types.hpp", PT + "projective/types.hpp", PA + "detail/edwards/183/types.hpp", A + "algorithms/pair.hpp", PA + "pairing_policy.hpp"],
  [("component comparison and text form", PT + "projective/types.hpp"), ("front end", A + "algorithms/pair.hpp")],
  "exhaustive enumeration of all component valuations and coefficient lists up to a length, and of all arguments over a free term algebra standing for every policy, on the real templates", NC)
P("C27", "Type traits classify every type by exactly the members they name",
  "is_curve, is_curve_group, is_field, is_extended_field, is_group_element, has_mixed_add, is_range, is_container, is_iterator, is_codec, is_block_cipher, is_hash, is_mac, is_kdf and is_passhash are true exactly for types that have every member the concept asks for (own or, for the detail traits, inherited), and false otherwise, non-class types included. The element traits recognise exactly the field and group element templates; is_complex and remove_complex see exactly std::complex. Every shipped curve, group, field and element is classified as what it is; stream_endian names denote the stated unit and bit order.",
  "all types: every subset of the members a trait asks for, standard and shipped types",
  "The tests touch is_complex and a few overloads only; is_curve was false for every shipped curve, is_passhash for every type.",
  [A + "type_traits.hpp", D + "type_traits.hpp", D + "stream_endian.hpp"],
  [("concept traits", A + "type_traits.hpp"), ("GENERATE_HAS_MEMBER* and the concepts built on them", D + "type_traits.hpp")],
  "exhaustive enumeration of type descriptions: every subset and kind of the members of each concept, instantiated on the real templates and compared with the stated conjunction", NC + "Final classes and unions are left out (the detail traits derive from the type); const-qualified members of user-defined group elements are left unspecified. ", over=("inputs", "configurations"))
P("C28", "Random elements are uniform and fully determined by the generator",
  "random_element over a prime field takes every value of [0, p-1] with equal probability when the generator is uniform over any range; over an extension field every coordinate is an independent such draw, so all p^k elements are equally likely; over a curve group every multiple k * one with k in the scalar field is. A distribution passed by the caller gets the bounds 0 and p - 1 and its results become the coordinates in order.",
  "all sequences of generator outputs, fields, groups and generator ranges",
  "No test looks at the distribution; random_element drew from [0, p], so zero came out twice as often as any other value.",
  [A + "random_element.hpp"], [("random_element overloads", A + "random_element.hpp")],
  "exhaustive stateless search over every sequence of generator outputs up to a depth on the real functions, accumulating the exact probability of every result", NC + "Large fields are covered through the bounds handed to the distribution; boost's own distributions are trusted there. ", over=("inputs", "schedules"))
P("C29", "Hash-to-curve maps send every field element to the right curve point",
  "The simplified SWU map sends every element u of the field to the point of the isogenous curve RFC 9380 defines: on the curve, with the stated x, and with the sign of y that of u, including the elements where the general formula divides by zero. iso_map is a group homomorphism onto the target curve: images of sums are sums of images, opposites map to opposites, and the points of the kernel map to the point at infinity. map_to_curve is their composition.",
  "all field elements u, including exceptional ones, and all points of the isogenous curves",
  "No test calls the hash-to-curve maps; iso_map sent the kernel of the isogeny to the generator.",
  [A + "curves/detail/h2c/h2c_m2c.hpp", A + "curves/detail/h2c/h2c_iso_map.hpp"],
  [("m2c simplified SWU / map_to_curve", A + "curves/detail/h2c/h2c_m2c.hpp"), ("iso_map rational maps and poles", A + "curves/detail/h2c/h2c_iso_map.hpp")],
  "explicit-state enumeration of every field element of all tiny curves the map covers, on the real templates; for the shipped suites all pairs of a closed set of points that includes the kernel", NC + "The suites header is absent from the repository and comes from the shim (RFC 9380 parameters). ")
P("C30", "Serialisation round-trips, is canonical and refuses what is out of range",
  "Writing a field element gives each coordinate in order as ceil(bits/8) little-endian octets whatever the buffer held before, nothing outside the given range is touched, and reading returns the element. Reading refuses every octet string with a coordinate not below the modulus and accepts all others. BLS12-381 G1 and G2 points are written in the Zcash compressed and uncompressed forms independently of their projective representation, flags for infinity and the larger y included, and both forms read back as the same point from every container offered; reading octets that are not the canonical encoding of a point on the curve (reserved flags, wrong length, non-zero octets after infinity, unreduced coordinates, no such point) fails an assertion of the library.",
  "all elements, octet strings, points, projective representations, containers and buffer contents",
  "No test serialises anything; stale octets survived in reused buffers, over-wide octets, octets after infinity and unreduced coordinates were accepted and reading a G2 point from a std::vector wrote through an empty one.",
  [A + "marshalling.hpp", A + "curves/detail/marshalling.hpp"],
  [("field_element_to_bytes / from_bytes", A + "marshalling.hpp"), ("curve_element_serializer, G2 octet conversion", A + "curves/detail/marshalling.hpp")],
  "exhaustive enumeration of every element and every octet string of tiny fields and of every representation of a closed set of points on the real serializers", NC + "The format of the Zcash specification is the oracle; the library refuses malformed points by assertion only, so the check runs with assertions that throw. ", over=("inputs", "histories"))
P("C31", "Prime search, factorisation and totient are correct for every integer",
  "prime_factorize inserts exactly the distinct prime factors of n into the set and keeps what was there, for every n including prime powers; pollard_rho_factorization of a composite returns a proper factor. totient(n) counts the integers in [1, n] coprime to n and totient_list(n) lists them in ascending order. first_prime(b, m) is the least prime above 2^b that is 1 modulo m; next_prime and previous_prime return the nearest prime in steps of m strictly above or below the start.",
  "all integers n, bit counts, starts and steps, for bounded and unbounded integer types",
  "No test includes these headers; factorisation divided by zero on 9 and other composites and totient_list(1) was empty.",
  [A + "primes.hpp", A + "totient.hpp"],
  [("pollard_rho_factorization, prime_factorize, prime searches", A + "primes.hpp"), ("totient, totient_list", A + "totient.hpp")],
  "exhaustive enumeration of every integer up to a bound and of every product of a closed set of primes on the real functions against a sieve", NC + "boost's primality test is trusted. ")
P("C32", "Linear algebra over the library's field elements is exact",
  "For vectors and matrices whose scalars are elements of the library's prime or extension fields, element-wise operators, scalar operators, comparison, filling, rotation, concatenation, slicing, submatrices, transposition and the Kronecker product give exactly the field operations on the corresponding entries, in the written order, with entries compared as field elements. For prime fields sum, dot product, matrix products, identity and trace equal their definitions over the field. Operands are not modified.",
  "all fields, shapes and entries",
  "The tests use doubles and integers only; nothing combines a vector or a matrix with a field element.",
  [A + "vector/operators.hpp", A + "vector/math.hpp", A + "matrix/operators.hpp", A + "matrix/math.hpp", A + "fields/detail/element/fp.hpp"],
  [("vector and matrix templates instantiated with element_fp*", A + "matrix/operators.hpp and math.hpp"), ("element_fp arithmetic", A + "fields/detail/element/fp.hpp")],
  "exhaustive enumeration of every vector and matrix of small shapes over tiny prime and extension fields on the real templates, against the same definitions over the field's addition and multiplication tables", NC + "Determinant, inverse and rank need an ordering, which field elements do not have; sums and products over extension fields need a conversion from int they do not offer. ")
P("C33", "Constant evaluation gives the values of run time",
  "Every vector, matrix and scalar function (construction, access, iteration, restructuring, operators, comparison, reductions, products, norms, row reduction, rank, determinant, inverse of a regular matrix, square and n-th roots, powers) can be evaluated in a constant expression for every valid argument of an arithmetic scalar type, without undefined behaviour, and gives there exactly the value it gives at run time; for complex scalars this holds for the operations that need no complex arithmetic.",
  "all operations, shapes and arguments",
  "The tests evaluate a few calls on one or two literal matrices; a helper that loses constexpr, or reads beyond an array for some index, compiles as long as nobody evaluates it.",
  [A + "vector/vector.hpp", A + "vector/utility.hpp", A + "vector/operators.hpp", A + "vector/math.hpp", A + "matrix/matrix.hpp", A + "matrix/utility.hpp", A + "matrix/operators.hpp", A + "matrix/math.hpp", A + "scalar/math.hpp"],
  [("constexpr function templates", A + "matrix/utility.hpp and the other listed headers")],
  "exhaustive enumeration of small operand spaces by the compiler's constant evaluator, each state compared with the same state executed at run time", NB)
NOT_APPLICABLE = []
