"""what each property's exploration is exhaustive over (quick tier; thorough widens the lengths, moduli and alphabets)"""
BOUNDS = {
    "C01": "small lengths over every pair of contents from small alphabets; every length in the list with tagged operands and every single-cell perturbation; IEEE specials; tagged contents and boundary-position changes at sizes around 256, 512, 1024, 4099, 32768 and 65536",
    "C02": "every listed length; every shift in [-3N-2, 3N+2] plus INT_MIN/INT_MAX neighbours; every slice start and length; all arrangements of 3..6 tagged cells reachable by operation sequences (breadth-first to a fixpoint); tagged contents and boundary-position changes at sizes around 256, 512, 1024, 4099, 32768 and 65536",
    "C03": "every content over small alphabets for small lengths; every position (and pair of positions) of an extreme for the listed lengths; complex and exact scalars; tagged contents and boundary-position changes at sizes around 256, 512, 1024, 4099, 32768 and 65536 (real and complex contents)",
    "C04": "every listed shape (square, wide, tall) with every index, submatrix offset (including values next to 2^64) and factorisation; all 2880 arrangements of six tagged cells over four shapes (breadth-first, complete); tagged contents and boundary-position changes at sizes around 256, 512, 1024, 4099, 32768 and 65536",
    "C05": "every pair of contents over small alphabets for small shapes; tagged operands with every single-cell perturbation for every listed shape; integer, floating, complex, rational and non-commutative scalars; tagged contents and boundary-position changes at sizes around 256, 512, 1024, 4099, 32768 and 65536",
    "C06": "every dimension triple in 1..5 with every pair of unit matrices (which determine a bilinear map completely) and tagged contents; every shape quadruple for kron; all chains of two and three generators; tagged contents and boundary-position changes at sizes around 256, 512, 1024, 4099, 32768 and 65536",
    "C07": "every matrix over rationals, GF(2), GF(3), GF(5) and doubles with entries from small alphabets of every listed small shape (at several common scales); permutation, transvection and companion families up to 8x8; permutation, low-rank, banded, dependent-row families from 9x9 to 33x33 (65x65 thorough) and 3x260, 260x3; a tolerance of zero over cells from 1e-30 to 3",
    "C08": "as C07 for square matrices, with contents mixing negligible and usable magnitudes; structured families up to 8x8; permutation, low-rank, banded, dependent-row families from 9x9 to 33x33 (65x65 thorough) and 3x260, 260x3; agreement of inverse, rank and det around the numerical limit of rank",
    "C09": "every content over small alphabets and every dominating cell position for every listed shape; dominating cells at boundary positions of shapes up to 65537 cells",
    "C10": "doubles: every exponent x leading mantissa bits x trailing patterns; floats likewise; integers up to a bound and the neighbours of squares; nthroot degrees 1..; exponents of either sign up to INT_MIN; exponentials over the whole overflow and underflow range",
    "C11": "every width, shift amount and family of bit patterns; all bytes; every length up to a bound; shift amounts far beyond the width",
    "C12": "every element and pair of GF(p) for every listed p (all in-place update histories to depth 2); pairs of boundary values of word-boundary moduli and of the shipped fields; powers with every exponent up to 2p (tiny fields) and with 2^k - 1, 2^k, 2^k + 1 up to twice the field's width",
    "C13": "every element and pair of the quadratic and cubic towers over tiny primes; sparse and dense coordinate vectors and their pairs for degrees 4, 6 and 12",
    "C14": "every element (or every basis multiple and dense vector) x every Frobenius power; the whole cyclotomic subgroup of each tiny tower x exponents; every shape of the sparse operand; powers at both ends of the 8-, 16-, 31-, 32-, 33-, 63- and 64-bit ranges; every structured unitary element",
    "C15": "every element of every tiny quadratic and cubic field over a range of 2-adicities; every exponent up to a bound and around powers of two; squares of every 2-power order of each shipped extension, alone and times an element of odd order",
    "C16": "every shipped field header and arithmetic parameter set that compiles; every basis vector and basis product and every Frobenius power of each shipped extension; for the 6144- and 8192-bit moduli the quick tier compares digits and sizes with the published ones and leaves the primality test to the thorough tier; squares of every 2-power order of each shipped extension",
    "C17": "every curve over the listed tiny fields (prime and extension), every representation of every point, every pair of representations; a stated fraction for the larger q",
    "C18": "every coordinate triple; every pair of representations over the listed tiny fields",
    "C19": "every curve (a, d), (A, B) or (c, d) over the listed tiny fields, every representation and pair of representations whose sum the law defines",
    "C20": "every coordinate tuple; every pair of representations; every related pair of twisted Edwards and Montgomery curves",
    "C21": "every point of each listed tiny curve in several representations x every scalar from 0 to beyond twice the group order x every overload; scalars 2^j - 1, 2^j, 2^j + 1 for every j up to 66 and chosen ones up to 1024 (every overload whose type can hold them, including a 255-bit scalar field)",
    "C22": "all shipped curves and groups that compile: parameters, and a closed set of multiples of the generator (small, powers of two, around the order) pairwise; everything in both builds of the STANDARD_EC_INF_POINTS option",
    "C23": "every scalar x window x window table over a free abelian group; every point of tiny curves; lists with repeated, mirrored, descending and interleaved scalars for the batch forms; structured scalars on shipped groups; window sizes for tables of every length up to 24, with and without LOWMEM",
    "C24": "every scalar vector up to the listed lengths over symbolic bases x every method x every chunk count; every pair of points and scalars of tiny curves; structured vectors on shipped curves; vectors of tagged bases at lengths around 1024, 2048, 4096, 32768 and 65536 for every method; shipped groups also with STANDARD_EC_INF_POINTS and NDEBUG",
    "C25": "every point of 13 tiny pairing curves (MNT4, MNT6, Edwards and BLS12 code paths) against the whole of G2; a closed set of multiples of the generators for the shipped curves; the double loop with shared precomputed objects in every combination; shipped curves also with STANDARD_EC_INF_POINTS",
    "C26": "every component valuation and every coefficient list up to two entries; every argument of a free term algebra through the front end; lists of up to 1000 (equality: up to 65537) entries around powers of two with every (or every boundary) single-entry change, prefix and extension",
    "C27": "every subset (and kind) of the members each concept names; every shipped curve, group, field and element",
    "C28": "every sequence of generator outputs up to the depth that decides a draw, for every listed tiny field, generator range and curve",
    "C29": "every field element of every tiny curve with a*b != 0 and a suitable Z over the listed fields; for BLS12-381 G1 and G2 a closed set of field elements (including all known poles of the isogeny) and all pairs of their images; shipped curves also with STANDARD_EC_INF_POINTS",
    "C30": "every element and every octet string of the listed tiny fields, structured elements of shipped fields x buffer contents; every representation in a closed set of BLS12-381 G1 and G2 points x container; shipped curves also with STANDARD_EC_INF_POINTS",
    "C31": "every n up to 20000 (400000 thorough) and every product of up to three (four) listed primes; every bit count, start and step up to the listed bounds; four integer types; products, prime neighbours and totients around powers of two from 2^20 to 2^132 against a 128-and-more-bit Miller-Rabin model; with assertions on and off (NDEBUG)",
    "C32": "every vector up to three and matrix up to 2x2 entries over tiny prime and extension fields where the count fits the cap, otherwise every one over the entries 0, 1, -1 and a generator of the basis; every pair of them for binary operations",
    "C33": "every vector of up to five (seven) and every matrix of up to six (nine) entries over two to five values, pairs of them for binary operations, every shift, offset and index; six scalar types; a grid of arguments of the scalar functions",
}
