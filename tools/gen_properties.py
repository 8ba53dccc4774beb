import jsonschema
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)
F="src/primefield/mod.rs";Q="src/quadraticfield/mod.rs";RM="src/instances/rational_maps.rs"
WC,WP,WS="src/weierstrass/curve.rs","src/weierstrass/point.rs","src/weierstrass/scalar.rs"
MC,MP,MS="src/montgomery/curve.rs","src/montgomery/point.rs","src/montgomery/scalar.rs"
EC,EP,ES="src/edwards/curve.rs","src/edwards/point.rs","src/edwards/scalar.rs"
NT="The repository's unit tests never do this: they only serialize each curve's generator once (five tests) and compare the version string."
p("C01","Prime-field arithmetic is exact modular arithmetic",
 "For every odd prime modulus and all elements, addition, subtraction, negation, multiplication, squaring, inversion and division, in every owned or borrowed operand form, give exactly the result of integer arithmetic modulo the prime, as the representative in [0, p). The inverse of zero is zero and dividing by zero gives zero. Building an element from any integer, signed or not, reduces it modulo p, the zero/one constructors, in-place setters and predicates agree with the values 0 and 1, and the conditional move returns its second argument exactly when the flag is set.",
 ["inputs","configurations"],"all odd primes (small exhaustive, mid-size, the built-in 255 to 521-bit ones), all operand pairs, all operand forms",
 NT+" No test performs a field operation; exactness is a claim over all pairs of elements of every field.",
 [F,"src/field.rs","src/ops.rs"],[("reduction by mod_floor after every operation","FpElt::red, Fp::elt"),("Fermat inversion x^(p-2)","FpElt::inv_mod"),("operator forms","impl_op_ex! and the hand-written Add impls")],
 ["FpElt operators","Fp::elt/from/zero/one","Display/to_bytes of elements"])
p("C02","Field exponentiation equals repeated multiplication",
 "Raising a prime-field element to any arbitrary-precision exponent, unsigned or signed, equals repeated multiplication (of the inverse for negative exponents), for exponents of any size, including multiples of p-1. Raising a quadratic-extension element to any non-negative arbitrary-precision exponent equals repeated multiplication. Anything to the power zero is one, zero to any non-zero power is zero, and the shorthand forms (a u32 or i32 exponent, a number divided by an element) either give the right power or quotient or refuse by panicking, and exponent 2, exponent -1 and numerator 1 always work.",
 ["inputs","configurations"],"all elements and all exponents (zero, negative, word-boundary, multiples of p-1, beyond the field size), prime fields and quadratic extensions with p = 3 mod 4",
 NT+" No test exponentiates; the exponent space is unbounded and the interesting points are multiples of p-1 and machine-word boundaries.",
 [F,Q],[("modpow with exponent reduced modulo p-1","FpElt BitXor<&BigInt>"),("square-and-multiply over 32-bit digits","Fp2Elt BitXor<&BigUint>")],["the ^ operators with BigUint and BigInt"])
p("C03","Prime-field quadratic-residue test and square root are correct",
 "For every odd prime, the residue test answers true exactly for zero and the non-zero squares. For every prime p with p = 3 mod 4 or p = 5 mod 8, the square root of every square, multiplied by itself, gives that square back, and asking for the root of a non-square does not fail; it returns some element. For the other primes a root is either right or refused by panicking.",
 ["inputs","configurations"],"all elements of all odd prime fields (square roots: p not 1 mod 8); squares, non-squares, zero, both quartic-residue classes",
 NT+" Square roots are only reached through decompressing one generator per curve.",
 [F],[("Euler criterion","FpElt::is_square"),("exponent and sqrt(-1) precomputation, root correction by conditional move","Fp::calc_sqrt_precmp, FpElt::sqrt")],["Sqrt::is_square","Sqrt::sqrt"],
 [("sqrt_precmp","lazily filled per-field cache of square-root constants","Params.sqrt_precmp")])
p("C04","The sign function separates every element from its negative",
 "In a prime field the sign of an element is +1 when its representative in [0, p) is even and -1 when it is odd. In a quadratic extension the sign is that of the first coordinate, or of the second coordinate when the first is zero. Hence zero has sign +1 and every non-zero element and its negative have opposite signs.",
 ["inputs","configurations"],"all elements of prime fields and of quadratic extensions, including those with one coordinate zero",
 NT+" No test calls the sign function; point compression and every map to curve depend on it for all elements.",
 [F,Q,"src/field.rs"],[("parity of the canonical representative","FpElt::sgn0"),("combination of coordinate signs","Fp2Elt::sgn0")],["Sgn0::sgn0"])
p("C05","Quadratic-extension arithmetic is exact arithmetic in GF(p)[i]/(i^2+1)",
 "For every prime p = 3 mod 4 and all elements a+bi of the quadratic extension, addition, subtraction, negation, multiplication, squaring, inversion and division, in every owned or borrowed operand form, give exactly the complex-style result with i^2 = -1 and coordinates reduced modulo p. The inverse of zero is zero; for every non-zero x, x times its inverse is one. Integers embed as the first coordinate, the zero/one constructors, in-place setters and predicates agree with the values 0 and 1, and the conditional move returns its second argument exactly when the flag is set.",
 ["inputs","configurations"],"all p = 3 mod 4 (small exhaustive, large), all pairs of elements, all operand forms",
 NT+" Only the constructor appears, in a doc example; no arithmetic is exercised.",
 [Q],[("coordinate formulas","impl_op_ex! blocks and Add impls for Fp2Elt"),("inverse through the norm","Fp2Elt::inv_mod")],["Fp2Elt operators","Display/to_bytes of elements"])
p("C06","Quadratic-extension residue test and square root are correct",
 "For every prime p = 3 mod 4, an element of the quadratic extension is reported as a square exactly when some element squares to it, zero included. The square root of every square, multiplied by itself, gives that square back. Asking for the root of a non-square does not fail; it returns some element.",
 ["inputs","configurations"],"all elements (small p exhaustive): squares, non-squares, elements of the base field, purely imaginary ones, zero",
 NT+" No test computes a residue test or a root in the extension.",
 [Q],[("norm-based Euler criterion","Fp2Elt::is_square"),("complex-method root with the alpha = -1 special case","Fp2Elt::sqrt")],["Sqrt::is_square","Sqrt::sqrt"])
p("C07","Field elements survive serialization, parsing and printing",
 "Serializing any prime-field or extension element gives a byte string whose length depends only on the field, big-endian and little-endian forms hold the exact value (per coordinate, first coordinate first), and deserializing either form gives the same element back. Deserializing any byte string into a prime field gives its integer value modulo p; an extension field accepts exactly strings of its own element size and returns an error for others. Parsing a decimal, 0x, 0o or 0b string, with optional minus sign (two comma-separated ones for extensions), gives the denoted integer modulo p, the empty string gives zero in a prime field, and printing then parsing a prime-field element gives it back.",
 ["inputs","configurations"],"all elements and byte strings, all radices, signs and lengths; fields whose size is just below, at and above byte boundaries",
 NT+" Padding with leading zeros, short strings, over-long strings and radices are never exercised except through curve constants.",
 [F,Q,"src/ops.rs"],[("left padding to size_bytes","FpElt::to_bytes_be"),("reduction on input","Fp::from_bytes_be/le, Fp::elt"),("radix detection","FromFactory<&str> for Fp")],["Serialize","Deserialize","FromFactory<&str>","Display"])
p("C08","Scalars form the ring of integers modulo the group order",
 "On each of the three curve models a scalar built from any integer represents it modulo the group order r, and addition, subtraction, negation, multiplication, inversion and division (zero inverting to zero) are exact modulo r in every operand form. The left-to-right and right-to-left bit iterations yield exactly the binary digits of the representative, with no digits for zero. Serialization is the value in the fixed byte length of r, big-endian or little-endian.",
 ["inputs","configurations"],"all integers (negative, larger than r, word boundaries, zero) on every built-in curve and on custom curves of arbitrary prime order",
 NT+" No test builds a scalar.",
 [WS,MS,ES],[("mod_floor reduction","Scalar::new, Scalar::red"),("Fermat inverse","Scalar::inv_mod"),("digit iterator","Iterino")],["Scalar operators, iter_lr, iter_rl, to_bytes_be/le, Display"])
p("C09","Weierstrass addition is the complete group law",
 "On every short Weierstrass curve of odd order, adding, subtracting, doubling and negating any points (including the identity, equal points, opposite points and points outside the prime-order subgroup, in any internal representation) yields the point of the chord-and-tangent group law, in every owned or borrowed operand form. The result is always a valid point of the same curve.",
 ["inputs","configurations","histories"],"all pairs of points on all built-in and custom odd-order curves, with points produced by arbitrary previous operations",
 NT+" No test adds two points (a doc example adds two generators and prints the result).",
 [WP,WC],[("Renes-Costello-Batina complete addition and doubling","Point::core_add, Point::core_doubling"),("negation","Point::core_neg")],["Point operators + - unary -"])
p("C10","Montgomery addition is the complete group law",
 "On every Montgomery curve whose completeness constant is not the y-coordinate of any curve point, adding, subtracting, doubling and negating any points (including the identity, 2-torsion and other low-order points, equal and opposite points, in any internal representation) yields the point of the group law of by^2=x^3+ax^2+x, in every operand form. The built-in Montgomery curves satisfy that condition, so no pair of their points yields a degenerate result.",
 ["inputs","configurations","histories"],"all pairs of points on curve25519, curve448 and custom curves (b not restricted to 1), including differences that are low-order or have a small y-coordinate",
 NT+" No test adds two Montgomery points; the exceptional differences are a vanishing fraction of the pairs.",
 [MP,MC,"src/instances/mont.rs"],[("complete addition law parameterised by s","Point::core_add"),("s chosen so that no point has y = s","CURVE25519_PARAMS.s, CURVE448_PARAMS.s")],["Point operators + - unary -"])
p("C11","Edwards addition is the complete group law",
 "On every twisted Edwards curve with square a and non-square d, adding, subtracting, doubling and negating any points (including the neutral element, points of order 2, 4 and 8, equal and opposite points, in any internal representation) yields the point given by the affine twisted Edwards addition law, in every operand form. The result is always a valid point of the same curve.",
 ["inputs","configurations","histories"],"all pairs of points on edwards25519, edwards448 and custom complete twisted Edwards curves",
 NT+" No test adds two Edwards points.",
 [EP,EC],[("unified extended-coordinates addition","Point::core_add"),("negation keeps the auxiliary coordinate consistent","Point::core_neg")],["Point operators + - unary -"])
p("C12","Scalar multiplication is repeated addition",
 "On all three curve models, for every point and every scalar, multiplying (in every operand order and form) equals adding the point to itself as many times as the scalar's representative in [0, r), with zero giving the identity and one giving the point. On points of order r it is linear in the scalar and in the point, so that r-1 negates and scalars congruent modulo r act alike.",
 ["inputs","configurations"],"all scalars (0, 1, r-1, word-boundary digit patterns, random) times all points, including the identity and points outside the subgroup, on built-in and custom curves",
 NT+" No test multiplies a point by a scalar; zero and sparse-digit scalars are never reached.",
 [WP,MP,EP,WS,MS,ES],[("left-to-right double-and-add","Point::core_mul"),("digit iterator","Scalar::iter_lr")],["Point * Scalar and Scalar * Point"])
p("C13","Equality, identity test and normalization respect the point, not its form",
 "Two point values compare equal exactly when they are the same point of the same curve, whatever computation produced them, and comparing points of different curves answers unequal rather than failing. The identity test is true exactly for the neutral element. Normalizing any point, the identity included, leaves it equal to what it was and makes equal points textually identical.",
 ["inputs","histories","configurations"],"pairs of points reached through different operation sequences on all models, low-order points, the identity, points of other curves",
 NT+" Equality is only used on a decoded generator; neither the identity nor low-order points are tested.",
 [WP,MP,EP],[("cross-multiplied comparison","PartialEq for Point"),("coordinate pattern of the neutral element","EcPoint::is_zero"),("division by z","Point::normalize")],["==","is_zero","normalize"])
p("C14","Only points on the curve can be built from coordinates",
 "Building a point from affine coordinates succeeds exactly when the coordinates satisfy the curve equation and refuses (by panicking) otherwise, on all three models. The membership test accepts every point of the curve in any representation and rejects points of a different curve over the same field.",
 ["inputs","configurations"],"all coordinate pairs, including near misses (one coordinate perturbed, swapped, negated, points of the twist or of a related curve)",
 NT+" Tests only build valid generators; no invalid pair is ever offered.",
 [WC,MC,EC],[("curve-equation check on construction","Curve::new_point, Curve::new_proy_point"),("projective membership test","Curve::is_on_curve")],["new_point","is_on_curve","identity","get_generator"])
p("C15","Point encoding has the standard layout and decodes back",
 "Encoding a Weierstrass or Montgomery point gives tag 04 followed by x and y, or, compressed, tag 02/03 by the parity of y followed by x, each coordinate big-endian in the field's byte length; the identity encodes as the single byte 00. Encoding an Edwards point gives the little-endian y with the parity of x in the top bit, in the smallest length with room for that bit. Encoding depends only on the point, and on curves over primes other than 1 mod 8 (where square roots exist in this library) decoding an encoding of any point, in either form, gives that point back.",
 ["inputs","configurations","histories"],"all points in any representation on all built-in and custom curves, both compression settings, the identity and low-order points, coordinates with leading zero bytes",
 NT+" They round-trip only the generator of 7 of the 11 built-in curves and never look at the bytes.",
 [WP,WC,MP,MC,EP,EC],[("normalization then fixed-length coordinates","Encode for Point"),("square root and parity choice","Decode for Curve")],["Encode::encode","Decode::decode"])
p("C16","Decoding arbitrary bytes is total, strict and canonical",
 "On every curve over a prime other than 1 mod 8, of any model, decoding any byte string of any length returns either a point on that curve or an error, and never panics. It succeeds only on strings that are exactly what encoding the returned point produces: wrong lengths, unknown tags, coordinates not below the prime, x or y with no point on the curve, coordinates off the curve and wrong-sign encodings of points with a zero coordinate are all errors.",
 ["inputs","configurations"],"all byte strings: random, mutated valid encodings, every tag and length, boundary coordinates p-1, p, p+1, non-residue x",
 NT+" No malformed input is ever decoded.",
 [WC,MC,EC],[("length, tag and range checks","Decode for Curve"),("membership check of the result","Curve::new_point")],["Decode::decode"])
p("C17","Built-in curves are the published ones",
 "Every built-in curve has the published prime, coefficients, generator, prime order and cofactor (the effective cofactor 1-z for BLS12-381 G1), reports them consistently, and its generator has exactly that order. Multiples of the generator agree with independent implementations for every scalar. The two isogenous auxiliary curves contain their generators, share field and order with their target, and their generators map to the target's generator.",
 ["inputs","configurations"],"all 11 built-in curves, all scalars (sampled, with a corpus of OpenSSL-computed multiples)",
 "The tests decode generators of 7 of the 11 curves; a wrong order, cofactor, or an inconsistent coefficient/generator pair passes them.",
 ["src/instances/weier.rs","src/instances/mont.rs","src/instances/edw.rs","src/instances/mod.rs"],[("parameter tables","*_PARAMS"),("conversion from parameters","From<&Params> for Curve")],["GetCurve::get","get_order/get_cofactor/get_generator/get_field","encode"])
p("C18","Multiplying by the cofactor lands in the prime-order subgroup",
 "On every built-in curve, for every curve point, including points outside the prime-order subgroup, the product with the reported cofactor is annihilated by the reported order. On custom curves with order h times r the same holds for every point.",
 ["inputs","configurations"],"all points of all built-in curves (random x with a point, plus low-order components) and of custom curves",
 NT+" All tested points are generators, which are in the subgroup already.",
 ["src/instances/weier.rs","src/instances/mont.rs","src/instances/edw.rs",WC,MC,EC],[("cofactor parameter","Params.h, get_cofactor"),("order parameter","Params.r, get_order")],["get_cofactor","get_order","scalar multiplication"])
p("C19","Edwards-Montgomery rational maps are group homomorphisms",
 "The maps between edwards25519 and curve25519 and between edwards448 and curve448 send every point of their source, in any representation and including all low-order points and the identity, to the point given by their published formulas, extended so that both directions are group homomorphisms. For 25519 the two directions are mutually inverse bijections; for 448 each composition is multiplication by 4. Published base points correspond in both directions for 25519 and from Edwards to Montgomery for 448.",
 ["inputs","histories"],"all points (subgroup, mixed-order and low-order) in all representations, pairs for additivity, both directions",
 "There are no tests for the rational maps at all; low-order points and unnormalized representations are where they can fail.",
 [RM,MP,EP],[("projective formulas with special cases","Ed2Mt25519, Ed4isoMt448: push, pull"),("low-order detection","is_zero, is_two_torsion")],["RationalMap::push","RationalMap::pull","domain","codomain"])
p("C20","Curve isogenies are group homomorphisms",
 "The secp256k1 3-isogeny and the BLS12-381 G1 11-isogeny map every point of the domain curve, in any representation, to a point of the codomain given by the published rational functions, with the identity and every kernel point mapped to the identity. The image of a sum is the sum of the images and the image depends only on the point.",
 ["inputs","histories"],"all points of both domains: multiples of the generator, full-group points, kernel points, the identity; all representations; pairs for additivity",
 "There are no tests for the isogenies at all; one wrong digit in some 60 long constants or a representation dependence goes unnoticed.",
 [RM],[("coefficient tables and Horner evaluation","Isosecp256k1, IsoBls12381G1: push")],["Isogeny::push","domain","codomain"])
p("C21","Simplified SWU maps every field element to the specified point",
 "For every Weierstrass curve with non-zero coefficients over a prime other than 1 mod 8 and every admissible Z, the map is total and returns, for each field element u, the curve point defined by the simplified SWU method: the first candidate x when its curve value is a square and the second otherwise, with the sign of y equal to the sign of u. The exceptional inputs (u = 0 and Z u^2 = -1) use the published exceptional x, and the result is a deterministic function of u alone.",
 ["inputs","configurations"],"all u (small fields exhaustive, random, exceptional values) on built-in and custom curves, all admissible Z",
 "There are no tests for the maps; exceptional inputs have negligible probability under random sampling of big fields.",
 ["src/weierstrass/sswu.rs"],[("straight-line SSWU with conditional moves","SSWU::map"),("precomputed constants","SSWU::new")],["MapToCurve::map"])
p("C22","SWU for curves with a zero coefficient is SSWU followed by the isogeny",
 "For a target curve with exactly one zero coefficient and an isogeny onto it, the map sends every field element u to the image under the isogeny of the simplified SWU point of u on the isogenous curve, always a point on the target curve. For secp256k1 and BLS12-381 G1 with their standard Z this is the standard hash-to-curve mapping.",
 ["inputs","configurations"],"all u for secp256k1, BLS12-381 G1 and custom target curves with caller-supplied isogenies",
 "There are no tests for the maps.",
 ["src/weierstrass/sswuab0.rs",RM],[("composition","SSWUAB0::map")],["MapToCurve::map"])
p("C23","Shallue-van de Woestijne map sends every element to the specified point",
 "For every Weierstrass curve over a prime other than 1 mod 8 and every admissible Z, the map is total and returns, for each field element u, the curve point defined by the Shallue-van de Woestijne method: the first of the three candidate x values whose curve value is a square, with the sign of y equal to the sign of u. Inputs where an intermediate denominator vanishes use the inverse-of-zero-is-zero convention, and the result is a deterministic function of u alone.",
 ["inputs","configurations"],"all u (small fields exhaustive, random, exceptional) on built-in and custom curves including zero coefficients, all admissible Z",
 "There are no tests for the maps; exceptional inputs have negligible probability under random sampling.",
 ["src/weierstrass/svdw.rs"],[("straight-line SvdW with conditional moves","SVDW::map"),("precomputed constants","SVDW::new")],["MapToCurve::map"])
p("C24","Elligator 2 maps every field element to the specified Montgomery point",
 "For every Montgomery curve by^2=x^3+ax^2+x with a and b non-zero (b not only 1) over a prime other than 1 mod 8 and every non-square Z, the map is total and returns, for each u, the curve point defined by Elligator 2: the first candidate with odd y when its curve value is a square, otherwise the second with even y (parities taken on the equivalent curve with unit leading coefficient). The exceptional input Z u^2 = -1 is handled as published, and u and -u map to the same point.",
 ["inputs","configurations"],"all u (small fields exhaustive, random, exceptional) on curve25519, curve448 and custom curves with arbitrary b",
 "There are no tests for the maps.",
 ["src/montgomery/elligator2.rs"],[("straight-line Elligator 2","Ell2::map"),("constants for the b-normalized curve","Ell2::new")],["MapToCurve::map"])
p("C25","Edwards Elligator 2 is the Montgomery map pulled back",
 "For edwards25519, edwards448 and custom Edwards curves with a caller-supplied rational map, the map sends every field element to the image, under the rational map from the Montgomery to the Edwards curve, of the Elligator 2 point on the Montgomery curve. The result is always a valid point of the Edwards curve, also for the field elements whose Montgomery image is a low-order point. Construction refuses a rational map whose domain is another curve.",
 ["inputs","configurations"],"all u, including those that hit low-order Montgomery points, on both built-in Edwards curves and custom ones",
 "There are no tests for the maps.",
 ["src/edwards/elligator2.rs",RM],[("composition with pull","edwards Ell2::map"),("domain check","edwards Ell2::new")],["MapToCurve::map","Ell2::new"])
p("C26","Map-to-curve constructors accept exactly the admissible parameters",
 "Over any prime from 5 on, the simplified SWU constructor accepts a curve and Z exactly when both coefficients are non-zero, Z is a non-square other than -1 and the exceptional x gives a square; the Shallue-van de Woestijne constructor (on a non-singular curve, over a prime other than 1 mod 8) exactly when its four published conditions on Z hold; and the zero-coefficient variant exactly when the isogeny's codomain is the given curve with exactly one zero coefficient. Montgomery Elligator 2 with a non-square Z is accepted exactly when both coefficients are non-zero. Refusal is a panic at construction time.",
 ["inputs","configurations"],"all curve/Z combinations over small fields exhaustively, and sampled Z on built-in curves",
 "There are no tests for the constructors.",
 ["src/weierstrass/sswu.rs","src/weierstrass/svdw.rs","src/weierstrass/sswuab0.rs","src/montgomery/elligator2.rs"],[("parameter verification","SSWU::verify, SVDW::verify, SSWUAB0::verify, Ell2::verify")],["SSWU::new","SVDW::new","SSWUAB0::new","Ell2::new"])
p("C27","Values of different fields, curves or groups never mix silently",
 "Every binary operation on elements of different fields, points of different curves (even over the same field and with the same order), scalars of different orders, or a scalar with a point of another order is refused by panicking and never returns a value; only the equality comparison answers, and says unequal. Values that come from separately created instances of the same field or curve always combine, and compare equal exactly when their values do.",
 ["inputs","configurations"],"all operators and operand forms, all pairs of distinct fields, curves and orders, including curves that differ in one coefficient only",
 NT+" No test mixes values.",
 [F,Q,WP,MP,EP,WS,MS,ES,"src/macros/mod.rs"],[("equality guard before each operation","do_if_eq! in every operator"),("structural equality of fields and curves","PartialEq for Params / Curve")],["all operators"])
p("C28","Fields and curves can be shared between threads",
 "Fields, elements, curves, points, scalars and the map types are usable from several threads. Shared, they give each thread the same results as a single-threaded run, for any interleaving of operations, including the first square roots in a freshly created field. No operation panics or blocks because another thread uses the same field.",
 ["schedules","histories"],"any number of threads performing any mix of operations on shared fields (sampled real schedules, with fresh fields so that the lazily computed state races)",
 NT+" All tests are single-threaded with no shared values, so the lazily filled cache is never contended.",
 [F,Q],[("interior-mutable cache of square-root constants","Fp::get_sqrt_precmp, Fp2::get_sqrt_precmp")],["Sqrt::sqrt, decode and map from several threads"],
 [("sqrt_precmp","cache shared by all clones of a field","Params.sqrt_precmp")])
p("C29","Operations are pure: results do not depend on history",
 "No operation other than the explicit in-place ones changes its operands or any other value, and the result of every operation depends only on the values of its operands. In particular results are the same whether or not other operations, such as square roots, ran earlier on the same field or on another instance or clone of it, and repeating an operation repeats its result.",
 ["histories","inputs"],"random operation histories over a pool of fields, elements, scalars and points, replayed on fresh instances and compared with a value-level model",
 NT+" No test performs a sequence of operations.",
 [F,Q,WP,MP,EP],[("immutable values sharing the field by reference count","Arc<Params>, clone"),("cache of square-root constants","get_sqrt_precmp")],["all operators over histories"],
 [("sqrt_precmp","cache shared by all clones of a field","Params.sqrt_precmp")])
p("C30","Dropped values release their memory",
 "Creating fields, curves, points and maps, using them in any way, and dropping all of them returns the memory they used: repeating any such session does not make the live heap grow. This holds whichever operations, including square roots and decompression, ran in between.",
 ["histories","configurations"],"random sessions of create/use/drop over prime fields of every residue class and all curve models",
 NT+" No test observes memory.",
 [F,Q],[("reference-counted field parameters","Arc<Params>"),("contents of the square-root cache","SqrtPrecmp")],["live heap bytes after the session"])
p("C31","A curve is exactly the parameter set it was built from",
 "A curve built from a parameter set reports that set's modulus, order, cofactor, coefficients and generator, whichever notation the coefficients and coordinates are written in: decimal, hexadecimal, octal, binary, negative, or not reduced modulo p. Two parameter sets give equal curves, whose values combine, exactly when modulus, order, cofactor, coefficients and generator are equal as numbers (Montgomery curves: with the same completeness constant s). A generator that is not on the curve is refused when it is asked for and affects nothing else. Each built-in identifier prints its own name, equals only itself, and yields equal curves each time it is used.",
 ["inputs","configurations"],"all parameter sets, in every notation, and all pairs of sets that differ in one entry; all pairs of built-in identifiers",
 NT+" No test builds a curve from parameters of its own or compares two curves.",
 ["src/instances/mod.rs","src/instances/weier.rs","src/instances/mont.rs","src/instances/edw.rs",WC,MC,EC,"src/ellipticcurve.rs"],[("curve construction from the parameter strings","From<&Params> for Curve"),("structural equality","PartialEq for Curve"),("identifiers","GetCurve, Display of the instance identifiers")],["From<&Params>","get_field, get_order, get_cofactor, get_generator","==","Display"])
p("C32","Protocols written against the generic curve interface are complete and sound",
 "For every curve of known order, code that uses only the EllipticCurve, EcPoint, EcScalar, Encode and Decode interfaces obtains the group-theoretic results: Diffie-Hellman parties agree, ElGamal decryption inverts encryption, Schnorr and ECDSA verification equations hold for honest signers and fail for forged responses, Pedersen commitments are additive, and Shamir shares reconstruct the secret and match Feldman commitments. The parties may use separately created instances of the curve and exchange points as encodings.",
 ["inputs","histories","configurations"],"all secrets, nonces and challenges (incl. 0, 1, r-1, r and beyond), all curves of known order and all models",
 NT+" No test runs a protocol or uses the generic traits.",
 ["src/ellipticcurve.rs",WP,MP,EP,WS,MS,ES,WC,MC,EC],[("generic traits","EllipticCurve, EcPoint, EcScalar, Encode, Decode"),("scalars modulo the order","Scalar operators"),("group law and scalar multiplication","Point operators")],["the traits in ellipticcurve.rs"])
p("C33","A refused operation changes nothing",
 "After any operation that is refused (values of different fields, curves or groups, malformed text or bytes, coordinates off the curve, map parameters that do not fit, a square root in a field whose roots are not supported), every field, curve and value involved, and every other, keeps working exactly as if it had not been attempted, also when it was attempted in another thread. Attempting it again, or on fresh instances, is refused again, and repeating refused operations does not lose memory.",
 ["histories","fault_sequences"],"all histories in which refused operations alternate with allowed ones on shared fields, curves and values",
 NT+" No test provokes a refusal.",
 [F,Q,WC,MC,EC,WP,MP,EP,"src/macros/mod.rs"],[("refusal by panic before anything is changed","do_if_eq!, assert! in constructors"),("shared state behind a field","get_sqrt_precmp")],["all operations after a refusal"],
 [("sqrt_precmp","cache shared by all clones of a field, must not be poisoned by a panic","Params.sqrt_precmp")])
p("C34","Hash-to-curve pipelines give the specified subgroup point",
 "For every suite of map and curve (simplified SWU with or without isogeny, Shallue-van de Woestijne, Elligator 2 on Montgomery and Edwards curves) and all u0 and u1, multiplying map(u0)+map(u1) by the cofactor gives the point that the definitions of map, addition and cofactor give. The point lies in the subgroup of order r, does not depend on the order of the parts or on whether they are cleared before or after adding, is the same for separately created instances, and survives encoding and decoding, also when u0 = u1, u0 = -u1, or a part is exceptional.",
 ["inputs","configurations"],"all pairs (u0, u1) incl. equal, opposite and exceptional, on built-in and custom curves over primes other than 1 mod 8, all admissible Z",
 "There are no tests for the maps; that the parts fit together (map output representations, addition of special points, cofactor clearing, compression) is a claim over all inputs.",
 ["src/weierstrass/sswu.rs","src/weierstrass/sswuab0.rs","src/weierstrass/svdw.rs","src/montgomery/elligator2.rs","src/edwards/elligator2.rs",RM,WP,MP,EP],[("maps","MapToCurve::map"),("addition of map outputs","Point operators"),("cofactor","get_cofactor, new_scalar")],["map, +, * cofactor, encode, decode"])
p("C35","Algorithms written against the generic field interface are exact",
 "Code that uses only the Field and FieldElement interfaces, with elements from separately created instances of a prime field or of its quadratic extension, obtains exact results: Horner evaluation and Lagrange interpolation invert each other, batch inversion and Gaussian elimination agree with integer arithmetic, squaring by the generic power equals the product, the p-th power is the Frobenius map, Euler's criterion decides is_square, in-place setters and conditional moves inside such code give exactly the values they name, and elements survive being printed, parsed, encoded and decoded.",
 ["inputs","histories","configurations"],"all odd primes, and p = 3 mod 4 for the extension; all element vectors and the long computations over them",
 NT+" No test uses the generic traits.",
 ["src/field.rs","src/ops.rs",F,Q],[("generic traits","Field, FieldElement, FromFactory, AddRef and the others"),("operators","impl_op_ex!")],["the traits in field.rs and ops.rs"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)
print(len(P))
