#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

I=["inputs"]
p("C01","Polynomial arithmetic is exact ring arithmetic",
 "Sum, difference, negation, product and non-negative power of terms and polynomials with integer coefficients of any size, exponents of any sign and at most one coefficient variable per monomial give exactly the result ordinary algebra gives; dividing by a single term without variable subtracts its exponents and floor-divides every coefficient by its coefficient. Every spelling of one operation (term or polynomial operands, by value or by reference, compound assignment, square, cube, power with a machine or a big exponent) gives the same result.",
 I,"all pairs of terms/polynomials in x, y, q, c_i_j over Z, all exponents n >= 0, all operator spellings",
 "The unit tests multiply and add about a dozen fixed polynomials, mostly with two terms and small positive coefficients; cancellation, big coefficients, variables, negative exponents and most operator spellings are never exercised.",
 ["src/polynomial.rs","src/term.rs"],
 [("impl_op_ex! operator blocks","src/polynomial.rs"),("Power for Polynomial/Term","src/polynomial.rs, src/term.rs")],
 ["values returned by the operators"])
p("C02","Results hold no zero terms, so equality and zero tests are exact",
 "A polynomial returned by any operation of the library, from operands that themselves hold no term with coefficient zero, holds no term with coefficient zero. Hence two results that are algebraically equal compare equal, a result tests as zero exactly when it is algebraically zero, and queries such as 'does it contain y' see only terms that are really there.",
 I,"all operations returning or updating a polynomial (arithmetic, reduction, evaluation, substitution, derivatives, division polynomials, series, gcd) on all operands",
 "Tests compare printed text, which skips zero terms, so a stray zero term is invisible to them; cancellation depends on the inputs.",
 ["src/polynomial.rs","src/term.rs","src/division_polynomial.rs"],
 [("removal of cancelled terms in +, +=, -=, *, /","src/polynomial.rs"),("modular_assign / Rem drop zero residues","src/polynomial.rs")],
 ["Polynomial::terms after each public call","Polynomial::is_zero, =="])
p("C03","The text form is faithful",
 "A polynomial prints its non-zero terms in descending order (x power, then y, then q, then variable), each as coefficient, powers and variable with a coefficient of one left out unless nothing else is there, joined by '+' or '-' for the sign; zero prints as 0. Reading the text back gives the same polynomial, so different polynomials never print alike; a curve point prints as O or (x, y), a point list comma-separated, and a curve with its equation, point count and j-invariant.",
 I,"all polynomials and terms (any coefficients, exponents, variables), all points and curves",
 "Tests fix the text of some tens of values; sign, one, minus one, variable and exponent cases combine freely.",
 ["src/term.rs","src/polynomial.rs","src/subscripted_variable.rs","src/elliptic_curve.rs"],
 [("Display for Term","src/term.rs"),("Display for Polynomial","src/polynomial.rs"),("Display for ECPoint, ECPointVec, EllipticCurve","src/elliptic_curve.rs")],
 ["to_string()"])
p("C04","Coefficient reduction modulo an integer is exact",
 "Reducing a polynomial or term modulo an integer m >= 2, as a new value or in place, leaves every coefficient in 0..m-1 congruent to the original and drops the terms of a polynomial that vanish. The modular power of a polynomial or of a term without variable, for every exponent n >= 0 including 0 and 1, equals the n-th power reduced modulo m.",
 I,"all polynomials/terms with coefficients of any sign and size, all moduli m >= 2 (prime or not, small or large), all exponents n >= 0",
 "Three reductions of one two-term polynomial with small positive coefficients are tested; modular power of polynomials only through other code.",
 ["src/polynomial.rs","src/term.rs"],
 [("Rem<i32>, Rem<&BigInt>, modular_assign, power_modulo","src/polynomial.rs"),("modulo, modular_assign, power_modulo","src/term.rs")],
 ["returned/updated values"])
p("C05","Polynomial remainder over F_p is the remainder",
 "For a prime p, any dividend in x (possibly also y and q) with non-negative x powers and any divisor in x alone that is not zero modulo p, with whatever representatives of the coefficients, taking the remainder ends after at most about as many subtractions as the dividend has terms and degrees to clear. The result has coefficients in 0..p-1, x-degree below the divisor's degree modulo p (zero if the divisor is constant), and differs from the dividend by a multiple of the divisor modulo p.",
 I,"all dividends, all divisors non-zero mod p (constant, unreduced, leading coefficient divisible by p, non-monic), all primes p",
 "One remainder modulo 19 is tested. Constant divisors and leading coefficients divisible by p never occur in the tests.",
 ["src/polynomial.rs"],[("polynomial_modular","src/polynomial.rs")],["returned value; allocation and CPU budget of the call"])
p("C06","Polynomial gcd over F_p is the monic greatest common divisor",
 "For a prime p and any two polynomials in x, coprime, equal, zero, constant or unreduced ones included, the gcd ends and is the monic greatest common divisor modulo p with coefficients in 0..p-1 (zero if both are zero modulo p), whichever operand comes first. The coprimality test says yes exactly when that gcd is 1, and the monic form of a polynomial is its unique scalar multiple modulo p with leading coefficient 1.",
 I,"all pairs of univariate integer polynomials, all primes p",
 "The gcd is only reached through two SEA tests in which the inputs share a factor; no test has coprime inputs.",
 ["src/polynomial.rs"],[("gcd, is_gcd_one, to_monic","src/polynomial.rs")],["returned values; allocation and CPU budget of the call"])
p("C07","Evaluation and substitution are homomorphisms",
 "Evaluating a polynomial at numbers for x and/or y, substituting a polynomial for x or y, and raising variables to a power (x and y to x^n, y^n together; y alone; q alone; n >= 0) replace each occurrence exactly and leave the other variables alone. In particular they respect sums and products, and terms that fall together are added.",
 I,"all polynomials with non-negative powers of the substituted variable, all values (zero and negative included), all substituted polynomials (Laurent in q included), all n >= 0",
 "Five fixed substitutions are tested; evaluation at numbers only at points of a curve.",
 ["src/polynomial.rs","src/term.rs"],
 [("eval_xy, eval_x, eval_y, eval_x_polynomial, eval_y_polynomial, to_frob, to_y_power, to_q_power","src/polynomial.rs, src/term.rs")],
 ["returned values"])
p("C08","Formal derivatives obey the rules of calculus",
 "The derivative in x or y of a term or polynomial with non-negative powers is the formal one: n times the power one lower, zero for terms without the variable. It is linear and satisfies the product rule.",
 I,"all terms and polynomials with non-negative powers, any coefficients and extra variables",
 "One polynomial with two terms is tested.",
 ["src/polynomial.rs","src/term.rs"],[("derivative_x, derivative_y","src/polynomial.rs, src/term.rs")],["returned values"])
p("C09","Reduction by the curve equation preserves the class",
 "Reducing a polynomial by y^2 = x^3 + a x + b gives a polynomial of y-degree at most 1 that is equal to it modulo the curve equation, over the integers or, in the modular variant, modulo the prime p with coefficients in 0..p-1. A polynomial already of y-degree at most 1 is left as it is (up to reduction of coefficients), so the reduced form is unique.",
 I,"all polynomials with non-negative powers, all integers a, b (zero and negative included), all primes p",
 "One monomial over Z and one identity modulo 2003 are tested.",
 ["src/polynomial.rs"],[("reduction, reduction_modular","src/polynomial.rs")],["returned values"])
p("C10","Division polynomials describe multiplication by n",
 "For all integers a, b and n, the polynomials psi_n, phi_n, omega_n are the division polynomials of y^2 = x^3 + a x + b, written with y-degree at most 1. On every non-singular curve over F_p, psi_n vanishes at a point P other than O exactly when nP = O, and otherwise nP = (phi_n/psi_n^2, omega_n/psi_n^3) at P.",
 I,"all n >= 0 (psi) or n >= 1 (phi, omega), all integers a, b, all curves and points",
 "The tests compare n <= 5 for the single pair a = b = 1.",
 ["src/division_polynomial.rs","src/polynomial.rs"],[("psi, phi, omega","src/division_polynomial.rs")],["returned values evaluated at points"])
p("C11","q-expansions of E4, Delta and j are the classical series at every order",
 "For every order N >= 0, the truncated series are exact: Delta/q is the product of (1-q^n)^24 up to q^N, its inverse times it is 1 up to q^N, E4 is 1 + 240 sum sigma_3(n) q^n up to q^N, and q*j and j are E4^3/(Delta/q) and the same divided by q, up to q^N. No term beyond q^N appears, and the series of a lower order is a prefix of that of a higher one.",
 I,"all orders N >= 0",
 "Orders up to 6 are tested.",
 ["src/delta.rs","src/eisenstein.rs","src/j_invariant.rs"],
 [("delta1, delta1_inverse","src/delta.rs"),("eisenstein4","src/eisenstein.rs"),("j_invariant1, j_invariant","src/j_invariant.rs")],["coefficients of the returned series"])
p("C12","Truncation and coefficient extraction in q and in the variables",
 "Truncating at order N keeps exactly the terms with q power at most N, whatever their variable. The truncated n-th power of a power series in q equals its full n-th power truncated, the coefficient of a q power is exactly the part of the polynomial with that power (variables kept), and the coefficient of a variable (or of no variable) is exactly its integer coefficient, zero if absent; a constant polynomial converts to its integer.",
 I,"all polynomials in q and variables (negative q powers included for truncation and extraction), all orders and powers",
 "One truncated power is tested.",
 ["src/polynomial.rs"],[("omit_high_order_q, power_omit_high_order_q, to_q_power_coef, to_variable_coef, to_scalar","src/polynomial.rs")],["returned/updated values"])
p("C13","The divisor sum is the arithmetic function",
 "For all n >= 1 and k >= 0 the result is the sum of d^k over the positive divisors d of n, exactly, however large; it is 0 for n <= 0 and for negative k.",
 I,"all n and k","n <= 13 and k in {0, 1, 3} are tested.",
 ["src/divisor.rs"],[("sigma_divisor","src/divisor.rs")],["returned value"])
p("C14","The linear solver solves",
 "For an integer system with at least as many equations as unknowns that has exactly one solution, and that solution integral, the solver returns a matrix of the same shape that gives it: row k reads 'unknown k = value' (coefficient 1, zeros elsewhere, the value in the last column) and rows beyond the number of unknowns are zero. This holds whatever the order of the equations, zero pivots, signs and sizes, and the input matrix is untouched.",
 I,"all consistent systems with a unique integral solution: square or overdetermined, rows in any order, dependent rows, any coefficients",
 "The solver has no test of its own; it is reached with the three systems of the modular polynomials 2, 3 and 5, whose first pivot is 1.",
 ["src/simultaneous_equation.rs"],[("solve","src/simultaneous_equation.rs")],["returned matrix"])
p("C15","Unknown coefficients are numbered one to one",
 "For every prime p, the numbering of the variables c_i_j with 0 <= i <= j <= p is a bijection onto 0..count-1 with count = (p+1)(p+2)/2: first the pairs i < j in lexicographic order, then the diagonal; the two directions are inverse to each other and the absent variable has no number. Variables are totally ordered, absent first, then by i, then by j, consistently with equality.",
 I,"all primes p, all indices and variables",
 "p = 3 and one inverse lookup are tested.",
 ["src/subscripted_variable.rs"],[("SubscriptedVariableConverter","src/subscripted_variable.rs"),("Ord/PartialEq for SubscriptedVariable","src/subscripted_variable.rs")],["returned indices and variables"])
p("C16","The modular polynomial relates p-isogenous j-invariants",
 "For every prime p, the modular polynomial is symmetric in x and y, monic of degree p+1 in each, congruent to (x^p - y)(x - y^p) modulo p, and vanishes identically on the q-expansions x = j(q), y = j(q^p). Its ansatz with unknown coefficients, the q-expansion of that ansatz up to q^0 and the list of linear equations it yields (one per power q^(-p^2-p) .. q^0, in that order) are exactly what the true modular polynomial satisfies.",
 I,"all primes p (feasible: 2, 3, 5, 7; ansatz up to 31), repeated and interleaved calls",
 "p = 2, 3, 5 are compared with known text; a fault that only shows for larger p or in the intermediate equations for p >= 5 passes.",
 ["src/modular_polynomial.rs","src/j_invariant.rs","src/simultaneous_equation.rs","src/subscripted_variable.rs"],
 [("modular_polynomial, subscripted_variable_modular_polynomial, ..._q, ..._list","src/modular_polynomial.rs")],["returned polynomials"])
p("C17","Curve construction enumerates exactly the rational points",
 "For every prime p and integers a, b (any representatives), the constructed curve lists every solution of y^2 = x^3 + a x + b over F_p exactly once with coordinates in 0..p-1, in ascending (x, y) order, followed by O, and its cardinality is the length of that list. The membership test accepts O and exactly those integer pairs, of any size and sign, that satisfy the equation modulo p, also for curves built without enumeration and primes of any size.",
 I,"all primes p >= 2, all a, b, all integer coordinates",
 "One curve over F_5 is listed in full; membership is tested for one point.",
 ["src/elliptic_curve.rs"],[("new, new_raw, create_points, is_on_curve, points, cardinality, canonicalize","src/elliptic_curve.rs")],["points(), cardinality(), is_on_curve()"])
p("C18","Point addition is the group law",
 "On every non-singular curve over F_p with p >= 3, adding any two points, however their coordinates are represented modulo p, gives the chord-and-tangent sum: O is neutral on both sides, P + (-P) = O, doubling uses the tangent, addition is commutative and associative, and the result lies on the curve. Sums of two finite points have coordinates in 0..p-1; negation is (x, -y) and fixes O.",
 I,"all curves, all pairs and triples of points including O, equal, opposite and 2-torsion points, all representatives, primes of any size",
 "Addition is tested only through point orders and small multiples of one generator; O as right operand is never added.",
 ["src/elliptic_curve.rs"],[("plus, negate, canonicalize","src/elliptic_curve.rs")],["returned points"])
p("C19","Scalar multiplication is repeated addition for every integer",
 "For every non-singular curve, point P on it and integer n, positive, zero, negative or larger than the group order, the result is P added n times (the inverse of |n| times P for negative n). Hence mP + nP = (m+n)P, m(nP) = (mn)P, and multiples depend only on n modulo the order of P, also when intermediate doublings reach O.",
 I,"all curves, points (any order, 2-torsion, O), all integers n",
 "Only 1, 2, 3 times one point of prime order and multiplications by 2, 3, 4, 7 on two curves are tested.",
 ["src/elliptic_curve.rs"],[("multiply_scalar","src/elliptic_curve.rs")],["returned points"])
p("C20","Point orders and division points are exact",
 "On every non-singular curve, the order of a point is the least n >= 1 with nP = O; it divides the cardinality. The division points for n are exactly the listed points killed by n, each once and in list order; they form a subgroup containing O.",
 I,"all curves and points, all n (composite, even, zero, negative, larger than the group)",
 "Orders on one curve over F_5, division points for orders 2, 3, 4, 7 on two curves.",
 ["src/elliptic_curve.rs"],[("point_order, division_points","src/elliptic_curve.rs")],["returned order / list"])
p("C21","secp256k1 has the standard parameters and multiples",
 "The curve is y^2 = x^3 + 7 over the standard 256-bit prime with the standard base point G, whose order is the standard n. For every integer k, k G is the standard public key point of k modulo n.",
 I,"all scalars k (small, near powers of two, near n, above n, negative)",
 "k = 1, 2, 3 are tested.",
 ["src/secp256k1.rs","src/elliptic_curve.rs","src/bigint.rs"],[("Secp256k1::new","src/secp256k1.rs"),("multiply_scalar","src/elliptic_curve.rs")],["returned points"])
p("C22","The j-invariant classifies curves",
 "For every non-singular curve over F_p, p >= 5 prime, the j-invariant is the number in 0..p-1 congruent to 1728 * 4a^3 / (4a^3 + 27b^2). It is the same for (a, b) and (u^4 a, u^6 b), does not depend on the representatives of a and b, and is 0 exactly if a = 0 and 1728 exactly if b = 0 modulo p.",
 I,"all non-singular curves over primes of any size, all scalings u, all representatives",
 "The j-invariant of two curves is tested through their text.",
 ["src/elliptic_curve.rs","src/bigint.rs"],[("j_invariant","src/elliptic_curve.rs")],["returned number"])
p("C23","The isogeny's codomain is the curve of Velu's formulas",
 "For a non-singular curve over F_p, p >= 5, and any order n >= 1, the isogeny with the rational points killed by n as kernel leads to the curve given by Velu's formulas modulo p, coefficients in 0..p-1. That curve is non-singular and has as many points as the original, equals the original for a trivial kernel, and for a kernel of prime order l its j-invariant is a root of the l-th modular polynomial at the original j-invariant.",
 I,"all non-singular curves over F_p, all n >= 1 (odd, even, composite, coprime to the cardinality), chains of isogenies",
 "The only test prints a chain of curves and checks nothing.",
 ["src/elliptic_curve.rs"],[("isogeny, division_points","src/elliptic_curve.rs")],["returned curve"])
p("C24","The Elkies/Atkins step reports the isogenous j-invariants",
 "For a curve over F_p and a prime l, the step ends and returns the monic gcd modulo p of x^p - x and the l-th modular polynomial at the curve's j-invariant; its reported degree is the number of distinct roots in F_p of that modular polynomial. l is reported as an Elkies prime exactly if there is a root, and the reported j-invariants are the smallest distinct roots in ascending order, two of them or as many as there are.",
 I,"all curves over F_p (p >= 5), l in 2, 3, 5 (7)",
 "Two curves, both with exactly two roots, are tested; an Atkins prime (no root) never occurs.",
 ["src/schoof_elkies_atkins.rs","src/polynomial.rs","src/modular_polynomial.rs"],[("sea","src/schoof_elkies_atkins.rs"),("gcd","src/polynomial.rs")],["SEAResult"])
p("C25","Schoof's residues are those of the trace of Frobenius",
 "For a non-singular curve y^2 = x^3 + a x + b over F_q, q >= 5 prime, the algorithm ends and returns, for l = 2, 3, 5 with l < q and in this order, a residue r in 0..l-1 with r = q + 1 - #E(F_q) modulo l. Combining them by the Chinese remainder theorem thus gives the trace modulo their product.",
 I,"all non-singular curves over F_q for all primes q >= 5, any representatives of a, b",
 "Both Schoof tests are ignored because they did not end; together they cover two curves.",
 ["src/schoof.rs","src/division_polynomial.rs","src/polynomial.rs"],[("schoof","src/schoof.rs")],["returned residues"])
p("C26","Integer powers and modular inverses are exact",
 "For every integer b, exponent n >= 0 and modulus m >= 2, the power is b^n and the modular power is the residue of b^n in 0..m-1, for machine and big exponents alike. For a prime p and b not divisible by p, the inverse is the unique number in 1..p-1 with b * inverse = 1 modulo p.",
 I,"all integers (negative, zero, any size), exponents, moduli, primes",
 "Eight small cases are tested, none with a negative base, a big exponent or a composite modulus.",
 ["src/bigint.rs"],[("Power, PowerModulo, Inverse for BigInt","src/bigint.rs")],["returned numbers"])
p("C27","Extended gcd gives a Bezout identity",
 "For all integers a, b of any sign and size, zero included, the result (g, x, y) satisfies a x + b y = g, g divides a and b, and |g| is their greatest common divisor. For non-negative a and b, g is non-negative.",
 I,"all pairs of integers","The pair 8, 11 is tested in both orders.",
 ["src/bigint.rs"],[("extended_gcd","src/bigint.rs")],["returned triple"])
p("C28","Chinese remaindering satisfies every congruence",
 "For any list of residues modulo pairwise coprime positive moduli, in any order and of any size, with residues of any representative, the result's modulus is the product and its residue is congruent to each given residue modulo its modulus. An empty list gives modulus 1.",
 I,"all lists of pairwise coprime moduli >= 1 and residues","One list of three small moduli is tested.",
 ["src/bigint.rs"],[("chinese_remainder","src/bigint.rs")],["returned ModResult"])
p("C29","Monomial order, leading term and shape queries",
 "Monomials and terms are totally ordered by x power, y power, q power and variable, in this order, negative powers included. The leading term of a polynomial is its greatest term (zero for the zero polynomial), the x-degree of a polynomial in x is its greatest x power (0 for zero), and the queries for the presence of x, y and q are true exactly if some term has a non-zero power of it; equal-order comparison of terms looks at the three powers alone.",
 I,"all monomials, terms and polynomials","One leading term is tested.",
 ["src/term.rs","src/polynomial.rs"],[("Ord for Monomial/Term","src/term.rs"),("highest_term_x, degree_x, has_x, has_y, has_q","src/polynomial.rs")],["returned orderings and terms"])
p("C30","Results depend only on the arguments, in every history and thread",
 "Every operation leaves its operands unchanged and returns the same result whatever was computed before, in whatever order and on whatever thread. Using shared polynomials, curves and points from several threads at once gives the sequential results, without data races or undefined behaviour.",
 ["inputs","histories","schedules"],"all call histories (repetition, interleaved parameters, reversed order) and thread schedules",
 "Each test runs one short history on one thread.",
 ["src/polynomial.rs","src/division_polynomial.rs","src/elliptic_curve.rs","src/modular_polynomial.rs","src/j_invariant.rs","src/schoof_elkies_atkins.rs"],
 [("values are owned; no global state","all modules")],["results per call over permuted and concurrent histories; Miri / ThreadSanitizer / AddressSanitizer reports"])
p("C31","Invalid use is refused, never answered",
 "Arguments outside an operation's domain stop it with a panic rather than yielding a value: composite or too small field characteristic or modular-polynomial level, adding points off the curve or multiplying them by n with |n| >= 2, division of something non-zero by zero or by more than one term, product or power of variables, division by a variable, reduction modulo zero, negative exponents of polynomial powers, remainder by a zero polynomial or one in y or q, q-truncation and coefficient extraction of polynomials with x or y (or q, for variables), x-degree in presence of y or q, scalar conversion of non-constants, derivatives of negative powers, a division-polynomial index below the first, out-of-range variable or index, inverse modulo less than 2, singular systems.",
 I,"all inputs outside the listed domains","No test expects a refusal.",
 ["src/polynomial.rs","src/term.rs","src/elliptic_curve.rs","src/division_polynomial.rs","src/subscripted_variable.rs","src/modular_polynomial.rs","src/bigint.rs","src/simultaneous_equation.rs","src/term_builder.rs"],
 [("assert!/panic! guards","all modules")],["whether the call panics"])
p("C32","Terms are built exactly as described",
 "A term built step by step has exactly the coefficient, powers and variable last set, in whatever order and from whatever number type they were set; parts never set are coefficient 1, power 0 and no variable. The builder can be reused after building without affecting terms already built, and turning a term into a polynomial keeps it (zero for coefficient zero).",
 ["inputs","histories"],"all sequences of builder calls",
 "Tests build terms in a few fixed orders and never reuse a builder.",
 ["src/term_builder.rs","src/term.rs"],[("TermBuilder","src/term_builder.rs"),("Term::to_pol, Term::from, accessors","src/term.rs")],["fields of the built terms"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
