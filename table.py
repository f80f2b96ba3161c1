T26 = "The 26 existing tests compare a handful of concrete expressions; "
prop("C01", "Rational arithmetic, comparison and conversion are exact and canonical",
     "Adding, subtracting, multiplying and dividing rational numbers gives the exact mathematical result, whichever by-value, by-reference or assigning operator form is used, and every rational number is kept in lowest terms with a positive denominator. Equality and ordering agree with the mathematical order, and every predicate (zero, one, two, minus one, minus two, positive, negative, integer, fraction, even, odd) and conversion to and from integers tells the truth.",
     "all numerators and denominators within the bounds", T26 + "none covers ordering of fractions, negative denominators or the operator forms systematically.",
     ["src/rational.rs"], [("Rational operators", "src/rational.rs impl of Add/Sub/Mul/Div via derive_more over num::Rational"), ("Rational::new, From", "src/rational.rs"), ("predicates, to_int", "src/rational.rs")],
     "numerators +-60 (division +-12), denominators 1..6 (arithmetic 1..3), integers up to +-2^100 for sums, differences and comparisons and +-2^40 for products, single integers to +-2^120 and conversions to and from every machine integer type at full 64-bit range; thorough: numerators +-400/+-1000, denominators to 12",
     "results that overflow i128; division by zero")
prop("C02", "Rational powers, division with remainder, gcd, floor, abs and binomials",
     "Raising a rational to a rational exponent returns an exact power together with the exponent that is left over, such that power * base^(left-over) equals base^exponent, the left-over is zero for integer exponents, and a power that cannot be computed is returned unchanged. Division with remainder gives an integer quotient and a remainder below one that add up to the number, floor, abs and inverse are exact, the gcd is positive, divides both arguments and is the greatest such, and binomial coefficients satisfy Pascal's rule.",
     "all bases, exponents and numerators within the bounds", T26 + "rational powers are tested for a few integer exponents only.",
     ["src/rational.rs"], [("Rational::pow, pow_basic", "src/rational.rs"), ("div_rem, floor, abs, inverse, int_gcd", "src/rational.rs"), ("binomial_coeff", "src/rational.rs")],
     "integer exponents -4..4 of bases with numerators +-12, denominators 1..3; fractional exponents with numerators +-5, denominators 1..3; integer powers of 2,-2,3,10 up to 130; gcd numerators +-10, denominators 1..2; binomials up to 20; thorough: exponents to 7, bases to 50, gcd to 24, binomials to 40",
     "fractional powers of negative bases (no agreed value); zero to a non-positive power")
prop("C03", "Equality, hashing and ordering of expressions agree",
     "Two expressions are equal exactly if they have the same operator and equal operands, the operands of sums and products in any order; equality is symmetric, and equal expressions have equal hashes. Comparison of expressions is a total order: antisymmetric, transitive, consistent between its two forms, and says 'equal' for equal expressions only. Numbers and constants are ordered by size.",
     "all pairs (triples for transitivity) of expressions within the bounds", T26 + "hash maps and sets keyed by expressions rely on this, yet no test compares hashes or orderings of pairs.",
     ["src/atom.rs"], [("PartialEq/Hash of Sum, Prod, Expr", "src/atom.rs"), ("Ord of Atom, Real", "src/atom.rs")],
     "pairs of depth 1 raw and depth 2 / depth 1 simplified trees over +, *, integer powers, sin with literals +-2, variables, pi, e, undef, fractions; copies with operands reversed; pairs and triples (quick: of 24) out of 40 kinds of operand (powers of powers, functions, logarithms in several bases, variables named like functions, undef), pairs of those built into each other; triples of depth 1; pi and e against all fractions with numerators +-400 over 1, 2, 3, 7, 106, 113, and triples with fractions of integers up to 10^17 next to them",
     "deeper trees; ordering of undef inside larger trees beyond depth 1")
prop("C04", "Building expressions with operators and constructors preserves value",
     "The sum, difference, product, quotient and power of two expressions, in every operator form and through every named constructor (square root, exponential, logarithms, numbers, constants), denote exactly that function of the operands' values, for positive values of the variables. Building an expression never panics on defined operands.",
     "all operand expressions within the bounds, with symbolic integer literals", T26 + "they sample single expressions, while the merging and folding code has a path for every pair of operand kinds.",
     ["src/algos.rs", "src/atom.rs"], [("Expr::add/sub/mul/div/pow", "src/algos.rs"), ("Sum::add_rhs, Prod::mul_rhs", "src/algos.rs"), ("operator impls", "src/algos.rs")],
     "operands: depth 1 against depth 1, depth 2 against a leaf (either side), literals +-2, functions/fractional powers/pi/e at depth 1, sums of three against sums of two terms with coefficients +-2, products of up to three powers with exponents +-2, powers with powers, products and sums as exponents, numeric powers with exponents -5/2..5/2, thirds; powers of powers and products of powers of variables that stand for negative values; chains of four operations, sums and products built from five operands, sums or products of three operands against each other; thorough: chains of five, six operands, depth 2 against depth 1, coefficients +-4",
     "fractional powers of negative numbers; exponents that make the exact oracle exceed 64", [VALUE])
prop("C05", "reduce preserves value, computes numbers, collects terms and is stable",
     "Reducing any expression, however it was built, gives an expression with the same value (for positive values of the variables); reducing the result again changes nothing, and the result does not depend on the order in which the operands of sums and products were written. In the reduced form sums inside sums and products inside products are merged, numbers are combined, terms that differ only in their coefficient and factors with the same base are collected, and no zero terms or one factors remain. Reducing an expression of numbers combined by sums, products, quotients and integer powers leaves a single number.",
     "all literal (unsimplified) expression trees within the bounds", T26 + "reduction is tested on about a dozen concrete inputs.",
     ["src/algos.rs", "src/atom.rs"], [("SymbolicExpr::reduce of Sum, Prod, Pow, Func", "src/atom.rs"), ("Sum::reduce_rec, Prod::reduce_rec", "src/algos.rs")],
     "literal trees of depth 2 and 3 over + * and integer powers (-2..3) with literals +-2 (+-6 at depth 2), functions and fractional powers at depth 2, every function of a depth 2 argument, sums/products of four operands, sums and products of three (thorough: four) operands from a pool of 25 terms and 19 factors that can be combined in several ways (every order compared with its mirror image and rotation), trees of the smart constructors of depth 2 (operands of depth 1) and 3; literal chains of four + * and squares with literals +-1 (thorough +-2), of three with functions and variable powers, literal lists of four (thorough: five) operands, powers of powers and of products with bases that may be negative; thorough: right operands of depth 1, more leaves",
     "deeper trees; collection of terms is not claimed inside undefined expressions", [VALUE])
prop("C06", "Expansion preserves value and expands fully",
     "Expanding an expression, expanding its main operator only, or distributing a product over sums never changes its value (for positive values of the variables). After a full expansion of products and non-negative integer powers of polynomials no product contains a sum and no sum is raised to a positive integer power.",
     "all expressions within the bounds", T26 + "expansion is tested on a few fixed polynomials.",
     ["src/algos.rs"], [("Expr::expand, expand_main_op, distribute", "src/algos.rs"), ("Prod::expand_mul, distribute; Pow::expand_pow_rec", "src/algos.rs")],
     "trees of depth 2 (operands of depth 1) and 3 over + * and integer powers with literals +-2, fractional powers at depth 2, (p*x+q*y)^n for p,q +-5, n 2..5 (the result checked for full expansion), A^n*B(+z) with A,B of depth 1, chains of three operations, products of three sums, products and powers of sums of three, fractional and variable powers of products with factors that may be negative, (x+y)^n to n 12, sums to the power n/2, n/3, n/4 (n -3..9), products with the same factor more than once; thorough: n to 7 (16), chains of four",
     "larger exponents, deeper trees", [VALUE])
prop("C07", "Trigonometric rewriting preserves value",
     "Substituting, expanding, contracting and simplifying trigonometric functions never changes the value of an expression (for positive values of the variables) and never panics. Separating a product into its sine/cosine powers and the rest gives two factors whose product is the expression, the first factor list holding only positive integer powers of sines and cosines.",
     "all expressions within the bounds", T26 + "about ten identities are tested.",
     ["src/algos.rs"], [("expand_trig, contract_trig, simplify_trig, substitute_trig", "src/algos.rs"), ("separate_sin_cos", "src/algos.rs")],
     "all six functions of x, x+y, x-y, x+c, n*x, n*(x+y) (n -3..4); sin/cos powers -2..5 times/plus other terms; products of three factors; angles of three summands, multiples to 6, products of powers of sines and cosines of two angles, sines of sines; powers to 12 and multiples to +-12 alone; trees of depth 2 and 3, chains of three; thorough: powers to 7 (16), chains of four",
     "angles with fractional multiples, deeper trees", [VALUE])
prop("C08", "Exponential and logarithm rewriting preserves value",
     "Expanding exponentials and logarithms never changes the value of an expression (variables positive), and leaves logarithms in other bases with their value.",
     "all expressions within the bounds", T26 + "a few identities are tested.",
     ["src/algos.rs"], [("expand_exponential, expand_ln", "src/algos.rs"), ("Func::Log", "src/atom.rs")],
     "trees of depth 2 and 3 over + * powers exp ln with literals +-2; exp and ln of arguments of depth 2 and of sums and products of four operands; powers of pi, 2, z, 1/2, pi*e with sums and products as exponents; chains of three (thorough: four) operations",
     "logarithms of negative numbers", [VALUE])
prop("C09", "Numerator, denominator, rationalize and cancel preserve value",
     "For positive values of the variables, the numerator divided by the denominator of an expression is the expression, in the plain and the optional quotient form. Rationalizing and cancelling never change the value, and a rationalized sum of fractions is a single fraction.",
     "all expressions within the bounds", T26 + "four examples are tested.",
     ["src/atom.rs", "src/algos.rs"], [("numerator, denominator, try_as_div", "src/atom.rs"), ("rationalize, cancel", "src/algos.rs")],
     "trees of depth 2 (operands of depth 1) and 3 over + * / and integer powers with literals +-2; sums of two fractions with numerators z or 1..3 and denominators 1, x, y, x+y, x+1, literal sums included; sums of three fractions, fractions of fractions, powers of sums of fractions; chains of four operations; sums and products of four operands",
     "deeper trees", [VALUE])
prop("C10", "Factoring preserves value and finds common factors",
     "For positive values of the variables, factoring two terms gives a common factor and two quotients, and the factor times each quotient is the corresponding term; common powers of variables are all in the factor. Factoring out a whole expression never changes its value, and separating an expression with respect to a variable gives a part free of it whose product with the other part is the expression.",
     "all expressions within the bounds", T26 + "seven examples are tested.",
     ["src/algos.rs"], [("factorize_common_terms, common_factors, factor_out, separate_factors", "src/algos.rs")],
     "pairs of depth 1 and depth 2/1 with literals +-3; monomials c*x^i*y^j, c 1..12, i,j 0..2; expressions of depth 2 and 3, powers with variable exponents and functions to separate, sums of three monomials, products of four factors, chains of three (thorough: four) operations; thorough: c to 30",
     "separating with respect to a product or sum", [VALUE])
prop("C11", "The derivative is the derivative",
     "The derivative of an expression with respect to a variable equals its mathematical derivative wherever that is defined, for sums, products, quotients, powers (constant and variable exponents), logarithms in any base and all trigonometric and inverse trigonometric functions with the chain rule.",
     "all expressions within the bounds", T26 + "eleven derivatives are tested.",
     ["src/algos.rs", "src/atom.rs"], [("Expr::derivative", "src/algos.rs"), ("Func::derivative", "src/atom.rs")],
     "trees of depth 2 and 3 with literals +-3; every function of x, c*x, x^2, x*y, y, alone, times x, squared; logarithms in base e, 10, 2, 1/2, 5/3, pi, 3..9, alone, times x and inside a sine; functions of functions, products and quotients of two functions, powers of and with functions; products of powers with variable exponents; chains of three operations; sums and products of four operands",
     "derivatives with respect to something other than a variable", [VALUE])
prop("C12", "Polynomial views report degrees and coefficients correctly",
     "Seen as a polynomial in a set of (generalized) variables, an expression is recognised exactly if it is a sum of monomials in them; then its total degree, its degree in a variable, its coefficients (by monomial, by power of one variable, leading) are those of the polynomial. The coefficients are free of the variables, the coefficients times their monomials add up to the expression, and collecting terms keeps the value. The same holds for a single monomial.",
     "all polynomials within the bounds, with symbolic integer coefficients", T26 + "about ten polynomials are tested, none with cancelling or repeated monomials.",
     ["src/polynomial.rs"], [("PolynomialView", "src/polynomial.rs"), ("MonomialView", "src/polynomial.rs"), ("VarPow, VarSet, GPE", "src/polynomial.rs")],
     "polynomials of 2 and 3 terms c*g^i*h^j, i 0..3, j 0..2, c +-5, in two variables, with functions or arctan of a product as generalized variable, with parameters in the coefficients; monomials of three variables with powers 0..3, unsimplified ones included; powers 1..3 of such monomials; literal sums of three monomials that may coincide, in either order of their variables; degrees to 9 (thorough 12), variables inside each other's powers, non-polynomials of a dozen kinds (negative, fractional, irrational and variable exponents, functions); thorough: 3 terms, powers to 4",
     "more than two variables of the view; literal powers with exponent zero", [VALUE])
prop("C13", "Substitution, dependence and traversal see every subexpression",
     "Substituting replaces every occurrence of the given subexpressions and nothing else, simultaneously (the first match wins) or one pair after the other. An expression is free of another exactly if that occurs nowhere in it; the subexpression iterators visit every subexpression exactly once (or stop below where they are told to), the variables of a reduced expression occur in it, none is forgotten and it is a polynomial in them. Changing an expression never changes its copies, and no operation changes its operand.",
     "all expressions and all pairs to substitute within the bounds", T26 + "two tests touch variables, none substitution or traversal.",
     ["src/algos.rs", "src/atom.rs"], [("substitude, seq_substitude, concurr_substitude", "src/algos.rs"), ("for_each_compl_sub_expr, try_for_each_compl_sub_expr", "src/algos.rs"), ("free_of, free_of_set, iter_compl_sub_exprs, variables", "src/atom.rs")],
     "trees of depth 2 (literal and simplified) and 3 over + * powers sin with variables and literals +-2; replaced: variables, numbers, x*y, x+y, x^2; replacements: variables, numbers, x+1, y, undef; every function, logarithm and exponential of literal sums and products; variables of sums and products of four operands of eight kinds; two pairs at depth 2; literal lists of four with three pairs; chains of three (thorough: four) operations",
     "deeper trees; more than two pairs")
prop("C14", "Undefined values propagate and arise exactly where they should",
     "An expression with an undefined operand is undefined when built with an operator, reduced or transformed. Dividing by zero and raising zero to zero or a negative power are undefined however the zero came about. Sums, differences, products, quotients by non-zero numbers and powers of defined numbers are defined.",
     "all expressions and numbers within the bounds", T26 + "two tests mention undefined values.",
     ["src/algos.rs", "src/atom.rs"], [("Expr::add/mul/div/pow", "src/algos.rs"), ("Sum/Prod/Pow reduce", "src/atom.rs")],
     "operands of depth 2; literal trees of depth 2 with undefined leaves; zeros in five spellings, exponents -1..-50; numbers a/2, b/3 with a, b +-9, negative fractional exponents; fourteen transformations of undefined sums, products and powers; undefined operands four levels down or anywhere among five",
     "undefined factors of a literal (never simplified) product that also has a literal zero factor; functions of undefined arguments", [VALUE])
prop("C15", "Printed expressions read back to the same value",
     "The printed form of an expression, read with the usual rules (powers before products and quotients before sums, left to right, juxtaposition as product, f^n(x) as (f(x))^n), denotes the value of the expression: parentheses, signs, fractions, division bars and the names of functions, constants and logarithm bases are placed so that the text is unambiguous.",
     "all expressions within the bounds", T26 + "six printed strings are compared.",
     ["src/sym_fmt.rs", "src/atom.rs"], [("FmtAtom and its Display", "src/sym_fmt.rs"), ("Func::name", "src/atom.rs")],
     "trees of depth 2 (operands of depth 1) and 3 over + - * / powers functions with literals +-2 and fractions, literal and simplified; products of three factors of fourteen kinds; literal sums, differences, products and quotients nested two deep on both sides; every function and logarithms in eight bases of four arguments, alone, powered, multiplied; rationals n/d, n +-99, d 1..5 alone and as coefficient, summand, base and exponent; lists of four operands of seven kinds, chains of three (thorough: four) operations; thorough: literals +-4, d to 12",
     "variable names longer than a letter; debug output", [VALUE])
prop("C16", "Sorting operands gives one canonical order and changes nothing else",
     "Sorting the operands of an expression keeps the expression equal to what it was, sorting again changes nothing, and the sorted form does not depend on the order in which the operands of sums and products were written, at any depth.",
     "all expressions within the bounds", T26 + "one example is tested.",
     ["src/algos.rs", "src/atom.rs"], [("Expr::sort_args", "src/algos.rs"), ("Ord of Atom", "src/atom.rs")],
     "trees of depth 2 (operands of depth 1), literal and simplified, over + * integer powers sin with literals +-2, variables, pi; trees of depth 3 over + * powers of variables; sums and products inside every function, powers, exponents, in products and sums; lists of four operands of eight kinds and of five of three kinds (thorough: six), literal chains of three (thorough: five and four)",
     "deeper trees")
prop("C17", "Taking an expression apart tells the truth about it",
     "The rational coefficient of an expression times its remaining term, its base raised to its exponent, the two parts of a sum or product and its flattened form all have the value of the expression, and the remaining term holds no rational factor. The predicates (zero, one, sign, integer, even, odd, number, constant, irreducible, sine, cosine, trigonometric, exponential, natural logarithm), the integer and real value, function names and logarithm bases are reported exactly.",
     "all expressions within the bounds", T26 + "one test covers coefficients, none the predicates.",
     ["src/atom.rs"], [("rational_coeff, non_rational_term, base, exponent, flatten", "src/atom.rs"), ("as_binary_sum, as_binary_mul, Prod::term", "src/atom.rs"), ("Atom::is_*, Func::*", "src/atom.rs")],
     "trees of depth 2, literal and simplified, with literals +-3, fractions, pi; literal sums and products of zero to three operands; fractions n/d with n +-12, d 1..4, integers +-1000",
     "deeper trees", [VALUE])
prop("C18", "simplify lists equivalent forms, cheapest first",
     "Simplifying gives no forms for a number, constant, variable or undefined expression and at least one for any other; every form has the value of the expression, no form is listed twice, and they are sorted by size, smallest first.",
     "all expressions within the bounds", T26 + "none calls simplify.",
     ["src/algos.rs"], [("Expr::simplify, ExprCost", "src/algos.rs")],
     "trees of depth 2 (operands of depth 1) and 3 over + * / integer powers with literals +-2, functions and their sums and products at depth 2, sums of fractions; chains of three operations, sums and products of three operands",
     "integer powers of sums beyond 9 terms; sines of powers of sines (the forms grow without practical bound); which forms are found", [VALUE])
prop("C19", "The expr! macro reads the usual notation",
     "An expression written inside the expr! macro denotes what it denotes in the usual notation: powers bind stronger than products and quotients, these stronger than sums and differences, operators of one kind group from the left, parentheses override this, and a leading minus sign negates the whole power it stands before (-x^2 is -(x^2)). Numbers, variable names, pi, undef and function calls become the corresponding expression. Every such expression is accepted.",
     "all token sequences within the bounds", T26 + "they use about a hundred fixed macro calls, none with a sign before a power.",
     ["macros/src/lib.rs"], [("expr! parser: parse_operand, parse_unary_expr, parse_bin_expr", "macros/src/lib.rs"), ("gen_expr_stream", "macros/src/lib.rs"), ("Op::precedence", "macros/src/lib.rs")],
     "two operands of every kind with every sign and operator (numbers 0..12; next to one operator 0..200 and up to 2^63-1); three signed operands; three operands of eight kinds; five operands; parentheses around any run of four operands; every function of four kinds of argument as an operand; calls with two arguments; thorough: six operands, parentheses in five, more kinds",
     "towers of powers without parentheses (a^b^c); decimal fractions, oo, placeholders; the pattern rules of rubi", ["the macro crate is encoded as an ordinary library: its entry point is called with proc_macro2 token streams", "the code the macro emits is read by a parser in the harness; calls of the crate's constructors in it mean what C04 checks of them"])
prop("C20", "No operation panics, hangs or changes its operand",
     "Every transformation, decomposition and query of expressions gives an answer for every expression that can be built or written down - undefined, empty and one-element sums and products, zero and fractional powers, functions and logarithms of anything - without panicking or running for ever. The rational numbers in the answer are in lowest terms, it can be printed, and the operand is left as it was.",
     "all unusual operands within the bounds, for every public operation", T26 + "they call the operations with ordinary expressions.",
     ["src/algos.rs", "src/atom.rs", "src/polynomial.rs", "src/sym_fmt.rs"], [("every public transformation of Expr", "src/algos.rs"), ("decompositions and predicates", "src/atom.rs"), ("PolynomialView, MonomialView", "src/polynomial.rs"), ("Display, Debug", "src/sym_fmt.rs")],
     "24 groups of operations on: lists of up to two lists of up to two operands (numbers, x, undef, 1/x, fractions), empty ones included; powers of and with such lists; every function and logarithms in base 0, 1, -2, pi, 1/2; literal trees of depth 2 over + * / powers sin ln with numbers, x, undef; two such operands for the ten operations that take two; products and sums of two functions with literal powers (2, 1/2, y, -1); thorough: more kinds of operand",
     "numbers whose results overflow i128; simplify takes its numbers one by one, not symbolically; polynomial views with literal variables that are themselves numbers")
prop("C21", "Expressions survive serialization unchanged",
     "An expression that is serialized and read back - as a value or as text - is equal to the original, operand by operand and in the same order; that holds for numbers of every size, any name, every function, constants and undefined values.",
     "all expressions within the bounds", T26 + "none serializes anything.",
     ["src/atom.rs", "src/rational.rs"], [("Serialize/Deserialize of Expr, Atom, Func, Real", "src/atom.rs"), ("Serialize/Deserialize of Rational", "src/rational.rs")],
     "simplified and literal trees of depth 2 over + * powers functions with literals +-2, fractions, pi, e, undef; lists of up to three operands; every function and several logarithm bases; twelve names (empty, quoted, like functions); fractions with numerators to +-2^40 (thorough 2^62); as text: trees of depth 2, fractions, the greatest and least integers",
     "formats other than serde_json")
