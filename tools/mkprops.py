#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this after editing an entry)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Constructing an interval denotes exactly the described set",
 "An interval built from two bound values and two bound kinds (strict, weak, infinite) denotes exactly the set of numbers those bounds describe. Contradictory bounds give the canonical empty interval, infinite bounds give the canonical unbounded ends, and the accessors, setters and static creators report or install exactly the requested bounds.",
 ["inputs"], "all bound values (every order type of the values relative to each other and to 0) and all bound kind combinations, for exact rationals",
 "The tests construct a few dozen concrete intervals; the normalisation rules have to be right for every combination of order, equality and bound kind.",
 ["src/carl/interval/Interval.h"],
 [("bound normalisation in the constructors", "src/carl/interval/Interval.h constructors, BOUNDS_OK / IS_EMPTY / IS_UNBOUNDED macros")],
 [("mContent", "closed hull of the interval", "Interval.h"), ("mLowerBoundType/mUpperBoundType", "bound kinds", "Interval.h")])

prop("C02", "Interval predicates agree with the denoted set",
 "Every yes/no or sign question asked of an interval (emptiness, point, unbounded, half-bounded, open, closed, zero, one, positive, negative, semi-positive, semi-negative, containing a number, meeting a number, containing an integer, sign) is answered exactly as the set of numbers the interval denotes dictates.",
 ["inputs"], "all intervals over exact rationals (all order types of bounds, 0 and the queried number, all bound kinds)",
 "Predicates have dozens of boundary combinations; the existing tests exercise one or two per predicate.",
 ["src/carl/interval/Interval.h", "src/carl/interval/Interval.tpp"],
 [("predicate members", "src/carl/interval/Interval.h isX()/contains()/meets()"), ("containsInteger / sgn", "src/carl/interval/Interval.tpp")])

prop("C03", "Interval set operations compute the exact sets",
 "Intersection, complement, difference, union and symmetric difference of intervals return their result exactly: if the returned flag is false the first piece alone is the mathematical result, if it is true the union of both pieces is. Subset, proper-subset and have-intersection tests answer exactly as the denoted sets dictate.",
 ["inputs"], "all pairs of intervals over exact rationals (all order types of the up to four bounds, all bound kinds, empty and unbounded included)",
 "There are thousands of order/bound-kind classes per operation; tests visit a handful.",
 ["src/carl/interval/set_theory.h", "src/carl/interval/operators.h"],
 [("set operations by bound comparison", "src/carl/interval/set_theory.h"), ("LowerBound/UpperBound comparisons", "src/carl/interval/operators.h")])

prop("C04", "Interval and bound comparison operators are sound and coherent",
 "Equality of intervals coincides with equality of the denoted sets; comparisons between lower and upper bounds agree with the order of the bounds as sets; the ordering comparisons between intervals (and between an interval and a number) hold only if they hold for the denoted values as documented. The derived operators are the documented complements and mirror images of the basic ones.",
 ["inputs"], "all pairs of non-empty intervals over exact rationals, all pairs of bounds",
 "Tests compare a few bound pairs per operator; strict/weak/infinite coincidences at equal values are only sampled.",
 ["src/carl/interval/operators.h", "src/carl/interval/Interval.h"],
 [("comparison operators", "src/carl/interval/operators.h")])

prop("C05", "Interval arithmetic encloses every pointwise result",
 "For exact rationals, interval negation, addition, subtraction, multiplication, division by an interval without zero, addition, subtraction, multiplication and division with a number, absolute value, power with a non-negative exponent, extended division and convex hull yield an interval (or pair of intervals) containing the result for every choice of points from the operands. The parts of a split interval together cover it.",
 ["inputs"], "all operand intervals (every sign class, bound kind, unbounded, empty, point) and all points in them",
 "Soundness quantifies over all points of all intervals; tests compare a few closed examples and seldom open or half-bounded ones.",
 ["src/carl/interval/Interval.tpp", "src/carl/interval/Interval.h", "src/carl/interval/power.h"],
 [("bound kind bookkeeping around the closed hull computation", "src/carl/interval/Interval.tpp add/mul/div_ext/abs/convexHull"), ("power", "src/carl/interval/power.h")])

prop("C06", "Sampling an interval returns a point of the interval",
 "Each sampling and centre function called on a non-empty interval returns a number that lies in the interval; when bounds are to be excluded and the interior is non-empty the number lies in the interior; the variants that promise an integer or zero when available deliver it.",
 ["inputs"], "all non-empty intervals over exact rationals, both settings of the include-bounds flag",
 "Which branch is taken depends on where integers and zero fall relative to open or infinite bounds; tests use fixed intervals.",
 ["src/carl/interval/sampling.h"],
 [("case analysis on bounds and integrality", "src/carl/interval/sampling.h")])

prop("C07", "Relation, sign and bound-kind tables are coherent",
 "For every relation and every sign, negating a relation flips the truth of the comparison, mirroring it swaps the operands, the strict/weak classification matches the truth table, and evaluating a relation on a sign or on two values gives the mathematical truth value. Sign variations of a sequence are the changes between consecutive non-zero signs, also for empty and all-zero sequences. The bound-kind combination helpers and bit-vector relation helpers obey the corresponding tables.",
 ["inputs"], "all relations x all signs / orderings of two values; all bound kinds; all bit-vector comparison relations",
 "Complete agreement of several independently written tables is never enumerated by the tests, and callers mix them freely.",
 ["src/carl/core/Relation.h", "src/carl/core/Sign.h", "src/carl/interval/BoundType.h", "src/carl/formula/bitvector/BVCompareRelation.h"],
 [("table functions", "src/carl/core/Relation.h, src/carl/interval/BoundType.h, src/carl/formula/bitvector/BVCompareRelation.h")])

prop("C08", "Normalising a constraint preserves its solutions",
 "Building a constraint from a variable, relation and bound, or from a polynomial and relation, yields a constraint satisfied by exactly the same values, including the tightening used for integer variables. A constraint is reported valid or inconsistent at construction only if it is true respectively false for every assignment permitted by the variable types and definiteness.",
 ["inputs"], "all relations, variable types, bound values (by integrality and sign) and definiteness classes",
 "Integer tightening depends on floor/ceiling, relation and denominator combinations which the tests sample.",
 ["src/carl/formula/ConstraintRaw.h", "src/carl/core/SimpleConstraint.h"],
 [("normalisation and consistency tables", "src/carl/formula/ConstraintRaw.h")])

prop("C09", "Deciding a constraint over an interval box is sound",
 "When a constraint is evaluated with an interval enclosing the value of its left-hand side, the answer 'consistent' (resp. 'inconsistent') is given only if the relation holds (resp. fails) for every number in that enclosure, and the undecided answer is given otherwise; the variant reporting stricter relations is sound in the same sense.",
 ["inputs"], "all relations x all evaluation intervals (every order type against 0 and bound kind)",
 "The verdict table has every relation times every position of the interval around zero; a wrong strictness only shows on boundary-touching enclosures.",
 ["src/carl/formula/Constraint.tpp"],
 [("verdict tables", "src/carl/formula/Constraint.tpp consistentWith")])

prop("C10", "Comparisons across polynomial operand types are coherent",
 "For variables, monomials, terms, coefficients and multivariate polynomials, equality and ordering between operands of any two of these types give the same verdict as comparing both operands converted to the larger type, and the six operators satisfy the documented derivation rules. In particular no comparison of an object with an equal object of another type yields less or greater.",
 ["inputs"], "all operand type pairs, all kinds of values (zero, constant, single variable, single monomial, general)",
 "Each operator exists in over twenty hand-written overloads; tests use a single ordered list of objects.",
 ["src/carl/core/Monomial.h", "src/carl/core/Term.h", "src/carl/core/MultivariatePolynomial_operators.h", "src/carl/core/Variable.h"],
 [("operator overload families", "src/carl/core/*_operators.h, Monomial.h, Term.h")])

prop("C11", "Monomial orderings are total orders compatible with multiplication",
 "Each monomial ordering is antisymmetric, reports equal exactly for identical monomials, ranks by total degree first when graded, and otherwise ranks by the exponent of the first differing variable, consistently between all its entry points (monomial, term, variable operands).",
 ["inputs"], "all pairs of monomials of any length",
 "The comparators walk two exponent lists in lockstep; correctness for lists of arbitrary length and all tail situations is beyond examples.",
 ["src/carl/core/MonomialOrdering.h", "src/carl/core/Monomial.h", "src/carl/core/Monomial.cpp"],
 [("lexicalCompare lockstep loop and wrappers", "src/carl/core/Monomial.h, MonomialOrdering.h")])

prop("C12", "Equal objects have equal hashes",
 "For every hashable type of the library, two objects that compare equal produce the same hash value, so hash containers and the interning pools never hold two equal elements.",
 ["inputs"], "all pairs of equal objects of each hashable type",
 "Tests hash a few objects; the guarantee is about every pair of equal but differently produced objects.",
 ["src/carl/util/hash.h", "src/carl/core", "src/carl/formula", "src/carl/interval/Interval.h", "src/carl/util/Bitset.h"],
 [("std::hash specialisations and operator==", "next to each type")])

prop("C13", "Multivariate polynomials keep their term representation invariant",
 "Every public operation leaves a multivariate polynomial with pairwise different monomials, no zero coefficients, the leading term and constant term where the accessors expect them, and an is-ordered flag that is only set when the terms are sorted.",
 ["inputs", "histories"], "all sequences of public operations on polynomials",
 "A stale flag or misplaced leading term only shows when a later operation relies on it.",
 ["src/carl/core/MultivariatePolynomial.tpp", "src/carl/core/MultivariatePolynomial.h"],
 [("makeMinimallyOrdered/makeOrdered and flag updates", "src/carl/core/MultivariatePolynomial.tpp")],
 [("mOrdered", "terms are fully sorted", "MultivariatePolynomial.h"), ("mTerms", "term list", "MultivariatePolynomial.h")])

prop("C14", "Univariate polynomials never carry a zero leading coefficient",
 "After every public constructor and operation a univariate polynomial stores either no coefficients (zero) or a non-zero leading coefficient, so degree, leading coefficient and the zero test are always right.",
 ["inputs", "histories"], "all operations and operand values, including cancellations and zero arguments",
 "Cancellation of leading terms must be followed by stripping on every path of every mutating operation.",
 ["src/carl/core/UnivariatePolynomial.h", "src/carl/core/UnivariatePolynomial.tpp"],
 [("stripLeadingZeroes", "src/carl/core/UnivariatePolynomial.h")])

prop("C15", "Polynomial arithmetic computes ring operations",
 "Addition, subtraction, multiplication, negation, powers, substitution, evaluation and derivation of terms, univariate and multivariate polynomials yield the polynomial that the ring operations define.",
 ["inputs"], "all polynomials over exact coefficients",
 "Ring laws quantify over polynomials of unbounded size.",
 ["src/carl/core/MultivariatePolynomial.tpp", "src/carl/core/UnivariatePolynomial.tpp", "src/carl/util/TermAdditionManager.h"],
 [("term addition manager and coefficient loops", "src/carl/util/TermAdditionManager.h")])

prop("C16", "Interned objects are unique and never lost",
 "Creating the same monomial, constraint, bit-vector term or constraint, sort, or uninterpreted function or instance twice yields the same interned object and id, creating different ones yields different ids, and an entry disappears from its pool only when the last reference is gone.",
 ["inputs", "histories"], "all creation and release histories",
 "Depends on the history of the pools; tests create each object once or twice.",
 ["src/carl/core/MonomialPool.cpp", "src/carl/formula/ConstraintPool.tpp", "src/carl/formula/bitvector/Pool.h", "src/carl/formula/SortManager.cpp", "src/carl/formula/uninterpreted"],
 [("find-before-insert protocol", "pools and managers")])

prop("C17", "In the thread-safe build all shared pool state is lock-protected",
 "When the library is configured thread-safe, every access to the mutable state of the process-wide pools and id generators (variable pool, monomial pool, bit-vector pools, constraint pool, id pool, id generator, term addition manager) happens while the pool's lock is held; only the configured name prefix of the variable pool is exempt. No public operation can deadlock by acquiring a held non-recursive lock again or by acquiring two of these locks in opposite orders.",
 ["schedules"], "all interleavings of public pool operations in all threads",
 "Races need particular schedules, and the tests run single-threaded with the option off.",
 ["src/carl/core/MonomialPool.h", "src/carl/core/MonomialPool.cpp", "src/carl/core/VariablePool.h", "src/carl/core/VariablePool.cpp", "src/carl/util/IDPool.h", "src/carl/util/IDGenerator.h", "src/carl/formula/ConstraintPool.h", "src/carl/formula/bitvector/Pool.h", "src/carl/util/TermAdditionManager.h"],
 [("lock guard macros", "MONOMIAL_POOL_LOCK_GUARD etc.")])

prop("C18", "Rational root approximations bracket the exact root",
 "The exact, safe and fast rational square root and n-th root functions return exact roots only when they are exact and otherwise enclosing pairs whose lower value does not exceed and whose upper value is not below the true root.",
 ["inputs"], "all non-negative rationals",
 "Rounding direction of truncated integer roots matters for almost all inputs but tests check perfect squares and loose bounds.",
 ["src/carl/numbers/adaption_gmpxx/operations.cpp", "src/carl/numbers/adaption_gmpxx/operations.h"],
 [("sqrt_exact/sqrt_safe/root_safe/sqrt_fast", "src/carl/numbers/adaption_gmpxx/operations.cpp")])

prop("C19", "Number operations keep their rounding and division conventions",
 "For every number type, floor, ceil and round return the mathematically defined neighbouring integers; the quotient and remainder family satisfies dividend = divisor*quotient + remainder with the documented sign convention; numerator and denominator reproduce the number; and sign, zero, one and integrality tests are exact.",
 ["inputs"], "all operands, all sign combinations",
 "Sign combinations and exactness at integers differ between back-end calls (truncating vs flooring); tests use positive values mostly.",
 ["src/carl/numbers/adaption_gmpxx/operations.h", "src/carl/numbers/adaption_native/operations.h", "src/carl/numbers/operations_generic.h"],
 [("thin wrappers over back-end rounding functions", "numbers/adaption_*/operations.h")])

prop("C20", "Bit-vector values compute SMT-LIB operations",
 "Arithmetic, signed and unsigned division, remainder and modulo, shifts, rotations, extension, extraction, concatenation and bitwise operations on bit-vector values return the value SMT-LIB prescribes, of the prescribed width.",
 ["inputs"], "all widths and values, all sign combinations of the signed operations",
 "Signed division variants differ only in one of four sign combinations; widths are unbounded.",
 ["src/carl/formula/bitvector/BVValue.h", "src/carl/formula/bitvector/BVValue.cpp"],
 [("BVValue operations", "src/carl/formula/bitvector/BVValue.{h,cpp}")])

prop("C21", "Bit-vector term construction and folding preserve meaning",
 "Constructing a bit-vector term or constraint over constants folds it to the value its operator denotes under SMT-LIB, including division by zero; non-constant terms keep operator and operands and report the width of their sort. Every operator is classified as exactly one of constant/variable, unary, binary or extraction, consistently everywhere.",
 ["inputs"], "all operators and operand values and widths",
 "Each operator has its own folding branch; a swapped branch is invisible unless that operator is tested with telling values.",
 ["src/carl/formula/bitvector/BVTermPool.cpp", "src/carl/formula/bitvector/BVTermContent.h", "src/carl/formula/bitvector/BVTermType.h", "src/carl/formula/bitvector/BVConstraintPool.cpp"],
 [("folding switches", "BVTermPool.cpp, BVConstraintPool.cpp"), ("classification helpers", "BVTermType.h")])

prop("C22", "A bitset behaves as an infinite bit vector with a default",
 "A bitset denotes an infinite sequence of bits whose unset positions have the default value; setting, resetting, testing, growing, bitwise operations, subset test and equality act pointwise on that sequence independently of the amount of storage currently allocated, and the order on bitsets is consistent with that equality.",
 ["inputs", "histories"], "all bitsets, all positions, all storage sizes",
 "Behaviour differs depending on whether a position lies inside the current storage; tests rarely mix sizes and defaults.",
 ["src/carl/util/Bitset.h"],
 [("ensureSize/alignSize", "src/carl/util/Bitset.h")])

prop("C23", "Every set-cover heuristic returns a cover",
 "On every coverable instance each heuristic returns a set of input sets whose union, together with preceding selections, is everything that was to be covered; the exact one's has minimum size. The preprocessing steps select only sets that are in every cover, and leave an instance whose covers are exactly those completing their selection.",
 ["inputs"], "all finite instances",
 "Instances are unbounded; tests run a few hand-made ones.",
 ["src/carl-covering/SetCover.cpp", "src/carl-covering/heuristics", "src/carl-covering/SetCover.h"],
 [("selection bookkeeping", "src/carl-covering/SetCover.cpp")])

prop("C24", "Log messages are delivered exactly per the configured filter",
 "A message on a channel reaches a sink exactly if its level is at or above the level configured for the longest configured prefix of the channel, and visibility queries agree with delivery.",
 ["inputs", "configurations"], "all channel names and filter configurations",
 "Prefix resolution depends on arbitrary configurations.",
 ["src/carl-logging/Filter.h", "src/carl-logging/Logger.h"],
 [("Filter::check", "src/carl-logging/Filter.h")])

prop("C25", "Settings quantities parse and print with exact unit factors",
 "Durations, binary and metric quantities accept exactly a number followed by a documented unit suffix (binary quantities also the suffix without its i), and scale the number by exactly that unit's factor; a product outside the range is rejected. They are printed with the largest unit not exceeding the value, as the value divided by the unit's factor, so parsing the printed text gives the value rounded down to that unit. The accessors of the units and the conversions of durations divide by the unit's factor.",
 ["inputs"], "all suffixes and magnitudes",
 "Each unit is a separate table row.",
 ["src/carl-settings/settings_utils.h", "src/carl-settings/settings_utils.cpp"],
 [("unit tables", "src/carl-settings/settings_utils.cpp")])

prop("C26", "Finite-field arithmetic is arithmetic modulo the field size",
 "Every arithmetic operation on finite-field numbers (including in-place, increment, negation and mixed integer operands) yields a number congruent to the integer operation modulo the field size and belonging to the operands' field, and equality holds exactly for congruent numbers of the same field.",
 ["inputs"], "all field sizes and operand values, with and without attached field",
 "In-place and mixed variants are separate code; congruence must hold for all representatives.",
 ["src/carl/numbers/GFNumber.h", "src/carl/numbers/GFNumber.tpp", "src/carl/numbers/GaloisField.h"],
 [("operators", "src/carl/numbers/GFNumber.tpp"), ("symmetric modulo", "src/carl/numbers/GaloisField.h")])

prop("C27", "Id generators never hand out an id that is in use",
 "For every history of acquiring and freeing ids, an acquired id is different from all ids currently in use, and the reported next/largest id bounds all ids in use.",
 ["histories"], "all histories of get/free/clear",
 "Only particular orders of frees exercise the compaction of the free list.",
 ["src/carl/util/IDGenerator.h", "src/carl/util/IDPool.h"],
 [("free list and high-water mark", "src/carl/util/IDGenerator.h, IDPool.h")])

prop("C28", "GCD, factorisation and square-free part are correct",
 "Greatest common divisors divide both arguments and are divisible by every common divisor, factorisations multiply back to the input, and square-free parts have the same roots.",
 ["inputs"], "all polynomials", "Unbounded algebraic input space.",
 ["src/carl/core/polynomialfunctions"], [("GCD/Factorization headers", "src/carl/core/polynomialfunctions")])
prop("C29", "Real root isolation finds every root exactly once",
 "Root isolation of a univariate polynomial returns pairwise disjoint enclosures, each containing exactly one real root, and together containing all roots in the requested interval.",
 ["inputs"], "all polynomials and intervals", "Unbounded algebraic input space.",
 ["src/carl/core/polynomialfunctions/RootCounting.h", "src/carl/ran"], [("Sturm sequences and bisection", "src/carl/ran")])
prop("C30", "Groebner basis computation returns a basis of the same ideal",
 "The computed basis generates the same ideal as the input and all S-polynomials reduce to zero.",
 ["inputs"], "all finite generating sets", "Unbounded algebraic input space.",
 ["src/carl/groebner"], [("Buchberger", "src/carl/groebner/gb-buchberger")])
prop("C31", "Resultants and subresultants agree with their determinants",
 "Resultants, discriminants and principal subresultant coefficients equal the corresponding Sylvester determinants up to documented normalisation, for every algorithm variant.",
 ["inputs"], "all pairs of polynomials", "Unbounded algebraic input space.",
 ["src/carl/core/polynomialfunctions/Resultant.h"], [("subresultant algorithms", "Resultant.h")])
prop("C32", "Formula simplification and normal forms preserve satisfaction",
 "Negation, CNF/NNF style transformations, substitution and simplification of formulas give formulas with the same models as defined by the logical operation.",
 ["inputs"], "all formulas and models", "Unbounded formula space; the code is not even compiled in this configuration.",
 ["src/carl/formula/Formula.tpp", "src/carl/formula/FormulaPool.tpp"], [("formula pool simplification", "src/carl/formula/FormulaPool.tpp")])
prop("C33", "Writing and parsing numbers and polynomials round-trips",
 "Printing a number, term or polynomial and parsing the text back yields an equal object, and malformed text is rejected without effect.",
 ["inputs"], "all values, all texts", "Unbounded text space.",
 ["src/carl/numbers/parser", "src/carl/util/parser", "src/carl/util/stringparser.h"], [("spirit grammars", "src/carl/numbers/parser")])
prop("C34", "Floating-point intervals are rounded outward",
 "Interval operations over floating-point numbers enclose the exact real result despite rounding.",
 ["inputs", "configurations"], "all floating point operands and rounding modes", "Rounding errors depend on concrete values.",
 ["src/carl/interval/rounding", "src/carl/numbers/adaption_float"], [("boost interval rounding policies", "src/carl/interval/rounding")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
