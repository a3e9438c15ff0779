"""C10: comparisons across polynomial operand types are coherent."""
import mp


def run(chk):
    chk.rule("each of the six comparison operators on each pair of operand types answers as the documented order of the operands' terms: "
             "descending terms, compared by total degree, then exponents, then coefficients; a coefficient is a constant term, zero is the constant 0")
    chk.assume("two variables (monomials: three), polynomials of up to three terms of degree at most two in every admissible storage order, "
               "opaque coefficients with state splitting on their order; default ordering and policies")
    mp.drive(chk, mp.comparison_ops(), "comparison", lambda v: v.inv or (None if v.ok else "answer %s" % (v.got,)))
    chk.require("obligations", 10000)
