"""C13: multivariate polynomials keep their term representation invariant."""
import mp


def run(chk):
    chk.rule("from operands that satisfy the invariant (any admissible storage order, flag set or not) every operation leaves its results and operands "
             "with different monomials, non-zero coefficients, the constant term first, the leading term last, and the ordered flag only on sorted terms; "
             "no assertion of the code fails")
    chk.assume("two variables (views: three), operands of up to three terms of degree at most two, opaque coefficients; default ordering and policies")
    ops = [o for o in mp.ring_ops() if o.res in "PAZ" or o.res in "NMX" and o.args[0][0] == "p"]
    mp.drive(chk, ops, "representation", lambda v: v.inv)
    chk.require("obligations", 20000)
