"""C15: polynomial arithmetic computes the ring operations."""
import up
import mp
from interp import Unsupported
from session import pmap


def run(chk):
    chk.rule("the result of every operation equals the polynomial the ring operations define, as an identity between polynomials in the opaque "
             "coefficients; the state splits where the code distinguishes zero from non-zero values")
    chk.rule("quotient and remainder satisfy p = q*d + r with r reduced by d")
    chk.assume("univariate: up to five coefficients (second operand: five), exponents up to 5")
    chk.assume("multivariate: two variables (monomials and views: three), operands of up to three terms of degree at most two in every admissible "
               "storage order, default ordering and policies")
    sess = up.setup()
    env, ops = up.Env(sess), up.ops()

    def work(j):
        evs = []

        def report(out, name, q, n, m):
            evs.append(("count", "obligations", 1))
            why = None
            if out.kind != "ok":
                why = "%s: %s" % (out.kind, out.msg)
            elif not out.v[1]:
                why = "result %r differs from the defined one" % (out.v[2],)
            if why:
                evs.append(("violation", dict(rule="ring operation", where=sess.target(q),
                                              instance="%s, operands with %d and %d coefficients" % (name, n, m), detail=why)))
        o = ops[j[0]]
        try:
            up.run_op(env, o, j[1], j[2], report)
        except Unsupported as e:
            evs.append(("error", "%s (%d, %d): %s" % (o[1], j[1], j[2], e)))
        yield from evs
    pmap(chk, sess, up.jobs(), work, item_s=20)
    chk.require("obligations", 500)
    chk.count("operations", len({o[1] for o in ops}))
    mp.drive(chk, mp.ring_ops(), "ring operation", lambda v: None if v.ok else "result %s differs from the defined one" % (v.got,))
    chk.require("obligations", 20000)
