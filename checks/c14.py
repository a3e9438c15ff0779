"""C14: univariate polynomials never carry a zero leading coefficient."""
import up
from interp import Unsupported
from session import pmap


def run(chk):
    chk.rule("started from a polynomial without coefficients or with a non-zero leading coefficient, every public constructor and operation ends "
             "with its operands and its result in such a state; coefficients are opaque rationals (integers), and the state splits where the "
             "code distinguishes zero from non-zero values")
    chk.rule("degree, leading and trailing coefficient, and the zero and one tests agree with the coefficient list")
    chk.assume("polynomials with up to five coefficients (second operand: four); quotients and remainders of integers are opaque values")
    sess = up.setup()
    env, ops = up.Env(sess), up.ops()
    view = {"q_degree", "q_tdegree", "q_lcoeff", "q_tcoeff", "q_iszero", "q_isone", "q_zeroroot"}

    def work(j):
        evs = []

        def report(out, name, q, n, m):
            evs.append(("count", "obligations", 1))
            why = None
            if out.kind != "ok":
                why = "%s: %s" % (out.kind, out.msg)
            elif not out.v[0]:
                why = "zero leading coefficient in %r" % (out.v[2],)
            elif q in view and not out.v[1]:
                why = "answers %r" % (out.v[2],)
            if why:
                evs.append(("violation", dict(rule="leading coefficient", where=sess.target(q),
                                              instance="%s, operands with %d and %d coefficients" % (name, n, m), detail=why)))
        o = ops[j[0]]
        try:
            up.run_op(env, o, j[1], j[2], report)
        except Unsupported as e:
            evs.append(("error", "%s (%d, %d): %s" % (o[1], j[1], j[2], e)))
        yield from evs
    pmap(chk, sess, up.jobs(), work, item_s=20)
    chk.require("obligations", 500)
    chk.count("operations", len({o[1] for o in ops}))
