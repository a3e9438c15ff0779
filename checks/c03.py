"""C03: interval set operations are exact.  Rank domain: every order type of the bounds and 0."""
import iv
from interp import Cell
from session import Session, pmap

BIN = ["intersection", "union", "difference", "symdiff", "have", "subset", "psubset"]


def run(chk):
    chk.rule("for every order type of the bounds (and 0) and every bound kind, the set denoted by the result of the "
             "interpreted operation equals the set-theoretic result on elementary segments")
    chk.assume("bound values are exact rationals; the operations touch them only through comparisons and copies "
               "(any other use is reported as an analysis error)")
    sess = Session("interval.cpp")

    def want(op, a, b, line):
        if op == "intersection": return a & b
        if op == "union": return a | b
        if op == "difference": return a & ~b
        if op == "symdiff": return a ^ b
        if op == "complement": return line.full & ~a
        if op == "have": return (a & b) != 0
        if op == "subset": return (a & ~b) == 0
        if op == "psubset": return (a & ~b) == 0 and a != b

    def worker(item):
        specs, order, op = item
        line = iv.Line(order)
        un = op == "complement"
        names = ("a",) if un else ("a", "b")
        masks = [iv.spec_mask(s, p, line) for s, p in zip(specs, names)]
        exp = want(op, masks[0], masks[1] if not un else 0, line)
        flag = op in ("union", "difference", "symdiff", "complement")

        def body():
            args = [Cell(iv.make(sess, s, p)) for s, p in zip(specs, names)]
            if flag:
                x, y = Cell(sess.I.call_root("q_mkdef")), Cell(sess.I.call_root("q_mkdef"))
                r = sess.I.call_root("q_" + op, *args, x, y)
                mx, ex = iv.denote(sess, line, x.v)
                my, ey = iv.denote(sess, line, y.v)
                got = mx | my if r else mx
                good = (ex or (ey and my == line.full)) and (not r or ey or mx == line.full) and got == exp
                return good, "%s, %s / %s" % (r, iv.show_iv(sess, x.v), iv.show_iv(sess, y.v))
            r = sess.I.call_root("q_" + op, *args)
            if op == "intersection":
                m, e = iv.denote(sess, line, r)
                return e and m == exp, iv.show_iv(sess, r)
            return bool(r) == exp, str(bool(r))
        desc = "%s(%s) with %s" % (op, "; ".join(iv.show_spec(s, p) for s, p in zip(specs, names)), iv.show_order(order))
        for o in sess.explore(lambda: line.world(sess), body):
            yield ("count", "obligations " + op, 1)
            if o.kind != "ok" or not o.v[0]:
                yield ("violation", dict(rule="exact set result", where=sess.target("q_" + op), instance=desc,
                       detail="result %s; path %s" % (o.v[1] if o.kind == "ok" else o.kind + " " + str(o.msg),
                                                      " -> ".join(sess.trace(body, lambda: line.world(sess))))))
    items = [(s, o, op) for s, o in iv.classes(("a", "b")) for op in BIN]
    items += [(s, o, "complement") for s, o in iv.classes(("a",))]
    pmap(chk, sess, items, worker)
    for op in BIN:
        chk.require("obligations " + op, 3000)
    chk.require("obligations complement", 20)
