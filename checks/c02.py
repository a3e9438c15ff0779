"""C02: interval predicates agree with the denoted set.  Rank domain; integrality in a second domain."""
import c06, iv
from iv import STRICT, WEAK, INFTY
from interp import Cell
from dom import Sym, ZERO
from lin import LinWorld
from session import Session, pmap, weak_orders


def run(chk):
    chk.rule("predicate(interval) equals the truth computed from the denoted set of elementary segments, for every order "
             "type of the bounds, 0, 1 and the queried number, and every bound kind")
    chk.assume("exact rational bounds; predicates touch numbers only through comparisons; containing an integer is decided for bounds that are an integer "
               "or lie between two integers, with integer parts at most three apart")
    sess = Session("interval.cpp")
    SIGN = sess.prog.enum_by_name["carl::Sign"]

    def truth(q, s, m, line):
        pos = line.above(line.seg(line.order["#0"]))
        neg = line.below(line.seg(line.order["#0"]))
        zero = 1 << line.seg(line.order["#0"])
        lt, ut = s if s != iv.EMPTY else (STRICT, STRICT)
        point = m != 0 and lt == WEAK and ut == WEAK and line.order["al"] == line.order["au"]
        if q == "isInfinite": return m == line.full and lt == INFTY and ut == INFTY
        if q == "isUnbounded": return lt == INFTY or ut == INFTY
        if q == "isHalfBounded": return (lt == INFTY) != (ut == INFTY)
        if q == "isEmpty": return m == 0
        if q == "isPointInterval": return point
        if q == "isOpenInterval": return lt == STRICT and ut == STRICT
        if q == "isClosedInterval": return lt == WEAK and ut == WEAK
        if q in ("isZero", "isZeroF"): return m == zero
        if q in ("isOne", "isOneF"): return m == 1 << line.seg(line.order["#1"])
        if q == "isPositive": return m & ~pos == 0
        if q == "isNegative": return m & ~neg == 0
        if q == "isSemiPositive": return m & ~(pos | zero) == 0
        if q == "isSemiNegative": return m & ~(neg | zero) == 0

    preds = ["isInfinite", "isUnbounded", "isHalfBounded", "isEmpty", "isPointInterval", "isOpenInterval", "isClosedInterval",
             "isZero", "isOne", "isZeroF", "isOneF", "isPositive", "isNegative", "isSemiPositive", "isSemiNegative"]

    def w_pred(item):
        q, specs, order = item
        line = iv.Line(order)
        s = specs[0]
        exp = truth(q, s, iv.spec_mask(s, "a", line), line)

        def body():
            r = sess.I.call_root("q_" + q, Cell(iv.make(sess, s, "a")))
            return bool(r) == bool(exp), "%s, expected %s" % (bool(r), bool(exp))
        yield from iv.decide(sess, lambda: line.world(sess), "q_" + q, body, "%s(%s) with %s" % (q, iv.show_spec(s, "a"), iv.show_order(order)),
                             "predicate agrees with the denoted set")

    def w_sgn(item):
        specs, order = item
        line = iv.Line(order)
        s = specs[0]
        if s == iv.EMPTY:
            return
        m = iv.spec_mask(s, "a", line)
        z = line.seg(order["#0"])
        exp = "POSITIVE" if m & ~line.above(z) == 0 else "NEGATIVE" if m & ~line.below(z) == 0 else "ZERO"

        def body():
            r = sess.I.call_root("q_sgn", Cell(iv.make(sess, s, "a")))
            return r == SIGN[exp], "%s, expected %s" % (r, exp)
        yield from iv.decide(sess, lambda: line.world(sess), "q_sgn", body, "sgn(%s) with %s" % (iv.show_spec(s, "a"), iv.show_order(order)),
                             "sign agrees with the denoted set")

    def w_num(item):
        q, specs, order = item
        line = iv.Line(order)
        s = specs[0]
        m = iv.spec_mask(s, "a", line)
        n = line.seg(order["n"])
        if q == "containsN":
            exp = bool(m >> n & 1)
        else:
            # meets: n lies in the closure
            if s == iv.EMPTY:
                return
            lt, ut = s
            lo = line.seg(order["al"]) if lt != INFTY else 0
            hi = line.seg(order["au"]) if ut != INFTY else 0
            exp = bool(line.range(lo, WEAK if lt != INFTY else INFTY, hi, WEAK if ut != INFTY else INFTY) >> n & 1)

        def body():
            r = sess.I.call_root("q_" + q, Cell(iv.make(sess, s, "a")), Sym.atom("n"))
            return bool(r) == exp, "%s, expected %s" % (bool(r), exp)
        yield from iv.decide(sess, lambda: line.world(sess), "q_" + q, body, "%s(%s, n) with %s" % (q, iv.show_spec(s, "a"), iv.show_order(order)),
                             "membership agrees with the denoted set")

    def w_sub(item):
        specs, order = item
        line = iv.Line(order)
        a, b = [iv.spec_mask(s, p, line) for s, p in zip(specs, "ab")]
        exp = b & ~a == 0

        def body():
            r = sess.I.call_root("q_containsI", Cell(iv.make(sess, specs[0], "a")), Cell(iv.make(sess, specs[1], "b")))
            return bool(r) == exp, "%s, expected %s" % (bool(r), exp)
        yield from iv.decide(sess, lambda: line.world(sess), "q_containsI", body,
                             "contains(%s; %s) with %s" % (iv.show_spec(specs[0], "a"), iv.show_spec(specs[1], "b"), iv.show_order(order)),
                             "containment agrees with the denoted sets")

    def w_int(item):
        def body():
            s = c06.Set(sess, item)
            dom = sess.dom
            if item[0] == INFTY or item[1] == INFTY:
                exp = True
            else:
                c = dom.ceil(s.lo)
                exp = s.has(c) or s.has(dom.add(c, 1))
            r = sess.I.call_root("q_containsInteger", Cell(s.iv))
            return bool(r) == exp, "%s, expected %s" % (bool(r), exp)
        yield from iv.decide(sess, lambda: LinWorld(sess.paths, {"n": (None, None)}, ("f", "g")), "q_containsInteger", body,
                             "containsInteger(%s)" % c06.show(item), "an integer lies in the denoted set")

    pmap(chk, sess, c06.classes(3), w_int)
    pmap(chk, sess, [(q, s, o) for q in preds for s, o in iv.classes(("a",), consts=("#0", "#1"))], w_pred)
    pmap(chk, sess, iv.classes(("a",)), w_sgn)
    pmap(chk, sess, [(q, s, o) for q in ("containsN", "meets") for s, o in iv.classes(("a",), ("n",))], w_num)
    pmap(chk, sess, iv.classes(("a", "b")), w_sub)
    for q in preds: chk.require("obligations " + q, 50)
    chk.require("obligations containsN", 100)
    chk.require("obligations containsI", 3000)
    chk.require("obligations containsInteger", 60)
