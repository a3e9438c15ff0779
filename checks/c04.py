"""C04: comparison operators of intervals and bounds.  Rank domain."""
import iv
from iv import STRICT, WEAK, INFTY
from interp import Cell
from dom import Sym, ZERO
from session import Session, pmap, weak_orders


def run(chk):
    chk.rule("== coincides with equality of the denoted sets; < holds iff every left value is below every right value; <= iff "
             "none is above (at most the touching point is shared); derived operators are complements/mirrors")
    chk.rule("bound comparisons agree with inclusion of the half-lines they describe; UpperBound < LowerBound iff no value satisfies both")
    chk.assume("exact rational bounds, comparisons only; ordering operators are specified for non-empty intervals")
    sess = Session("interval.cpp")

    def hi(m): return m.bit_length() - 1
    def lo(m): return (m & -m).bit_length() - 1

    def all_lt(a, b):
        # every x in a, y in b: x < y   (segments that are gaps contain more than one value)
        return hi(a) < lo(b) or False

    def all_le(a, b):
        return hi(a) < lo(b) or (hi(a) == lo(b) and hi(a) % 2 == 1)

    INT = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
           "lt2": all_lt, "gt2": lambda a, b: all_lt(b, a), "le2": all_le, "ge2": lambda a, b: all_le(b, a)}
    # a non-closed end at the touching value still satisfies <=
    NUM = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": all_lt, "gt": lambda a, b: all_lt(b, a),
           "le": all_le, "ge": lambda a, b: all_le(b, a)}

    def w_int(item):
        q, specs, order = item
        line = iv.Line(order)
        a, b = [iv.spec_mask(s, p, line) for s, p in zip(specs, "ab")]
        if q not in ("eq", "ne") and (a == 0 or b == 0):
            return
        exp = INT[q](a, b)

        def body():
            r = sess.I.call_root("q_" + q, Cell(iv.make(sess, specs[0], "a")), Cell(iv.make(sess, specs[1], "b")))
            return bool(r) == exp, "%s, expected %s" % (bool(r), exp)
        yield from iv.decide(sess, lambda: line.world(sess), "q_" + q, body,
                             "(%s) %s (%s) with %s" % (iv.show_spec(specs[0], "a"), q[:2], iv.show_spec(specs[1], "b"), iv.show_order(order)),
                             "interval comparison agrees with the denoted sets")

    def w_num(item):
        q, left, specs, order = item
        line = iv.Line(order)
        a = iv.spec_mask(specs[0], "a", line)
        n = 1 << line.seg(order["n"])
        if q not in ("eq", "ne") and a == 0:
            return
        exp = NUM[q](n, a) if left else NUM[q](a, n)
        root = ("q_n" + q) if left else ("q_" + q + "n")

        def body():
            x, y = Cell(iv.make(sess, specs[0], "a")), Cell(Sym.atom("n"))
            r = sess.I.call_root(root, *((y, x) if left else (x, y)))
            return bool(r) == exp, "%s, expected %s" % (bool(r), exp)
        d = iv.show_spec(specs[0], "a")
        yield from iv.decide(sess, lambda: line.world(sess), root, body,
                             "%s %s %s with %s" % (("n", q, d, iv.show_order(order)) if left else (d, q, "n", iv.show_order(order))),
                             "interval/number comparison agrees with the denoted sets")

    def half(line, s, t, lower):
        return line.range(s, t, 0, INFTY) if lower else line.range(0, INFTY, s, t)

    def w_bound(item):
        q, l, u, order = item
        line = iv.Line(order)
        sa, sb = line.seg(order["a"]), line.seg(order["b"])
        if q in ("ll_lt", "ll_le"):
            x, y = half(line, sa, l, True), half(line, sb, u, True)
            exp = (y & ~x == 0 and x != y) if q == "ll_lt" else y & ~x == 0
        elif q in ("uu_lt", "uu_le"):
            x, y = half(line, sa, l, False), half(line, sb, u, False)
            exp = (x & ~y == 0 and x != y) if q == "uu_lt" else x & ~y == 0
        elif q == "ul_lt":
            exp = half(line, sa, l, False) & half(line, sb, u, True) == 0
        elif q == "lu_le":
            exp = half(line, sb, u, False) & half(line, sa, l, True) != 0
        else:
            x, y = half(line, sa, l, False), half(line, sb, u, True)
            exp = x & y == 0 and x | y == line.full

        def body():
            r = sess.I.call_root("q_" + q, Sym.atom("a"), l, Sym.atom("b"), u)
            return bool(r) == exp, "%s, expected %s" % (bool(r), exp)
        yield from iv.decide(sess, lambda: line.world(sess), "q_" + q, body,
                             "%s(a %s, b %s) with %s" % (q, iv.BTN[l], iv.BTN[u], iv.show_order(order)), "bound comparison agrees with the half-lines")

    pmap(chk, sess, [(q, s, o) for s, o in iv.classes(("a", "b")) for q in INT], w_int)
    pmap(chk, sess, [(q, l, s, o) for s, o in iv.classes(("a",), ("n",)) for q in NUM for l in (False, True)], w_num)
    bq = ["ll_lt", "ll_le", "uu_lt", "uu_le", "ul_lt", "lu_le", "connect"]
    orders = list(weak_orders(["a", "b", "#0"]))
    pmap(chk, sess, [(q, l, u, o) for q in bq for o in orders for l in (0, 1, 2) for u in (0, 1, 2)], w_bound)
    for q in INT: chk.require("obligations " + q, 2000)
    for q in bq: chk.require("obligations " + q, 100)
