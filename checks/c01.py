"""C01: interval construction.  Rank domain over the bound values, 0 and all bound kinds."""
import iv
from iv import STRICT, WEAK, INFTY
from interp import Cell
from dom import Sym, ZERO
from session import Session, pmap, weak_orders

A, B, N = Sym.atom("a"), Sym.atom("b"), Sym.atom("n")


def canonical(sess, line, r, mask):
    """structural canonicity visible through equality: empty and unbounded results equal the
    canonical objects, half-bounded ones store the finite bound at both ends"""
    I = sess.I
    lo, lt, hi, ht = iv.read(sess, r)
    if mask == 0:
        return lt == STRICT and ht == STRICT and sess.dom.cmp(lo, hi) == 0 and sess.dom.cmp(lo, ZERO) == 0
    if lt == INFTY and ht == INFTY:
        return sess.dom.cmp(lo, ZERO) == 0 and sess.dom.cmp(hi, ZERO) == 0
    return sess.dom.cmp(lo, hi) <= 0


def run(chk):
    chk.rule("constructor result denotes exactly the described set of elementary segments, for every order type of the "
             "bound values and 0 and every pair of bound kinds; contradictory bounds give the canonical empty interval")
    chk.rule("accessors return the stored bounds; setters install exactly the requested bound and keep the other")
    chk.assume("bound values are exact rationals (floating point and integer arguments are treated as the rational they denote)")
    sess = Session("interval.cpp")
    # conversions of machine floating point arguments are value preserving in this domain
    for f in sess.prog.fns.values():
        if f["qn"] in ("carl::rationalize", "carl::toDouble"):
            f["_model"] = lambda I, fn, this, a: a[0].v if isinstance(a[0], Cell) else a[0]
    OTHER = {STRICT: WEAK, WEAK: STRICT, INFTY: INFTY}

    def line_of(order):
        return iv.Line(order)

    def expect(line, lo, lt, hi, ht):
        return line.range(line.seg(line.order[lo]), lt, line.seg(line.order[hi]), ht)

    def w_ctor(item):
        q, order, lt, ut = item
        line = line_of(order)
        elt, eut = lt, ut
        if q == "q_mkll": eut = OTHER[ut]
        if q == "q_mkuu": elt = OTHER[lt]
        exp = expect(line, "a", elt, "b", eut)
        if "uint" in q and (order["a"] < order["#0"] or order["b"] < order["#0"]):
            return

        def body():
            r = sess.I.call_root(q, A, lt, B, ut)
            m, ex = iv.denote(sess, line, r)
            return ex and m == exp and canonical(sess, line, r, m), iv.show_iv(sess, r)
        if q == "q_mkboost" and order["a"] > order["b"]:
            return          # the boost interval itself would be ill-formed
        desc = "%s(a %s, b %s) with %s" % (q[2:], iv.BTN[lt], iv.BTN[ut], iv.show_order(order))
        yield from iv.decide(sess, lambda: line.world(sess), q, body, desc, "constructor denotes the described set")

    def w_ctor2(item):
        q, order = item
        line = line_of(order)
        one = q.endswith("1") and q != "q_mkboost1"
        if "uint" in q and (order["a"] < order["#0"] or order["b"] < order["#0"]):
            return
        if q == "q_mkboost1" and order["a"] > order["b"]:
            return
        exp = expect(line, "a", WEAK, "a" if one else "b", WEAK)

        def body():
            r = sess.I.call_root(q, A) if one else sess.I.call_root(q, A, B)
            m, ex = iv.denote(sess, line, r)
            return ex and m == exp and canonical(sess, line, r, m), iv.show_iv(sess, r)
        desc = "%s(a%s) with %s" % (q[2:], "" if one else ", b", iv.show_order(order))
        yield from iv.decide(sess, lambda: line.world(sess), q, body, desc, "constructor denotes the described set")

    def w_const(item):
        q, want = item
        line = line_of({"#0": 0})

        def body():
            r = sess.I.call_root(q)
            m, ex = iv.denote(sess, line, r)
            return ex and m == want(line) and canonical(sess, line, r, m), iv.show_iv(sess, r)
        yield from iv.decide(sess, lambda: line.world(sess), q, body, q[2:], "static creator")

    def w_access(item):
        specs, order = item
        line = line_of(order)
        s = specs[0]
        exp = iv.spec_mask(s, "a", line)

        def body():
            x = Cell(iv.make(sess, s, "a"))
            rd = iv.read(sess, x.v)
            rb = tuple(sess.I.call_root(q, x) for q in ("q_lbn", "q_lbt", "q_ubn", "q_ubt"))
            same = rd[1] == rb[1] and rd[3] == rb[3] and sess.dom.cmp(rd[0], rb[0]) == 0 and sess.dom.cmp(rd[2], rb[2]) == 0
            y = Cell(sess.I.call_root("q_copy", x))
            z = Cell(sess.I.call_root("q_unbounded"))
            sess.I.call_root("q_assign", z, x)
            for c in (x, y, z):
                m, ex = iv.denote(sess, line, c.v)
                same = same and ex and m == exp
            return same, "accessors %r, bounds %r, copy %s, assigned %s" % (rd, rb, iv.show_iv(sess, y.v), iv.show_iv(sess, z.v))
        yield from iv.decide(sess, lambda: line.world(sess), "q_lbn", body, "accessors of %s" % iv.show_spec(s, "a"),
                             "accessors and copies reproduce the bounds", "accessors")

    def w_set(item):
        q, specs, order, bt = item
        line = line_of(order)
        s = specs[0]
        if s == iv.EMPTY:
            return
        lt, ut = s
        low = "Lower" in q
        n = line.seg(order["n"])
        lo = line.seg(order["al"]) if lt != INFTY else None
        hi = line.seg(order["au"]) if ut != INFTY else None
        if q in ("q_setLower", "q_setUpper"):
            # value setters move a finite bound and keep its kind
            if (lt if low else ut) == INFTY or INFTY in s:
                return
            nl, nlt, nh, nht = (n, lt, hi, ut) if low else (lo, lt, n, ut)
            args = [N]
        elif q.endswith("BoundType"):
            if low: nl, nlt, nh, nht = lo, bt, hi, ut
            else: nl, nlt, nh, nht = lo, lt, hi, bt
            if (low and lt == INFTY or not low and ut == INFTY) and bt != INFTY:
                return      # there is no stored value to turn into a finite bound
            args = [bt]
        else:
            if low: nl, nlt, nh, nht = n, bt, hi, ut
            else: nl, nlt, nh, nht = lo, lt, n, bt
            args = [N, bt]
        if nlt != INFTY and nht != INFTY and nl > nh:
            return          # contradictory request: outside the setters' contract
        exp = line.range(nl, nlt, nh, nht)

        def body():
            x = Cell(iv.make(sess, s, "a"))
            sess.I.call_root(q, x, *args)
            m, ex = iv.denote(sess, line, x.v)
            ok = ex and m == exp
            if ok and m:
                # an interval with the same bounds built directly compares equal
                rd = iv.read(sess, x.v)
                ok = bool(sess.I.call_root("q_eq", x, Cell(sess.I.call_root("q_mk4", rd[0], rd[1], rd[2], rd[3]))))
            return ok, iv.show_iv(sess, x.v)
        desc = "%s(%s%s) on %s with %s" % (q[2:], "n, " if N in args else "", "" if args == [N] else iv.BTN[bt], iv.show_spec(s, "a"), iv.show_order(order))
        yield from iv.decide(sess, lambda: line.world(sess), q, body, desc, "setter installs exactly the requested bound")

    orders = list(weak_orders(["a", "b", "#0"]))
    q4 = ["q_mk4", "q_mkboost", "q_mklu", "q_mkll", "q_mkuu", "q_mkint4", "q_mkuint4", "q_mkdbl4"]
    pmap(chk, sess, [(q, o, l, u) for q in q4 for o in orders for l in (0, 1, 2) for u in (0, 1, 2)], w_ctor)
    q2 = ["q_mk2", "q_mk1", "q_mkboost1", "q_mkint2", "q_mkint1", "q_mkuint2", "q_mkuint1"]
    pmap(chk, sess, [(q, o) for q in q2 for o in orders], w_ctor2)
    pmap(chk, sess, [("q_empty", lambda l: 0), ("q_unbounded", lambda l: l.full), ("q_zero", lambda l: 2), ("q_mkdef", lambda l: 0)], w_const)
    pmap(chk, sess, iv.classes(("a",)), w_access)
    qs = ["q_setLower", "q_setUpper", "q_setLowerBound", "q_setUpperBound", "q_setLowerBoundType", "q_setUpperBoundType"]
    pmap(chk, sess, [(q, s, o, b) for q in qs for s, o in iv.classes(("a",), ("n",)) for b in ((0, 1, 2) if "Bound" in q else (0,))], w_set)
    for q in q4: chk.require("obligations " + q[2:], 40)
    for q in q2: chk.require("obligations " + q[2:], 6)
    for q in qs: chk.require("obligations " + q[2:], 20)
