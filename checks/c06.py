"""C06: sampling and centres of intervals.  Bounds are an integer plus nothing or a fraction."""
import iv
from iv import STRICT, WEAK, INFTY
from interp import Cell, Infeasible, val
from fractions import Fraction
from dom import Sym, ZERO, p_add
from lin import LinWorld
from session import Session, pmap

HALF = Fraction(1, 2)


def bounds(item):
    """(lower bound, upper bound) of a class: integer n or n plus a fraction; n + d or n + d plus a fraction"""
    lt, ut, fl, d, fu = item
    n = Sym.atom("n")
    hi = p_add(n, Fraction(d))
    return ((p_add(n, Sym.atom("f")) if fl else n) if lt != INFTY else ZERO,
            (p_add(hi, Sym.atom("g")) if fu else hi) if ut != INFTY else ZERO)


def classes(dmax):
    for lt in (0, 1, 2):
        for ut in (0, 1, 2):
            for fl in ((0, 1) if lt != INFTY else (0,)):
                for d in (range(dmax + 1) if INFTY not in (lt, ut) else (0,)):
                    for fu in ((0, 1) if ut != INFTY else (0,)):
                        yield lt, ut, fl, d, fu


def show(item):
    lt, ut, fl, d, fu = item
    lo = "-oo" if lt == INFTY else "n+f" if fl else "n"
    hi = "oo" if ut == INFTY else "n+%d%s" % (d, "+g" if fu else "")
    return "%s%s, %s%s" % ("[" if lt == WEAK else "(", lo, hi, "]" if ut == WEAK else ")")


class Set:
    def __init__(self, sess, item):
        self.dom, self.lt, self.ut = sess.dom, item[0], item[1]
        self.lo, self.hi = bounds(item)
        self.point = False
        if INFTY not in (self.lt, self.ut):
            c = self.dom.cmp(self.lo, self.hi)
            if c > 0 or c == 0 and (self.lt, self.ut) != (WEAK, WEAK):
                raise Infeasible()
            self.point = c == 0
        self.iv = sess.I.call_root("q_mk4", self.lo, self.lt, self.hi, self.ut)

    def has(self, v, inner=False):
        if self.lt != INFTY:
            c = self.dom.cmp(v, self.lo)
            if c < 0 or c == 0 and (inner or self.lt == STRICT):
                return False
        if self.ut != INFTY:
            c = self.dom.cmp(v, self.hi)
            if c > 0 or c == 0 and (inner or self.ut == STRICT):
                return False
        return True


def median(sess):
    """boost::numeric::median is the exact arithmetic mean for exact numbers"""
    d = sess.dom
    hits = [f for f in sess.prog.fns.values() if f["qn"] == "boost::numeric::median"]

    def model(I, fn, this, a):
        x = a[0]
        return d.mul(d.add(I.call_root("q_blower", x), I.call_root("q_bupper", x)), HALF)
    for f in hits:
        f["_model"] = model
    return hits


def run(chk):
    chk.rule("each sampling function called on every class of non-empty intervals (bound kinds; bounds that are an integer or lie between two "
             "integers; distance of the integer parts; position relative to zero) returns a number of the interval, of its interior if bounds are excluded")
    chk.rule("an integer next to the midpoint (next to the end point, zero) is returned by the variant that looks for it whenever it is admissible")
    chk.assume("integer parts of the bounds at most four apart (integer part itself arbitrary), fractions arbitrary; the Stern-Brocot search is followed for up to "
               "its first seven undetermined comparisons; boost's median is the exact mean")
    sess = Session("interval.cpp")
    median(sess)
    dom, I = sess.dom, sess.I

    def world(depth=None):
        return lambda: LinWorld(sess.paths, {"n": (None, None)}, ("f", "g"), depth)

    def integer(v):
        return dom.is_int(v)

    def w(item):
        q, cls, incl = item

        def body():
            s = Set(sess, cls)
            if s.point and incl == 0:
                raise Infeasible()
            args = [] if incl is None else [incl]
            v = val(I.call_root(q, Cell(s.iv), *args))
            inner = incl == 0
            if not s.has(v, inner):
                return False, "%r is not in the %s" % (v, "interior" if inner else "interval")
            finite = INFTY not in cls[:2]
            best = None
            if q == "q_sample" and finite:
                m = dom.mul(dom.add(s.lo, s.hi), HALF)
                best = [dom.floor(m), dom.ceil(m)]
            elif q == "q_sample_left" and cls[0] != INFTY:
                best = [dom.add(dom.floor(s.lo), Fraction(1))]
            elif q == "q_sample_right" and cls[1] != INFTY:
                best = [dom.sub(dom.ceil(s.hi), Fraction(1))]
            elif q in ("q_sample_zero", "q_sample_infty"):
                if s.has(ZERO, True) and dom.cmp_op("!=", v, ZERO):
                    return False, "%r although zero is inside" % (v,)
            for b in best or ():
                if s.has(b, inner) and not integer(v):
                    return False, "%r although %r is admissible" % (v, b)
            return True, repr(v)
        yield from iv.decide(sess, world(7 if q == "q_sample_sb" else None), q, body, "%s of %s%s" % (q[2:], show(cls), "" if incl is None else ", bounds %s" % ("included" if incl else "excluded")),
                             "a sample lies in the interval")

    QS = [("q_center", (None,)), ("q_sample", (0, 1)), ("q_sample_sb", (0, 1)), ("q_sample_left", (None,)), ("q_sample_right", (None,)),
          ("q_sample_zero", (None,)), ("q_sample_infty", (None,))]
    items = [(q, c, i) for q, incl in QS for i in incl for c in classes(3 if q == "q_sample_sb" else 4)]
    pmap(chk, sess, items, w)
    for q, _ in QS:
        chk.require("obligations " + q[2:], 60)
