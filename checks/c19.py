"""C19: rounding, division and inspection of numbers.  Numbers are sign * (integer + fraction), dividends that multiple of the divisor."""
from fractions import Fraction
import iv
from interp import Cell, val, Infeasible
from dom import Sym, ZERO, ONE, p_add, p_mul, p_neg, p_sub
from lin import LinWorld
from session import Session, pmap

HALF = Fraction(1, 2)


def magnitude(k, f):
    """k: 0, 1 (the number one) or 2 (any integer from two on); f: whether a fraction is added"""
    v = (ZERO, ONE, Sym.atom("K"))[k]
    return p_add(v, Sym.atom("f")) if f else v


def run(chk):
    chk.rule("floor, ceiling and rounding: integers with x-1 < floor(x) <= x <= ceil(x) < x+1 and |x - round(x)| <= 1/2; numerator/denominator = number with "
             "positive denominator; tests for zero, one, sign and integrality are exact")
    chk.rule("quotient truncates, remainder and mod have the sign of the dividend, the pair returned by divide satisfies a = b*q + r with |r| < |b|; "
             "exact division and rational division multiply back; powers are repeated products")
    chk.assume("a rational is sign * (0, 1 or any larger integer, plus nothing or any fraction); an integer dividend is such a multiple of the divisor +-D with D any "
               "positive integer; powers with exponents 0 to 9; machine integers do not overflow; GMP primitives are modelled; double is not analysed")
    sess = Session("numbers.cpp")
    dom, I = sess.dom, sess.I

    def world():
        return LinWorld(sess.paths, {"K": (2, None), "D": (1, None)}, ("f",))

    def eq(a, b):
        return dom.cmp(a, b) == 0

    VALS = [(s, k, f) for s in (1, -1) for k in (0, 1, 2) for f in (0, 1) if s > 0 or k or f]

    def mk(c):
        s, k, f = c
        v = magnitude(k, f)
        return v if s > 0 else p_neg(v)

    def sgn(c):
        return 0 if not (c[1] or c[2]) else c[0]

    # unary: query, integer argument only, judge(class, argument, result) -> ok
    def isint(v): return dom.is_int(v)
    UN = {
        "floor": lambda c, x, r: isint(r) and dom.cmp(r, x) <= 0 and dom.cmp(p_add(r, ONE), x) > 0,
        "ceil": lambda c, x, r: isint(r) and dom.cmp(r, x) >= 0 and dom.cmp(p_sub(r, ONE), x) < 0,
        "round": lambda c, x, r: isint(r) and dom.cmp(dom.absval(p_sub(r, x)), HALF) <= 0,
        "isint": lambda c, x, r: bool(r) == (not c[2]),
        "abs": lambda c, x, r: eq(r, x if c[0] > 0 else p_neg(x)),
        "iszero": lambda c, x, r: bool(r) == (sgn(c) == 0), "isone": lambda c, x, r: bool(r) == (c == (1, 1, 0)),
        "iszero2": lambda c, x, r: bool(r) == (sgn(c) == 0), "isone2": lambda c, x, r: bool(r) == (c == (1, 1, 0)),
        "ispos": lambda c, x, r: bool(r) == (sgn(c) > 0), "isneg": lambda c, x, r: bool(r) == (sgn(c) < 0),
    }
    NAME = {"iszero2": "iszero%s2", "isone2": "isone%s2"}

    def w_un(item):
        name, t, c = item
        q = "q_" + NAME.get(name, name + "%s") % t

        def body():
            x = mk(c)
            r = val(I.call_root(q, Cell(x)))
            return UN[name](c, x, r), "%r for %r" % (r, x)
        yield from iv.decide(sess, world, q, body, "%s of %s(%r)" % (q[2:], "-" if c[0] < 0 else "", magnitude(*c[1:])), "inspection and rounding are exact")

    def w_frac(item):
        t, c = item

        def body():
            x = mk(c)
            n, d = val(I.call_root("q_num" + t, Cell(x))), val(I.call_root("q_den" + t, Cell(x)))
            return dom.cmp(d, ZERO) > 0 and eq(n, p_mul(x, d)), "%r / %r for %r" % (n, d, x)
        yield from iv.decide(sess, world, "q_den" + t, body, "numerator and denominator of %s(%r)" % ("-" if c[0] < 0 else "", magnitude(*c[1:])),
                             "numerator over denominator is the number")

    def w_div(item):
        q, c, ds = item
        unsigned = q == "q_modu"

        def body():
            d = Sym.atom("D") if ds > 0 else p_neg(Sym.atom("D"))
            ratio = mk(c)
            n = p_mul(ratio, d)
            tq = mk((c[0], c[1], 0))
            tr = p_sub(n, p_mul(d, tq))
            kind = q[2:-1]
            if kind in ("divide",):
                a, b = Cell(ZERO), Cell(ZERO)
                I.call_root(q, n if q[-1] == "s" else Cell(n), d if q[-1] == "s" else Cell(d), a, b)
                x, y = val(a), val(b)
                ok = isint(x) and eq(n, p_add(p_mul(d, x), y)) and dom.cmp(dom.absval(y), dom.absval(d)) < 0
                return ok, "quotient %r remainder %r for %r by %r" % (x, y, n, d)
            r = val(I.call_root(q, *([n, d] if q[-1] in "su" else [Cell(n), Cell(d)])))
            exp = tq if kind in ("quo", "opdiv", "div", "divas") else tr
            return eq(r, exp), "%r for %r by %r, expected %r" % (r, n, d, exp)
        yield from iv.decide(sess, world, q, body, "%s of (%s(%r))*d by d, d %s 0" % (q[2:], "-" if c[0] < 0 else "", magnitude(*c[1:]), ">" if ds > 0 else "<"),
                             "quotient and remainder follow the convention")

    def w_rat(item):
        q, c = item

        def body():
            x, y = mk(c), Sym.atom("K") if q != "q_recq" else None
            if q == "q_recq":
                r = val(I.call_root(q, Cell(x)))
                return eq(p_mul(r, x), ONE), repr(r)
            r = val(I.call_root(q, Cell(x), Cell(y)))
            ok = eq(r, p_mul(x, y)) if q == "q_opmulq" else eq(p_mul(r, y), x)
            return ok, "%r for %r and %r" % (r, x, y)
        yield from iv.decide(sess, world, q, body, "%s of %s(%r)" % (q[2:], "-" if c[0] < 0 else "", magnitude(*c[1:])), "division multiplies back")

    def w_pow(item):
        q, n = item

        def body():
            x = Sym.atom("K")
            r = val(I.call_root(q, Cell(x), n))
            e = ONE
            for _ in range(n):
                e = p_mul(e, x)
            return eq(r, e), "%r, expected %r" % (r, e)
        yield from iv.decide(sess, world, q, body, "%s with exponent %d" % (q[2:], n), "a power is a repeated product")

    def w_toint(c):
        def body():
            x = mk(c)
            r = val(I.call_root("q_tointq", Cell(x)))
            return eq(r, x), "%r for %r" % (r, x)
        yield from iv.decide(sess, world, "q_tointq", body, "toInt of %s(%r)" % ("-" if c[0] < 0 else "", magnitude(*c[1:])), "conversion keeps the value")

    INTS = [c for c in VALS if not c[2]]
    pmap(chk, sess, [(n, t, c) for n in UN for t in "qz" for c in (VALS if t == "q" else INTS)], w_un)
    pmap(chk, sess, [(t, c) for t in "qz" for c in (VALS if t == "q" else INTS)], w_frac)
    tr = ["q_modz", "q_remz", "q_quoz", "q_opdivz", "q_dividez", "q_mods", "q_rems", "q_quos", "q_divides", "q_divasz"]
    ex = ["q_divz", "q_divs"]
    pmap(chk, sess, [(q, c, s) for q in tr for c in VALS for s in (1, -1)] + [(q, c, s) for q in ex for c in INTS for s in (1, -1)]
         + [("q_modu", c, 1) for c in VALS if c[0] > 0], w_div)
    pmap(chk, sess, [(q, c) for q in ("q_quoq", "q_divq", "q_divasq", "q_opdivq", "q_opmulq") for c in VALS] + [("q_recq", c) for c in VALS if sgn(c) and not (c[1] and c[2])], w_rat)
    pmap(chk, sess, [(q, n) for q in ("q_powq", "q_powasq", "q_powz", "q_powasz") for n in range(10)], w_pow)
    pmap(chk, sess, INTS, w_toint)
    for n in ("floorq", "ceilq", "roundq", "isintq", "denq", "denz", "modz", "remz", "quoz", "dividez", "mods", "quos", "quoq"):
        chk.require("obligations " + n, 4)
