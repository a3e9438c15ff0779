"""C18: rational roots bracket the exact root.  Numerator (R + f)^n, denominator (S + g)^n with integers R, S and f, g zero or in (0,1)."""
import itertools
from fractions import Fraction
import iv
from interp import Cell, Ptr, Unsupported, val
from dom import Dom, Sym, ZERO, ONE, mk, p_add, p_inv, p_mul, p_neg, p_sub
from lin import LinWorld
from session import Session, pmap

NUM, DEN = Sym.atom("num"), Sym.atom("den")
R, S, F, G = (Sym.atom(x) for x in ("R", "S", "f", "g"))


class RootDom(Dom):
    """knows numerator and denominator of the argument"""

    def numer(self, x):
        x = self.num(x)
        return x if isinstance(x, Sym) and self.same(x, NUM) else Dom.numer(self, x) if not isinstance(x, Sym) else p_mul(x, self.denom(x))

    def denom(self, x):
        x = self.num(x)
        if isinstance(x, Sym):
            for s in (ONE, -ONE):
                if self.same(p_mul(x, s), p_mul(NUM, p_inv(DEN))):
                    return DEN
            raise Unsupported("denominator of %r" % (x,))
        return Dom.denom(self, x)

    @staticmethod
    def same(a, b):
        d = p_sub(a, b)
        return not isinstance(d, Sym) and d == 0


def nonneg(p):
    """p >= 0 for all R >= 1, S >= 1 and f, g in [0,1], p of degree at most one in f and in g"""
    if not isinstance(p, Sym):
        return p >= 0
    for f, g in itertools.product((ZERO, ONE), repeat=2):
        q = ZERO
        for m, c in p.t.items():
            t = c
            for a, e in m:
                if e < 0 or a in "fg" and e > 1 or a not in "RSfg":
                    raise Unsupported("bound of %r" % (p,))
                b = {"f": f, "g": g}.get(a)
                if b is None:
                    b = p_add(Sym.atom(a), ONE)          # shifted to a >= 0
                for _ in range(e):
                    t = p_mul(t, b)
            q = p_add(q, t)
        if isinstance(q, Sym) and any(c < 0 for c in q.t.values()) or not isinstance(q, Sym) and q < 0:
            return False
    return True


def run(chk):
    chk.rule("with numerator (R+f)^n and denominator (S+g)^n (R, S any positive integers, f and g zero or any fraction; integer roots R and S are what the "
             "integer root primitives give) every pair returned brackets (R+f)/(S+g), with equal values only for an exact root; "
             "the exact root is claimed exactly if f = g = 0 and is then R/S; the single approximation lies in the bracket")
    chk.assume("GMP's integer roots round down and report exactness; zero is checked separately; n from 2 to 4 for the n-th root; roots of double are not analysed")
    sess = Session("numbers.cpp", dom=RootDom())
    dom, I = sess.dom, sess.I
    st = {}

    def isqrt(x):
        """(root, exact) of numerator or denominator"""
        x = val(x)
        x = x.cell().v if isinstance(x, Ptr) else x
        if not isinstance(x, Sym):
            if x not in (0, 1):
                raise Unsupported("root of %r" % (x,))
            return x, True
        if dom.same(x, NUM): return R, not st["f"]
        if dom.same(x, DEN): return S, not st["g"]
        raise Unsupported("root of %r" % (x,))

    def sqrtrem(I, fn, this, a):
        r, ex = isqrt(a[2])
        val(a[0]).cell().v = r
        rem = ZERO if ex else Sym.atom("rem%r" % (r,))
        val(a[1]).cell().v = rem

    def root(I, fn, this, a):
        r, ex = isqrt(a[1])
        if val(a[2]) != st["n"]:
            raise Unsupported("another root")
        val(a[0]).cell().v = r
        return int(ex)
    I.override("__gmpz_sqrtrem", sqrtrem)
    I.override("__gmpz_root", root)

    def store_root(I, fn, this, a):
        val(a[0]).cell().v = isqrt(a[1])[0]
    I.override("__gmpz_sqrt", store_root)
    I.override("__gmpz_perfect_square_p", lambda I, fn, this, a: int(isqrt(a[0])[1]))

    def world():
        return LinWorld(sess.paths, {x: (1, None) for x in ("num", "den", "R", "S", "remR", "remS")}, ())

    def arg():
        return p_mul(NUM, p_inv(DEN))

    def judge(lo, hi):
        """lo <= (R+f)/(S+g) <= hi for (numerator, denominator) pairs"""
        tn, td = p_add(R, F if st["f"] else ZERO), p_add(S, G if st["g"] else ZERO)
        return all(nonneg(p_mul(p_sub(p_mul(tn, d), p_mul(n, td)), s * ONE)) for (n, d), s in ((lo, 1), (hi, -1)))

    # quotients by sums are products with a reciprocal atom; its denominator is recorded here
    quot = {}

    def frac(v):
        """(numerator, denominator) of v"""
        den = ONE
        if not isinstance(v, Sym):
            return v, den
        for name, d in list(quot.items()):
            if any(a == name for m in v.t for a, e in m):
                out = ZERO
                for m, c in v.t.items():
                    e = dict(m).get(name, 0)
                    rest = mk({tuple(x for x in m if x[0] != name): c})
                    if e not in (0, 1):
                        raise Unsupported("power of a reciprocal")
                    out = p_add(out, rest if e else p_mul(rest, d))
                v, den = out, p_mul(den, d)
                if not isinstance(v, Sym):
                    return v, den
        neg = {}
        for m in v.t:
            for a, e in m:
                neg[a] = max(neg.get(a, 0), -e)
        f = mk({tuple(sorted((a, e) for a, e in neg.items() if e > 0)): ONE})
        return p_mul(v, f), p_mul(den, f)

    def fdiv(a, b):
        a, b = dom.num(a), dom.num(b)
        if isinstance(b, Sym) and len(b.t) > 1:
            name = "1/(%r)" % (b,)
            quot[name] = b
            dom.w.positive(Sym.atom(name))
            return p_mul(a, Sym.atom(name))
        return Dom.fdiv(dom, a, b)
    dom.fdiv = fdiv

    def w(item):
        q, n, f, g = item

        def body():
            st.update(f=f, g=g, n=n)
            quot.clear()
            args = [Cell(arg())] + ([n] if q == "q_rootsafe" else [])
            if q == "q_sqrtexact":
                out = Cell(ZERO)
                r = bool(I.call_root(q, args[0], out))
                if not r:
                    return f or g, "no exact root found"
                v = val(out)
                return not f and not g and dom.same(dom.num(v), p_mul(R, p_inv(S))), "exact root %r" % (v,)
            r = val(I.call_root(q, *args))
            if q == "q_sqrt":
                vn, vd = frac(r)
                # between the roots of the neighbouring integers
                ok = nonneg(p_sub(p_mul(vn, p_add(S, ONE if g else ZERO)), p_mul(R, vd))) and \
                    nonneg(p_sub(p_mul(p_add(R, ONE if f else ZERO), vd), p_mul(vn, S)))
                return ok, repr(r)
            lo, hi = (dom.num(val(x)) for x in (r.first, r.second))
            ok = judge(frac(lo), frac(hi))
            d = p_sub(p_mul(frac(lo)[0], frac(hi)[1]), p_mul(frac(hi)[0], frac(lo)[1]))
            equal = not isinstance(d, Sym) and d == 0
            return ok and equal == (not f and not g), "[%r, %r]" % (lo, hi)
        yield from iv.decide(sess, world, q, body, "%s (n=%d) of %s numerator and %s denominator" % (q[2:], n, "inexact" if f else "exact", "inexact" if g else "exact"),
                             "roots are bracketed")

    def w_special(item):
        q, v = item

        def body():
            st.update(f=0, g=0, n=2)
            x = Fraction(0) if v == "zero" else p_neg(arg())
            out = Cell(ONE)
            if q == "q_sqrtexact":
                r = bool(I.call_root(q, Cell(x), out))
                ok = not r if v == "negative" else r and val(out) == 0
                return ok, "%s %r" % (r, val(out))
            r = val(I.call_root(q, Cell(x)))
            return val(r.first) == 0 and val(r.second) == 0, "%r" % (r,)
        yield from iv.decide(sess, world, q, body, "%s of a %s number" % (q[2:], v), "roots are bracketed")
    items = [(q, n, f, g) for q, ns in (("q_sqrtexact", (2,)), ("q_sqrtsafe", (2,)), ("q_sqrtfast", (2,)), ("q_sqrt", (2,)), ("q_rootsafe", (2, 3, 4)))
             for n in ns for f in (0, 1) for g in (0, 1)]
    pmap(chk, sess, items, w)
    pmap(chk, sess, [("q_sqrtexact", "zero"), ("q_sqrtexact", "negative"), ("q_sqrtfast", "zero")], w_special)
    for q in ("sqrtexact", "sqrtsafe", "sqrtfast", "sqrt", "rootsafe"):
        chk.require("obligations " + q, 4)
