"""C26: finite-field arithmetic.  Field sizes are enumerated; an integer is a residue plus an arbitrary multiple of the size."""
from fractions import Fraction
from math import gcd
import containers, iv
from interp import Cell, val, Infeasible
from dom import Sym, ZERO, p_add, p_mul
from lin import LinWorld
from session import Session, mute, pmap

FIELDS = [(2, 1), (3, 1), (5, 1), (7, 1), (2, 2), (3, 2), (2, 3)]
LARGE = [(11, 1), (13, 1), (5, 2), (3, 3), (101, 1), (2, 8), (3, 40), (2, 70)]


def run(chk):
    chk.rule("every operation on numbers of a field gives a number of that field congruent to the result of the integer operation; zero and one tests, and "
             "equality with numbers of the field or integers, are decided by the residue class")
    chk.assume("field sizes %s with all residues, larger ones (%s) with the residues next to 0 and to half the size; integers are residue + size * J with J an arbitrary integer; numbers without a field are the integers -1, 0, 1 and the "
               "sizes next to the field's" % (", ".join(str(p ** k) for p, k in FIELDS), ", ".join("%d^%d" % pk for pk in LARGE)))
    sess = Session("galois.cpp")
    mute(sess)
    containers.register(sess.models)
    dom, I = sess.dom, sess.I

    def world():
        return LinWorld(sess.paths, {"J": (None, None)}, ())

    def field(pk):
        return Cell(I.call_root("q_field", *pk))

    def integer(c, P):
        return p_add(Fraction(c), p_mul(Sym.atom("J"), Fraction(P)))

    def rep(g):
        return dom.w.norm(dom.num(val(I.call_root("q_rep", Cell(g)))))

    def residue(v, P):
        """residue of an integer of the abstract state"""
        if isinstance(v, Sym):
            rest = {m: c for m, c in v.t.items() if m}
            if any(c % P for c in rest.values()):
                return None
            v = v.t.get((), ZERO)
        return int(v) % P if v.denominator == 1 else None

    def infield(g, P):
        return bool(I.call_root("q_hasfield", Cell(g))) and val(I.call_root("q_fieldsize", Cell(g))) == P

    def judge(g, exp, P):
        g = val(g)
        if not infield(g, P):
            return False, "a number of another field"
        r = rep(g)
        if residue(r, P) != exp % P:
            return False, "%r, expected %d modulo %d" % (r, exp % P, P)
        # later tests see the right class
        for q, e in (("q_iszero", 0), ("q_iszerof", 0), ("q_isone", 1), ("q_isunit", 1), ("q_isonef", 1)):
            if bool(I.call_root(q, Cell(g))) != (exp % P == e % P):
                return False, "%r modulo %d is %s %s" % (r, P, "not" if exp % P == e else "", q[4:])
        return True, repr(r)

    def inv(b, P):
        return pow(b, -1, P) if gcd(b, P) == 1 else None

    UN = {"q_neg": lambda a, P: -a, "q_inc": lambda a, P: a + 1, "q_dec": lambda a, P: a - 1, "q_inverse": inv}
    BIN = {"add": lambda a, b, P: a + b, "sub": lambda a, b, P: a - b, "mul": lambda a, b, P: a * b,
           "div": lambda a, b, P: None if inv(b, P) is None else a * inv(b, P)}
    BIN["quo"] = BIN["div"]

    def w_mk(item):
        q, pk, c = item
        P = pk[0] ** pk[1]

        def body():
            f = field(pk)
            n = integer(c, P)
            if q == "q_mk":
                g = I.call_root(q, Cell(n), f)
            elif q == "q_normalize":
                x = Cell(I.call_root("q_mk", Cell(n), f))
                I.call_root(q, x)
                g = x.v
            else:
                g = I.call_root(q, Cell(I.call_root("q_mk0", Cell(n))), f)
            return judge(g, c, P)
        yield from iv.decide(sess, world, q, body, "%s of %d + %d*J in the field of size %d" % (q[2:], c, P, P), "a number represents its residue class")

    def w_un(item):
        q, pk, a = item
        P = pk[0] ** pk[1]
        exp = UN[q](a, P)
        if exp is None:
            return

        def body():
            f = field(pk)
            return judge(I.call_root(q, Cell(I.call_root("q_mk", Cell(Fraction(a)), f))), exp, P)
        yield from iv.decide(sess, world, q, body, "%s of %d in the field of size %d" % (q[2:], a, P), "operations are congruent to the integer operation")

    def w_bin(item):
        q, pk, a, b, how = item
        P = pk[0] ** pk[1]
        name = q[2:].replace("as", "")
        exp = BIN[name](a, b, P)
        if exp is None:
            return

        def body():
            f = field(pk)
            x = Cell(I.call_root("q_mk0", Cell(Fraction(a))) if how == 1 else I.call_root("q_mk", Cell(Fraction(a)), f))
            y = Cell(I.call_root("q_mk0", Cell(Fraction(b))) if how == 2 else I.call_root("q_mk", Cell(Fraction(b)), f))
            r = I.call_root(q, x, y)
            ok, text = judge(r, exp, P)
            if ok and q.endswith("as"):
                ok, text = judge(x, exp, P)
            return ok, text
        yield from iv.decide(sess, world, q, body, "%s of %d and %d in the field of size %d%s" % (q[2:], a, b, P, ("", ", left without field", ", right without field")[how]),
                             "operations are congruent to the integer operation")

    def w_mixed(item):
        q, pk, a, c = item
        P = pk[0] ** pk[1]
        left = q[2] == "n"
        op = q[2:].replace("as", "").strip("n") or "sub"
        x, y = (c, a) if left else (a, c)
        exp = BIN[op](x, y, P)

        def body():
            f = field(pk)
            g, n = Cell(I.call_root("q_mk", Cell(Fraction(a)), f)), Cell(integer(c, P))
            r = I.call_root(q, n, g) if left else I.call_root(q, g, n)
            ok, text = judge(r, exp, P)
            if ok and q.endswith("as"):
                ok, text = judge(g, exp, P)
            return ok, text
        yield from iv.decide(sess, world, q, body, "%s of %d and the integer %d + %d*J in the field of size %d" % (q[2:], a, c, P, P),
                             "operations are congruent to the integer operation")

    def w_eq(item):
        q, pk, a, c = item
        P = pk[0] ** pk[1]
        exp = (a - c) % P == 0
        if "ne" in q and q != "q_neq":
            exp = not exp

        def body():
            f = field(pk)
            g = Cell(I.call_root("q_mk", Cell(Fraction(a)), f))
            if q in ("q_eq", "q_ne"):
                args = [g, Cell(I.call_root("q_mk", Cell(Fraction(c)), f))]
            elif q[-1] == "i" or q[2] == "i":
                args = [c, g] if q[2] == "i" else [g, c]
            else:
                n = Cell(integer(c, P))
                args = [n, g] if q in ("q_neq", "q_nne") else [g, n]
            r = bool(I.call_root(q, *args))
            return r == exp, "%s, expected %s" % (r, exp)
        what = "%d" % c if q[-1] == "i" or q[2] == "i" or q in ("q_eq", "q_ne") else "%d + %d*J" % (c, P)
        yield from iv.decide(sess, world, q, body, "%s of %d and %s in the field of size %d" % (q[2:], a, what, P), "equality is congruence")

    def w_get(item):
        a, b = item

        def body():
            x, y, z = (I.call_root("q_get", *pk) for pk in (a, b, a))
            if not I.call_root("q_same", x, z):
                return False, "another object for the same field"
            if bool(I.call_root("q_same", x, y)) != (a == b):
                return False, "one object for two fields"
            for f, (p, k) in ((x, a), (y, b)):
                got = tuple(int(val(I.call_root(q, val(f).cell()))) for q in ("q_size", "q_p", "q_k"))
                if got != (p ** k, p, k):
                    return False, "field with size, p, k = %r" % (got,)
            return True, ""
        yield from iv.decide(sess, world, "q_get", body, "fields %d^%d and %d^%d of the manager" % (a + b), "the manager keeps one field per size")

    def res(pk):
        P = pk[0] ** pk[1]
        return range(P) if pk in FIELDS else sorted({r % P for r in (-2, -1, 0, 1, 2, 3, P // 2 - 1, P // 2, P // 2 + 1)})
    pmap(chk, sess, [(q, pk, c) for q in ("q_mk", "q_refield", "q_togf", "q_normalize") for pk in FIELDS + LARGE for c in res(pk)], w_mk)
    pmap(chk, sess, [(q, pk, a) for q in UN for pk in FIELDS + LARGE for a in res(pk)], w_un)
    bins = [(q, pk, a, b, 0) for q in ("q_add", "q_sub", "q_mul", "q_div", "q_quo", "q_addas", "q_subas", "q_mulas", "q_divas") for pk in FIELDS + LARGE for a in res(pk) for b in res(pk)]
    for q in ("q_add", "q_sub", "q_mul", "q_addas", "q_subas", "q_mulas"):
        for pk in FIELDS + LARGE:
            P = pk[0] ** pk[1]
            bins += [(q, pk, a, b, 1) for a in (-1, 0, 1, P, P + 1) for b in res(pk)] + [(q, pk, a, b, 2) for b in (-1, 0, 1, P, P + 1) for a in res(pk)]
    pmap(chk, sess, bins, w_bin)
    pmap(chk, sess, [(q, pk, a, c) for q in ("q_addn", "q_nadd", "q_subn", "q_nsub", "q_muln", "q_nmul", "q_addnas", "q_subnas", "q_mulnas")
                     for pk in FIELDS + LARGE for a in res(pk) for c in res(pk)], w_mixed)
    pmap(chk, sess, [(q, pk, a, c) for q in ("q_eq", "q_ne", "q_eqn", "q_neq", "q_nen", "q_nne") for pk in FIELDS + LARGE for a in res(pk) for c in res(pk)]
         + [(q, pk, a, c) for q in ("q_eqi", "q_ieq", "q_nei", "q_ine") for pk in FIELDS + LARGE for a in res(pk) for c in (range(-pk[0] ** pk[1] - 1, 2 * pk[0] ** pk[1] + 2) if pk in FIELDS else (-2, -1, 0, 1, 2))], w_eq)
    pmap(chk, sess, [(a, b) for a in FIELDS + LARGE for b in FIELDS + LARGE], w_get)
    for q in ("get", "mk", "normalize", "neg", "inverse", "add", "mulas", "divas", "addn", "mulnas", "eq", "eqn", "eqi"):
        chk.require("obligations " + q, 20)
