"""C05: interval arithmetic encloses all pointwise results.  Rank domain; bounds are value-numbered monomials."""
import iv
from fractions import Fraction
from interp import Cell, Unsupported, val
from dom import Sym, ZERO, ONE, p_mul, p_inv, p_neg, p_add
from iv import STRICT, WEAK, INFTY, EMPTY
from session import Session, pmap

INF, NINF = "oo", "-oo"


def run(chk):
    chk.rule("for every sign and order class of the bounds and every bound kind: every extreme value of the exact result set (combinations of bounds, "
             "and 0 where an operand contains it) lies in the closure of the returned interval, and in the interval itself if the operands attain it")
    chk.assume("bounds are exact rationals, compared by rank and by sign rules on products; undetermined comparisons of products split the state")
    sess = Session("arith.cpp")
    I, dom = sess.I, sess.dom

    def ends(spec, p):
        """generalised end points of a non-empty operand: (value, attained)"""
        lt, ut = spec
        return [(Sym.atom(p + "l") if lt != INFTY else NINF, lt == WEAK), (Sym.atom(p + "u") if ut != INFTY else INF, ut == WEAK)]

    def sgn(v):
        if v is INF: return 1
        if v is NINF: return -1
        return dom.cmp(v, ZERO)

    def neg(e):
        v, a = e
        return (NINF if v is INF else INF if v is NINF else p_neg(v), a)

    def add(e, f):
        (x, a), (y, b) = e, f
        for v in (x, y):
            if v in (INF, NINF):
                return v, False
        return p_add(dom.num(x), dom.num(y)), a and b

    def mul(e, f):
        (x, a), (y, b) = e, f
        sx, sy = sgn(x), sgn(y)
        if sx == 0 or sy == 0:
            return ZERO, (sx == 0 and a) or (sy == 0 and b)
        if x in (INF, NINF) or y in (INF, NINF):
            return (INF if sx * sy > 0 else NINF), False
        return p_mul(dom.num(x), dom.num(y)), a and b

    def recip(es, side):
        """end points of 1/Y for Y on one side of 0 given by its end points"""
        out = []
        for v, a in es:
            if v in (INF, NINF):
                out.append((ZERO, False))
            elif sgn(v) == 0:
                out.append((INF if side > 0 else NINF, False))
            else:
                out.append((p_inv(v), a))
        return out

    def power(e, k):
        v, a = e
        if k == 0:
            return ONE, True
        if v in (INF, NINF):
            return (INF if v is INF or k % 2 == 0 else NINF), False
        r = v
        for _ in range(k - 1):
            r = p_mul(r, v)
        return r, a

    def has(spec, p, line, n="#0"):
        return bool(iv.spec_mask(spec, p, line) >> line.seg(line.order[n]) & 1)

    def inside(r, e):
        """end point e belongs to (closure of) the interval read as r"""
        lo, lt, hi, ht = r
        v, att = e
        if v is INF: return ht == INFTY
        if v is NINF: return lt == INFTY
        if lt != INFTY:
            c = dom.cmp(lo, v)
            if c > 0 or (c == 0 and att and lt == STRICT): return False
        if ht != INFTY:
            c = dom.cmp(hi, v)
            if c < 0 or (c == 0 and att and ht == STRICT): return False
        return True

    def nonempty(r):
        lo, lt, hi, ht = r
        if lt == INFTY or ht == INFTY: return True
        c = dom.cmp(lo, hi)
        return c < 0 or (c == 0 and lt == WEAK and ht == WEAK)

    def encloses(r, corners):
        return nonempty(r) and all(inside(r, c) for c in corners)

    def pieces(rs, X):
        """the given intervals, in any order, cover the operand"""
        rs = [r for r in rs if nonempty(r)]
        lo, hi = X
        if not rs:
            return False
        # walk from the lower end
        cur, curatt = lo       # cur: covered below cur; curatt: cur itself still to be covered
        todo = list(rs)
        while True:
            prog = False
            for r in list(todo):
                l, lt, h, ht = r
                if lt != INFTY:
                    if cur is NINF:
                        continue
                    c = dom.cmp(l, cur)
                    if c > 0 or (c == 0 and lt == STRICT and curatt):
                        continue
                todo.remove(r)
                prog = True
                if ht == INFTY:
                    return True
                c = 1 if cur is NINF else dom.cmp(h, cur)
                if c > 0:
                    cur, curatt = h, ht == STRICT
                elif c == 0 and ht == WEAK:
                    curatt = False
                if hi[0] is not INF:
                    c = dom.cmp(cur, hi[0])
                    if c > 0 or (c == 0 and (not curatt or not hi[1])):
                        return True
            if not prog:
                return False

    BIN = {"add": "+", "opadd": "+", "addas": "+", "sub": "-", "opsub": "-", "subas": "-", "mul": "*", "opmul": "*", "mulas": "*", "hull": "hull", "div": "/", "divas": "/", "divext": "ext"}
    NUM = {"addn": "+", "nadd": "+", "addnas": "+", "subn": "-", "nsub": "rsub", "subnas": "-", "muln": "*", "nmul": "*", "mulnas": "*", "divn": "/", "divnas": "/"}
    UN = {"neg": "neg", "inverse": "neg", "inverseas": "neg", "abs": "abs", "absas": "abs", "fabs": "abs"}

    def work(item):
        q, specs, order, extra = item
        line = iv.Line(order)
        names = ("a", "b")[:len(specs)]
        alive = EMPTY not in specs

        def body():
            cells = [Cell(iv.make(sess, s, p)) for s, p in zip(specs, names)]
            X = ends(specs[0], "a") if specs[0] != EMPTY else None
            kind = BIN.get(q) if len(specs) == 2 else NUM.get(q) if extra == "n" else UN.get(q, q)
            if kind == "ext":
                x, y = Cell(I.call_root("q_mkdef")), Cell(I.call_root("q_mkdef"))
                f = I.call_root("q_divext", *cells, x, y)
                rs = [iv.read(sess, x.v)] + ([iv.read(sess, y.v)] if f else [])
                text = " / ".join(iv.show_iv(sess, c.v) for c in ([x, y] if f else [x]))
                if not alive:
                    return True, text
                parts = []
                Y = ends(specs[1], "b")
                m = iv.spec_mask(specs[1], "b", line)
                z = line.seg(order["#0"])
                if m >> (z + 1):       # positive part
                    parts.append(recip([Y[0] if sgn(Y[0][0]) > 0 else (ZERO, False), Y[1]], 1))
                if m & ((1 << z) - 1):
                    parts.append(recip([Y[0], Y[1] if sgn(Y[1][0]) < 0 else (ZERO, False)], -1))
                for R in parts:
                    cs = [mul(s, t) for s in X for t in R] + ([(ZERO, True)] if has(specs[0], "a", line) else [])
                    if not any(encloses(r, cs) for r in rs):
                        return False, text
                if has(specs[0], "a", line) and has(specs[1], "b", line) and not pieces(rs, [(NINF, False), (INF, False)]):
                    return False, text           # every q solves q * 0 = 0
                return True, text
            if kind == "split":
                r = val(I.call_root("q_split", *cells))
                rs = [iv.read(sess, r.first.v), iv.read(sess, r.second.v)]
                return (not alive or pieces(rs, X)), "%s / %s" % (iv.show_iv(sess, r.first.v), iv.show_iv(sess, r.second.v))
            if kind == "splitn":
                r = val(I.call_root("q_splitn", *cells, extra))
                return (not alive or pieces([iv.read(sess, c.v) for c in r.cells], X)), " / ".join(iv.show_iv(sess, c.v) for c in r.cells)
            if extra == "n":
                res = I.call_root("q_" + q, *cells, Cell(Sym.atom("n")))
            elif isinstance(extra, int):
                res = I.call_root("q_" + q, *cells, extra)
            else:
                res = I.call_root("q_" + q, *cells)
            r = iv.read(sess, res)
            text = iv.show_iv(sess, res)
            if kind == "hull":
                return all(not alive_ or encloses(r, ends(s, p)) for alive_, s, p in [(s != EMPTY, s, p) for s, p in zip(specs, names)]), text
            if not alive:
                return True, text
            cs = []
            n = (Sym.atom("n"), True)
            if len(specs) == 2:
                Y = ends(specs[1], "b")
                if kind == "+": cs = [add(X[0], Y[0]), add(X[1], Y[1])]
                elif kind == "-": cs = [add(X[0], neg(Y[1])), add(X[1], neg(Y[0]))]
                else:
                    if kind == "/":
                        Y = recip(Y, 1 if sgn(Y[0][0]) >= 0 else -1)
                    cs = [mul(s, t) for s in X for t in Y]
                    if has(specs[0], "a", line) or (kind == "*" and has(specs[1], "b", line)):
                        cs.append((ZERO, True))
            elif kind == "+": cs = [add(x, n) for x in X]
            elif kind == "-": cs = [add(x, neg(n)) for x in X]
            elif kind == "rsub": cs = [add(neg(x), n) for x in X]
            elif kind in ("*", "/"):
                if kind == "/":
                    n = (p_inv(n[0]), True)
                cs = [mul(x, n) for x in X]
                if has(specs[0], "a", line): cs.append((ZERO, True))
            elif kind == "neg": cs = [neg(x) for x in X]
            elif kind == "abs":
                cs = [x if sgn(x[0]) >= 0 else neg(x) for x in X]
                if has(specs[0], "a", line): cs.append((ZERO, True))
            elif kind in ("pow", "powas"):
                cs = [power(x, extra) for x in X]
                if has(specs[0], "a", line): cs.append((ONE if extra == 0 else ZERO, True))
            else:
                raise Unsupported("operation " + q)
            return encloses(r, cs), text
        desc = "%s%s(%s) with %s" % (q, "" if extra is None else " " + str(extra), "; ".join(iv.show_spec(s, p) for s, p in zip(specs, names)), iv.show_order(order))
        yield from iv.decide(sess, lambda: line.world(sess), "q_" + q, body, desc, "the result encloses every pointwise result", key="%s:%s" % (q, ";".join(iv.show_spec(s, p).replace(" ", "") for s, p in zip(specs, names))))
    items = []
    for s, o in iv.classes(("a", "b")):
        line = iv.Line(o)
        for q, k in BIN.items():
            if k == "/" and (EMPTY in s or has(s[1], "b", line)):
                continue
            items.append((q, s, o, None))
    for s, o in iv.classes(("a",), extra=("n",)):
        for q, k in NUM.items():
            if k == "/" and o["n"] == o["#0"]:
                continue
            items.append((q, s, o, "n"))
    for s, o in iv.classes(("a",)):
        for q in UN:
            items.append((q, s, o, None))
        for e in range(0, 9):
            items.append(("pow", s, o, e))
        items.append(("powas", s, o, 3))
        if s != (EMPTY,):
            items.append(("split", s, o, None))
            for n in (1, 2, 3):
                items.append(("splitn", s, o, n))
    pmap(chk, sess, items, work)
    for q in BIN:
        chk.require("obligations " + q, 1000)
    for q in NUM:
        chk.require("obligations " + q, 60)
    for q in UN:
        chk.require("obligations " + q, 20)
