"""C35: interval evaluation encloses the polynomial, contraction keeps the solutions.
Enclosure domain: an abstract interval is the set of expressions whose value it is known to contain."""
import itertools
from fractions import Fraction
import con, mp
from interp import AssertFail, Cell, Infeasible, Native, Unsupported, val, copyval
from dom import AlgWorld, Sym, ZERO, ONE, p_add, p_mul, p_neg, p_sub
from models import Vec
from session import pmap

X = [Sym.atom("X%d" % i) for i in range(3)]
INFTY = 2


def power(e, n):
    r = ONE
    for _ in range(n):
        r = p_mul(r, e)
    return r


def expr(poly):
    """value of {exponents: coefficient} at the point X"""
    r = ZERO
    for m, c in poly.items():
        for i, k in enumerate(m):
            c = p_mul(c, power(X[i], k))
        r = p_add(r, c)
    return r


class Encl(Native):
    fits = ("carl::Interval",)
    count = 0

    def __init__(self, s=(), top=False, empty=False):
        self.s, self.top, self.empty = list(s), top, empty
        Encl.count += 1
        self.tok = Encl.count

    def copy(self):
        r = Encl(self.s, self.top, self.empty)
        r.tok = self.tok
        return r

    def __repr__(self):
        return "everything" if self.top else "empty" if self.empty else "{%s}" % ", ".join(map(str, self.s))


class Model:
    def __init__(self, sess):
        self.sess, self.I, self.dom = sess, sess.I, sess.dom
        self.reset()
        M = sess.models
        old = M.record_default

        def record_default(I, rec):
            return Encl() if rec["name"].split("<")[0] == "carl::Interval" else old(I, rec)
        M.record_default = record_default
        P = sess.prog
        for f in P.fns.values():
            rec = P.recs.get(f.get("rec"))
            if rec is not None:
                hit = rec["name"].split("<")[0] == "carl::Interval"
            else:
                hit = any(P.types[p["t"]]["name"].replace("const ", "").startswith("carl::Interval<") for p in f["params"])
            if hit and f.get("op") != "<<" and f["file"].startswith("/") and f["qn"].startswith("carl::"):
                f["_model"] = self.call

    def reset(self, point=None, sign=None, integer=False, ranged=None):
        """sign of X0, whether it is an integer, (expression, sign) of the value compared with 0"""
        self.sign, self.integer, self.ranged = sign, integer, ranged
        self.facts, self.places = set(), {}
        Encl.count = 0

    def place(self, key):
        """bounds are only compared with each other: any order of them"""
        if key not in self.places:
            at = sorted(self.places.values())
            i = self.dom.w.paths.choose(len(at) + 1) if at else 0
            lo = at[i - 1] if i else (at[0] - 2 if at else Fraction(0))
            hi = at[i] if i < len(at) else lo + 2
            self.places[key] = (lo + hi) / 2
        return self.places[key]

    def known(self, a, b):
        return self.dom.w.norm(p_sub(a, b)) == ZERO

    def has(self, e, v):
        return e.top or any(self.known(x, v) for x in e.s)

    def fork(self):
        return bool(self.dom.w.paths.choose(2))

    def both(self, a, b):
        return a.top and (b.top or b.s) or b.top and a.s or any(self.known(x, y) for x in a.s for y in b.s)

    def op(self, a, b, f):
        if a.empty or b.empty:
            return Encl(empty=True)
        if a.top or b.top:
            return Encl(top=True)
        return Encl([f(x, y) for x in a.s for y in b.s])

    def num(self, v):
        v = val(v)
        return v if isinstance(v, Encl) else Encl([self.dom.num(v)])

    def call(self, I, fn, this, a):
        if fn.get("ctor"):
            this.v = self.ctor(fn, [val(x) for x in a])
            return None
        n, o = fn["name"], fn.get("op")
        if o == "=":
            this.v = copyval(val(a[0])) if isinstance(val(a[0]), Encl) else self.num(a[0])
            return this
        args = ([this] if this is not None else []) + list(a)
        vs = [val(x) for x in args]
        bin = {"+": p_add, "-": p_sub, "*": p_mul}
        names = {"add": "+", "sub": "-", "mul": "*", "add_assign": "+=", "sub_assign": "-=", "mul_assign": "*="}
        o = o or names.get(n)
        if o in bin and len(vs) == 2:
            return self.op(self.num(vs[0]), self.num(vs[1]), bin[o])
        if o in ("+=", "-=", "*="):
            args[0].v = self.op(self.num(vs[0]), self.num(vs[1]), bin[o[0]])
            return args[0]
        if o == "-" or n == "inverse":
            e = vs[0]
            return Encl([p_neg(x) for x in e.s], e.top, e.empty)
        if n in ("pow", "pow_assign"):
            e, k = vs[0], vs[1]
            if type(k) is not int:
                raise Unsupported("abstract exponent")
            r = Encl([power(x, k) for x in e.s], e.top and k == 1, e.empty)
            if n == "pow_assign":
                args[0].v = r
                return None
            return r
        if n == "emptyInterval":
            return Encl(empty=True)
        if n == "unboundedInterval":
            return Encl(top=True)
        if n == "isEmpty":
            return vs[0].empty or not (vs[0].top or vs[0].s) and self.fork()
        if n == "isZero":
            e = vs[0]
            if e.empty or e.top or not self.fork():
                return False
            for x in e.s:
                if not self.dom.cmp_op("==", x, ZERO):
                    raise Infeasible()
            return True
        if n in ("isUnbounded", "isHalfBounded"):
            e = vs[0]
            return e.top and n == "isUnbounded" or not e.empty and not e.top and self.fork()
        if n == "isInfinite":
            e = vs[0]
            if e.empty or not e.top and not self.fork():
                return False
            e.top = True
            return True
        if n == "isConsistent":
            return True
        if n in ("lower", "upper"):
            return self.place((n, vs[0].tok))
        if n == "div_ext":
            num, den = vs[0], vs[1]
            got = []
            for x in num.s:
                for d in den.s:
                    got += [power(X[0], k) for k in range(5) if self.known(p_mul(d, power(X[0], k)), x)]
            top = num.top or den.top
            return self.pair(got, top, args[2], args[3])
        if n == "root":
            e, k = vs
            if e.top:
                return Encl(top=True)
            got = []
            for x in e.s:
                if self.known(x, power(X[0], k)):
                    got.append(X[0] if k % 2 or self.sign > 0 else p_neg(X[0]))
            return Encl(got, False, e.empty)
        if n == "integralPart":
            e = vs[0]
            keep = [x for x in e.s if self.integer and (self.known(x, X[0]) or self.known(p_neg(x), X[0]))]
            return Encl(keep, False, e.empty)
        if n == "set_have_intersection":
            if vs[0].empty or vs[1].empty:
                return False
            r = True if self.both(vs[0], vs[1]) else self.fork()
            if r:
                self.facts.add(frozenset((vs[0].tok, vs[1].tok)))
            return r
        if n == "set_intersection":
            x, y = vs
            if x.empty or y.empty:
                return Encl(empty=True)
            return Encl([e for e in x.s if self.has(y, e)] + [e for e in y.s if x.top], x.top and y.top)
        if n == "set_union":
            x, y = vs[0].copy(), vs[1].copy()
            s, top = x.s + y.s, x.top or y.top
            if x.empty or y.empty or x.tok == y.tok or frozenset((x.tok, y.tok)) in self.facts or self.both(x, y):
                args[2].v = Encl(s, top, x.empty and y.empty)
                args[3].v = Encl(empty=True)
                return False
            return self.pair(s, top, args[2], args[3])
        raise Unsupported("interval operation " + fn["qn"] + " " + fn["sig"])

    def pair(self, s, top, a, b):
        """result of an operation that may split"""
        if top or not self.fork():
            a.v, b.v = Encl(s, top), Encl(empty=True)
            return False
        first = not s or self.fork()
        a.v, b.v = Encl(s if first else ()), Encl(() if first else s)
        return True

    def ctor(self, fn, a):
        if not a:
            return Encl(empty=True)
        if len(a) == 1:
            return a[0].copy() if isinstance(a[0], Encl) else self.num(a[0])
        z = lambda v: self.dom.num(v) == ZERO
        if len(a) == 2 and self.known(self.dom.num(a[0]), self.dom.num(a[1])):
            return self.num(a[0])
        if len(a) == 4 and z(a[0]) and z(a[2]) and type(a[1]) is int and type(a[3]) is int:
            s = []
            low = a[1] == INFTY
            up = a[3] == INFTY
            if not low and not up and not (a[1] == 1 and a[3] == 1):
                return Encl(empty=True)
            if low and up:
                return Encl(top=True)
            if (low or a[1] == 1) and (up or a[3] == 1):
                s.append(ZERO)
            if self.ranged is not None:
                e, sg = self.ranged
                if sg > 0 and up or sg < 0 and low or sg == 0 and s:
                    s.append(e)
            return Encl(s)
        raise Unsupported("interval constructor " + fn["sig"])


class Env(mp.Env):
    integer = False

    def var(self, i):
        v = mp.Env.var(self, i)
        if self.integer:
            mp.field(v, lambda x: type(x) is int).v += 1
        return v


def run(chk):
    chk.rule("every interval computed on a path carries the expressions whose value it contains at an arbitrary point of the box; the interval returned by "
             "evaluating a monomial, term, polynomial or Horner scheme must contain the polynomial's value there")
    chk.rule("for an arbitrary solution of the constraint inside the box, one of the intervals returned by a contraction contains its coordinate")
    chk.assume("interval arithmetic, extended division and set operations are sound on the operands (C03, C05), roots are sound; floating point "
               "intervals enclose their exact counterparts")
    chk.assume("polynomials of up to three terms, exponents at most three, two variables; coefficients are opaque non-zero rationals")
    sess = mp.setup("enclosure.cpp")
    I = sess.I
    env, model = Env(sess), Model(sess)
    R = sess.prog.enum_by_name["carl::Relation"]

    def box(kind, enc):
        m = Cell(val(I.call_root("q_map" + kind)))
        for i in range(2):
            I.call_root("q_put" + kind, m, env.var(i), Cell(Encl([X[i]])))
        return m

    def evaluation(q, shape):
        kind = "i" if q in ("q_emonoi", "q_etermi", "q_epolyi", "q_euni") else "d"
        cs = ["c%d" % i for i in range(len(shape))]

        def body():
            model.reset()
            env.integer = False
            poly = dict(zip(shape, map(Sym.atom, cs)))
            if "mono" in q:
                arg, poly = env.mon(shape[0]), {shape[0]: ONE}
            elif "term" in q:
                arg = env.term(shape[0], poly[shape[0]])
            elif q == "q_euni":
                v = Cell(val(I.call_root("q_cq")))
                for k in range(max([m[0] for m in shape] + [-1]) + 1):
                    I.call_root("q_pushq", v, Cell(poly.get((k, 0, 0), ZERO)))
                arg = val(I.call_root("q_mku", env.var(0), v))
            elif q == "q_eunip":
                v = Cell(val(I.call_root("q_cp")))
                for k in range(max([m[0] for m in shape] + [-1]) + 1):
                    part = [((0,) + m[1:], c) for m, c in poly.items() if m[0] == k]
                    I.call_root("q_pushp", v, Cell(env.poly(sorted(part, key=lambda x: mp.mkey(x[0])), True)))
                arg = val(I.call_root("q_mkup", env.var(0), v))
            else:
                arg = env.poly(sorted(poly.items(), key=lambda x: mp.mkey(x[0])), True)
            r = val(I.call_root(q, Cell(arg), box(kind, None)))
            return model.has(r, expr(poly)), "contains %r, value is %s" % (r, expr(poly))
        yield from judge(q, body, cs, "value of the polynomial with monomials %s" % show(shape), "enclosure")

    def contraction(q, shape, rel, sg, xs, integer=False):
        cs = ["c%d" % i for i in range(len(shape))]

        def body():
            poly = dict(zip(shape, map(Sym.atom, cs)))
            e = expr(poly)
            model.reset(sign=xs, integer=integer, ranged=(e, sg))
            env.integer = integer
            lhs = env.poly(sorted(poly.items(), key=lambda x: mp.mkey(x[0])), True)
            var = [i for i in range(2) if any(m[i] for m in shape)]
            c = con.constraint(sess, R[rel], lhs, var, env)
            v = env.var(0)
            r = val(I.call_root(q, Cell(c), v, box("d", None)))
            return any(model.has(x.v, X[0]) for x in r.cells), "returns %s" % [x.v for x in r.cells]
        yield from judge(q, body, cs, "%s 0 solved for x, monomials %s, left-hand side of sign %d, x %s 0" % (rel, show(shape), sg, "<" if xs < 0 else ">=") + (", integers" if integer else ""), "solution kept")

    def union(n, at):
        def body():
            model.reset()
            c = Cell(Vec([Cell(Encl([X[0]] if i == at else ())) for i in range(n)]))
            I.depth = 0
            I.invoke(norm[0], Cell(I.default_struct(con.record(sess, "carl::contractor::Evaluation"))), [c])
            return any(model.has(x.v, X[0]) for x in c.v.cells), "leaves %s" % [x.v for x in c.v.cells]
        yield from judge(None, body, (), "%d intervals, number %d contains the solution" % (n, at + 1), "union of the intervals kept",
                         "%s:%s %s" % (norm[0]["file"], norm[0]["line"], norm[0]["qn"]))

    def judge(q, body, cs, desc, rule, where=None):
        mkworld = lambda: AlgWorld(sess.paths, cs)
        for o in sess.explore(mkworld, body):
            yield ("count", "obligations " + (q[2:] if q else "union"), 1)
            if o.kind != "ok" or not o.v[0]:
                yield ("violation", dict(rule=rule, where=where or sess.target(q), instance=desc,
                       detail="%s; path %s" % (o.v[1] if o.kind == "ok" else "%s %s" % (o.kind, o.msg), " -> ".join(sess.trace(body, mkworld)))))
                return

    def show(shape):
        return ", ".join("".join("%s%s" % ("xyz"[i], "^%d" % k if k > 1 else "") for i, k in enumerate(m) if k) or "1" for m in shape) or "none"
    monos = [(i, j, 0) for i in range(4) for j in range(3) if i + j <= 4]
    shapes = [()] + [s for n in (1, 2, 3) for s in itertools.combinations(monos, n)]
    items = []
    for s in shapes:
        for q in ("q_emonod", "q_emonoi"):
            if len(s) == 1 and any(s[0]):
                items.append((evaluation, q, s))
        for q in ("q_etermd", "q_etermi"):
            if len(s) == 1:
                items.append((evaluation, q, s))
        for q in ("q_epolyd", "q_epolyi", "q_eunip"):
            items.append((evaluation, q, s))
        if not any(m[1] for m in s):
            items.append((evaluation, "q_euni", s))
        if s:
            items += [(evaluation, q, s) for q in ("q_ehorner", "q_ehorners")]
    csh = [s for s in shapes if s and any(m[0] for m in s) and max(sum(m) for m in s) <= 3]
    even = [s for s in csh if max(m[0] for m in s) == 2]
    odd = [s for s in csh if max(m[0] for m in s) % 2]
    items += [(contraction, "q_contract", s, rel, 0 if rel == "EQ" else -1, xs, ty) for s in even for rel in ("EQ", "LESS") for xs in (-1, 1)
              for ty in ((False, True) if len(s) < 3 else (False,))]
    items += [(contraction, "q_contract", s, rel, sg, xs) for s in odd for rel in con.TRUTH if rel != "NEQ" and (len(s) < 3 or rel in ("EQ", "LESS"))
              for sg in con.TRUTH[rel] for xs in (-1, 1)]
    items += [(contraction, "q_contract", s, "EQ", 0, xs, True) for s in odd if len(s) < 3 for xs in (-1, 1)]
    # the step that merges the computed intervals is analysed on its own
    norm = [f for f in sess.prog.fns.values() if (sess.prog.recs.get(f.get("rec")) or {"name": ""})["name"].split("<")[0] == "carl::contractor::Evaluation"
            and len(f["params"]) == 1 and sess.prog.types[f["params"][0]["t"]]["name"].startswith("std::vector<carl::Interval<double>") and "body" in f]
    if len(norm) == 1:
        items += [(union, n, at) for n in (1, 2, 3, 4) for at in range(n)]

    fs = {f.__name__: f for f in (evaluation, contraction, union)}

    def whole(I, fn, this, a):
        ts, _ = env.terms(val(a[0]))
        return Encl([expr(dict(ts))])

    def one(it):
        for f in sess.prog.fns.values():
            if f["qn"] == "carl::IntervalEvaluation::evaluate":
                f["_model"] = whole if it[0] is contraction else None
        for f in norm if len(norm) == 1 else ():
            f["_model"] = (lambda I, fn, this, a: None) if it[0] is contraction else None
        yield from it[0](*it[1:])
    pmap(chk, sess, [(it[0].__name__,) + it[1:] for it in items], lambda it: one((fs[it[0]],) + it[1:]))
    if len(norm) == 1:
        chk.require("obligations union", 100)
    for q in ("emonod", "emonoi", "etermd", "etermi", "epolyd", "epolyi", "euni", "eunip", "ehorner", "ehorners", "contract"):
        chk.require("obligations " + q, 3)
