"""C12: equal objects have equal hashes.  Hash values are terms over opaque hashes of the leaves."""
import itertools
import bits, containers, iv, mp
from bits import Bit, Bits
from c20 import setup as bvsetup, atoms as bvatoms, bv
from containers import H
from dom import AlgWorld, Sym, ZERO
from interp import Cell, Infeasible, Unsupported, val
from iv import STRICT, WEAK, INFTY
from models import Str, Vec
from session import Session, mute, pmap

RULE = "whenever two objects compare equal their hash expressions are equal"


def run(chk):
    chk.rule("whenever the equality operator accepts two objects on a path, both hash functions evaluate to the same expression over the (uninterpreted) hashes of numbers, ids and strings")
    chk.assume("std::hash of numbers, ids, strings and bit blocks is a function of the value; all pairs of representations of bounded size (see level note)")
    polynomials(chk)
    intervals(chk)
    bitsets(chk)
    bitvectors(chk)
    uninterpreted(chk)
    for g, n in (("polynomial", 200), ("term", 30), ("monomial", 500), ("univariate", 40), ("nested", 200), ("interval", 1000), ("bitset", 50), ("bit-vector", 10), ("uninterpreted", 500)):
        chk.require("obligations " + g, n)
        chk.require("equal pairs " + g, n // 20 + 1)


def judge(sess, eq, hash, a, b, group, hb=None):
    """a, b: cells"""
    if not sess.I.truth(val(sess.I.call_root(eq, a, b))):
        return True, "different"
    x, y = val(sess.I.call_root(hash, a)), val(sess.I.call_root(hb or hash, b))
    same = x == y if isinstance(x, H) or isinstance(y, H) else int(x) == int(y)
    return same, "equal" if same else "equal objects with hashes %r and %r" % (x, y)


def decide(sess, world, q, body, desc, group):
    n = 0

    def b():
        nonlocal n
        r = body()
        n += r[1] == "equal"
        return r
    yield from iv.decide(sess, world, q, b, desc, RULE, group=group)
    if n:
        yield "count", "equal pairs " + group, n


def numbers(sess):
    sess.dom.number_key = lambda v: repr(sess.dom.w.norm(sess.dom.num(v)))


def leaves(sess):
    """std::hash of a rational is a function of its value"""
    def num(I, fn, this, a):
        return H("number", (sess.dom.number_key(val(a[0])),))
    n = 0
    for f in sess.prog.fns.values():
        if f.get("op") == "()" and "rec" in f and sess.prog.recs[f["rec"]]["name"].startswith("std::hash") and "mpq" in f["sig"] \
                and sess.I.strip(f["params"][0]["t"])["name"].replace("const ", "").startswith(("__gmp_expr", "mpq_class")):
            f["_model"] = num
            n += 1
    if not n:
        raise Unsupported("hash of rationals not found")


def polynomials(chk):
    sess = mp.setup()
    leaves(sess)
    del sess.I.overrides["carl::Monomial::hashContent"]
    for f in sess.prog.fns.values():
        if f["qn"] == "carl::Monomial::hashContent":
            f.pop("_model", None)
    numbers(sess)
    env, I = mp.Env(sess), sess.I

    def world():
        return AlgWorld(sess.paths)

    def poly(pfx, shape):
        ts = []
        for m in shape[0]:
            c = Sym.atom(pfx + mp.show(m))
            if env.zero(c):
                raise Infeasible()
            ts.append((m, c))
        return Cell(env.poly(ts, shape[1]))

    def w_poly(item):
        a, b = item
        yield from decide(sess, world, "q_hash_p", lambda: judge(sess, "q_eq_pp", "q_hash_p", poly("a", a), poly("b", b), "polynomial"),
                          "polynomials with terms %s and %s" % tuple("[%s]%s" % (", ".join(map(mp.show, s[0])), " ordered" if s[1] else "") for s in (a, b)), "polynomial")

    def w_term(item):
        m, n = item

        def body():
            a, b = Sym.atom("a"), Sym.atom("b")
            return judge(sess, "q_eq_tt", "q_hash_t", Cell(env.term(m, a)), Cell(env.term(n, b)), "term")
        yield from decide(sess, world, "q_hash_t", body, "terms a*%s and b*%s" % (mp.show(m), mp.show(n)), "term")

    def w_mon(item):
        m, n = item

        def body():
            return judge(sess, "q_eq_mm", "q_hash_m", Cell(env.mon(m)), Cell(env.mon(n)), "monomial")
        yield from decide(sess, world, "q_hash_m", body, "monomials %s and %s" % (mp.show(m), mp.show(n)), "monomial")
    def upoly(zero, v, cs):
        p = val(I.call_root(zero, env.var(v)))
        mp.field(p, lambda x: isinstance(x, Vec)).v = Vec([Cell(c) for c in cs])
        return Cell(p)

    def w_uni(item):
        n, x, m, y = item

        def poly(p, n, v):
            c = [Sym.atom("%s%d" % (p, i)) for i in range(n)]
            if n and env.zero(c[-1]):
                raise Infeasible()
            return upoly("q_uzero", v, c)
        yield from decide(sess, world, "q_hash_u", lambda: judge(sess, "q_eq_uu", "q_hash_u", poly("a", n, x), poly("b", m, y), "univariate"),
                          "polynomials with %d coefficients in %s and %d in %s" % (n, mp.VARS[x], m, mp.VARS[y]), "univariate")

    def w_nested(item):
        (x, a), (y, b) = item

        def build(p, v, shape):
            return upoly("q_upzero", v, [poly("%s%d" % (p, i), s).v for i, s in enumerate(shape)])

        def text(v, shape):
            return "polynomial in %s with coefficients %s" % (mp.VARS[v], ", ".join("[%s]" % ", ".join(map(mp.show, s[0])) for s in shape))
        yield from decide(sess, world, "q_hash_up", lambda: judge(sess, "q_eq_upup", "q_hash_up", build("a", x, a), build("b", y, b), "nested"),
                          text(x, a) + " and " + text(y, b), "nested")
    nested = []
    for v in (0, 1):
        other = tuple(int(i == 1 - v) for i in range(3))
        cs = [([], True), ([mp.ONEM], True), ([other], False), ([mp.ONEM, other], True)]
        nested += [(v, ())] + [(v, (c,)) for c in cs[1:]] + [(v, (c, d)) for c in cs for d in cs[1:]]
    sets = {}
    for s in mp.shapes(mp.M6, 3):
        sets.setdefault(frozenset(s[0]), []).append(s)
    for s in mp.shapes(mp.M8, 4):
        if len(s[0]) == 4:
            sets.setdefault(frozenset(s[0]), []).append(s)
    pmap(chk, sess, [(a, b) for v in sets.values() for a in v for b in v], w_poly)
    pmap(chk, sess, list(itertools.product(mp.M9, repeat=2)), w_term)
    pmap(chk, sess, [(n, x, m, y) for n in range(5) for m in range(5) for x in (0, 1) for y in (0, 1) if x == y or max(n, m) <= 3], w_uni)
    pmap(chk, sess, list(itertools.product(nested, repeat=2)), w_nested)
    pmap(chk, sess, list(itertools.product(mp.M9, repeat=2)), w_mon)


def intervals(chk):
    sess = Session("interval.cpp")
    containers.register(sess.models)
    leaves(sess)
    I, dom = sess.I, sess.dom
    FORMS = [("mk", s) for s in iv.ALL_SPECS] + [("lo", INFTY), ("up", INFTY)] + [("lob", INFTY), ("upb", INFTY)]

    def names(f, p):
        return iv.spec_names(f[1], p) if f[0] == "mk" else [p + "l", p + "u"]

    def build(f, p):
        if f[0] == "mk":
            return Cell(iv.make(sess, f[1], p))
        c = Cell(iv.make(sess, (WEAK, WEAK), p))
        if f[0] == "lo": I.call_root("q_setLowerBoundType", c, INFTY)
        if f[0] == "up": I.call_root("q_setUpperBoundType", c, INFTY)
        if f[0] == "lob": I.call_root("q_setLowerBound", c, Cell(Sym.atom(p + "l")), INFTY)
        if f[0] == "upb": I.call_root("q_setUpperBound", c, Cell(Sym.atom(p + "u")), INFTY)
        return c

    def text(f, p):
        return iv.show_spec(f[1], p) if f[0] == "mk" else "[%sl, %su] made unbounded %s%s" % (p, p, "below" if f[0][0] == "l" else "above", " by a new bound" if f[0][-1] == "b" else "")

    def work(item):
        fa, fb, order = item
        line = iv.Line(order)

        def body():
            dom.number_key = lambda v: line.position(sess, v)
            return judge(sess, "q_eq", "q_hash", build(fa, "a"), build(fb, "b"), "interval")
        yield from decide(sess, lambda: line.world(sess), "q_hash", body, "%s and %s with %s" % (text(fa, "a"), text(fb, "b"), iv.show_order(order)), "interval")
    items = []
    for fa, fb in itertools.product(FORMS, repeat=2):
        for o in iv.weak_orders(names(fa, "a") + names(fb, "b") + ["#0"]):
            ok = True
            for f, p in ((fa, "a"), (fb, "b")):
                ok = ok and (iv.spec_ok(f[1], p, o) if f[0] == "mk" else o[p + "l"] <= o[p + "u"])
            if ok:
                items.append((fa, fb, o))
    pmap(chk, sess, items, work)


def bitsets(chk):
    sess = Session("bitset.cpp")
    bits.register(sess.models)
    containers.register(sess.models)
    I = sess.I

    def work(item):
        n, d, m, e = item

        def make(p, n, d):
            return Cell(I.call_root("q_mk", Cell(Bits([Bit("%s%d" % (p, i)) for i in range(n)])), d))

        def body():
            # the hash must not depend on what comparing did to the storage
            a, b = make("a", n, d), make("b", m, e)
            x, y = val(I.call_root("q_hash", a)), val(I.call_root("q_hash", b))
            if not I.truth(val(I.call_root("q_eq", make("a", n, d), make("b", m, e)))):
                return True, "different"
            x, y = val(I.call_root("q_hash", a)), val(I.call_root("q_hash", b))
            return x == y, "equal" if x == y else "equal objects with hashes %r and %r" % (x, y)
        yield from decide(sess, lambda: sess.world({}), "q_hash", body, "%d bits, default %s and %d bits, default %s" % item, "bitset")
    pmap(chk, sess, [(n, d, m, e) for n in range(4) for m in range(4) for d in (False, True) for e in (False, True)], work)


def bitvectors(chk):
    sess = bvsetup()
    containers.register(sess.models)

    def work(item):
        n, m = item
        yield from decide(sess, lambda: sess.world({}), "q_hash", lambda: judge(sess, "q_eq", "q_hash", Cell(bv(sess, bvatoms("a", n))), Cell(bv(sess, bvatoms("b", m))), "bit-vector"),
                          "values of width %d and %d" % item, "bit-vector")
    pmap(chk, sess, [(n, m) for n in range(1, 5) for m in range(1, 5)], work)


def uninterpreted(chk):
    sess = Session("intern.cpp")
    containers.register(sess.models)
    mute(sess)
    I = sess.I

    def call(q, *a):
        return val(I.call_root(q, *a))

    def string(s):
        return Cell(Str(s))

    def lst(q, push, xs):
        c = Cell(call(q))
        for x in xs:
            I.call_root(push, c, x)
        return c

    def base():
        for n in "AB":
            call("q_declare", string(n), 0)
        return {n: call("q_get0", string(n)) for n in "AB"}

    def sorts(b, d):
        return lst("q_sorts", "q_psort", [b[x] for x in d])

    def var(b, i):
        v = call("q_novar")
        mp.field(v, lambda x: type(x) is int).v = (i + 1) << 3 | 5
        return call("q_uvar", v, b["A"])

    def term(b, t):
        if isinstance(t, int):
            return Cell(call("q_tvar", Cell(var(b, t))))
        f = Cell(call("q_uf", string(t[0]), sorts(b, "A" * (len(t) - 1)), b["A"]))
        return Cell(call("q_tinst", Cell(call("q_inst", f, terms(b, t[1:])))))

    def terms(b, ts):
        return lst("q_terms", "q_pterm", [term(b, t) for t in ts])

    def world():
        return sess.world({})

    def work(item):
        kind, x, y = item

        def body():
            b = base()
            if kind == "function":
                p, q = (call("q_fcont", string(n), sorts(b, d), b[c]).cell() for n, d, c in (x, y))
                return judge(sess, "q_k11", "q_k6", p, q, kind)
            if kind == "instance":
                p, q = (call("q_icont", Cell(call("q_uf", string(t[0]), sorts(b, "A" * (len(t) - 1)), b["A"])), terms(b, t[1:])).cell() for t in (x, y))
                return judge(sess, "q_k12", "q_k7", p, q, kind)
            if kind == "term":
                return judge(sess, "q_teq", "q_thash", term(b, x), term(b, y), kind)
            p, q = (Cell(call("q_eq", term(b, e[0]), term(b, e[1]), e[2])) for e in (x, y))
            if kind == "negation":
                q = Cell(call("q_neg", Cell(call("q_neg", q))))
            return judge(sess, "q_eeq", "q_ehash", p, q, kind)
        q = {"function": "q_k6", "instance": "q_k7", "term": "q_thash"}.get(kind, "q_ehash")
        yield from decide(sess, world, q, body, "%s %s and %s" % (kind, x, y), "uninterpreted")
    FUNS = [(n, d, c) for n in "fg" for d in ("", "A", "B", "AB", "BA") for c in "AB"]
    TERMS = [0, 1, ("c",), ("d",), ("f", 0), ("f", 1), ("h", 0, 1), ("h", 1, 0), ("f", ("f", 0))]
    INST = [t for t in TERMS if not isinstance(t, int)]
    EQS = [(a, b, n) for a in TERMS[:5] for b in TERMS[:5] for n in (False, True)]
    pmap(chk, sess, [("function", x, y) for x in FUNS for y in FUNS] + [("instance", x, y) for x in INST for y in INST] + [("term", x, y) for x in TERMS for y in TERMS]
         + [(k, x, y) for k in ("equality", "negation") for x in EQS for y in EQS if x[0] in y[:2]], work)
