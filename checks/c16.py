"""C16: interned objects.  Creation histories are interpreted on the real pools; library containers and hash values are modelled."""
import itertools
import bits, con, containers, iv, mp
import c21
from c20 import atoms, bv
from containers import H
from dom import AlgWorld
from interp import Cell, Ptr, Struct, Unsupported, val
from fractions import Fraction
from math import gcd
from models import Vec, Str, Smart
from session import Session, mute, pmap

RULE = "one object per content"


def run(chk):
    chk.rule("after every creation history two results are the same object (same id) exactly if their contents are equal, and the accessors return the contents asked for")
    chk.rule("freeing one monomial leaves the other entries of the pool and their ids, and a monomial created again gets an id no live monomial has")
    chk.assume("histories of up to three creations over the contents listed in the check; lookups in library containers compare elements with the program's equality (that hashes agree with it is C12); releases are analysed as calls of the pool's free function")
    managers(chk)
    vectors(chk)
    monomials(chk)
    constraints(chk)
    for g, n in (("sorts", 200), ("functions", 200), ("instances", 100), ("terms", 20), ("equalities", 100), ("bit-vector terms", 200), ("bit-vector constraints", 100), ("monomials", 700), ("releases", 100), ("constraints", 300)):
        chk.require("obligations " + g, n)


def histories(reqs, triples=True):
    """all pairs, and all triples that ask for the first content again"""
    for a, b in itertools.product(range(len(reqs)), repeat=2):
        yield (a, b)
        if triples and a != b:
            yield (a, b, a)


def unique(ids, keys):
    for i, j in itertools.combinations(range(len(ids)), 2):
        if (ids[i] == ids[j]) != (keys[i] == keys[j]):
            return "creations %d and %d have %s contents but ids %r and %r" % (i + 1, j + 1, "equal" if keys[i] == keys[j] else "different", ids[i], ids[j])
    return None


def managers(chk, gather=False):
    sess = Session("intern.cpp")
    containers.register(sess.models)
    mute(sess)
    I = sess.I
    TY = sess.prog.enum_by_name["carl::VariableType"]

    def call(q, *a):
        return val(I.call_root(q, *a))

    def world():
        return sess.world({})

    def string(s):
        return Cell(Str(s))

    def lst(q, push, xs):
        c = Cell(call(q))
        for x in xs:
            I.call_root(push, c, Cell(x) if q == "q_terms" else x)
        return c

    def sorts(xs): return lst("q_sorts", "q_psort", xs)
    def nums(xs): return lst("q_nums", "q_pnum", xs)
    def terms(xs): return lst("q_terms", "q_pterm", xs)

    def text(c):
        v = val(c)
        if not isinstance(v, Str):
            raise Unsupported("string %r" % (v,))
        return v.s

    def ids(v, q):
        v = val(v)
        if v is None:
            return ()
        v = val(v.cell()) if isinstance(v, Ptr) else v
        return tuple(q(c) for c in v.cells)

    def base():
        """sorts the histories start from: A, B, parametric P/1, Q/2, indexable BV"""
        call("q_declare", string("A"), 0)
        call("q_declare", string("B"), 0)
        call("q_declare", string("P"), 1)
        call("q_declare", string("Q"), 2)
        call("q_indexable", call("q_addi", string("BV"), TY["VT_BITVECTOR"]), 1, TY["VT_BITVECTOR"])
        return {n: call("q_get0", string(n)) for n in ("A", "B", "BV")}

    # a sort: (name, parameters, indices)
    A, B, BV = ("A", (), ()), ("B", (), ()), ("BV", (), ())
    SORTS = [A, B, BV, ("P", (A,), ()), ("P", (B,), ()), ("Q", (A, A), ()), ("Q", (A, B), ()), ("Q", (B, A), ()), ("P", (("P", (A,), ()),), ()),
             ("BV", (), (1,)), ("BV", (), (2,)), ("BV", (), (1, 2)), ("BV", (), (2, 1)), ("A", (), (1,)), ("P", (A,), (1,)), ("P", (("BV", (), (1,)),), ())]

    def sort(s, how=0):
        n, ps, ix = s
        if not ps and not ix:
            return call("q_get0", string(n))
        if how == 1 and ix:
            r = sort((n, ps, ix[:-1]), 1)
            return call("q_index", r, nums(ix[-1:]))
        if ps and ix:
            return call("q_getpi", string(n), nums(ix), sorts([sort(p) for p in ps]))
        if ps:
            return call("q_getp", string(n), sorts([sort(p) for p in ps]))
        return call("q_geti", string(n), nums(ix))

    def sid(s):
        return call("q_sid", copy(s))

    def copy(s):
        return val(s)

    def w_sorts(h):
        want = [SORTS[i] for i in h[1]]

        def body():
            base()
            rs = [sort(s, h[0] if k else 0) for k, s in enumerate(want)]
            why = unique([sid(r) for r in rs], want)
            if why:
                return False, why
            for r, (n, ps, ix) in zip(rs, want):
                if sid(r) == 0:
                    return False, "no sort"
                got = text(call("q_sname", r)), ids(call("q_sparams", r), sid), ids(call("q_sindices", r), lambda c: int(val(c)))
                if got != (n, tuple(sid(sort(p)) for p in ps), ix):
                    return False, "contents %r" % (got,)
                if call("q_sarity", r) != len(ps):
                    return False, "wrong arity"
                t = "VT_BITVECTOR" if n == "BV" and len(ix) <= 1 else "VT_UNINTERPRETED"
                if call("q_stype", r) != TY[t]:
                    return False, "type is not %s" % t
            for a, b in itertools.product(range(len(rs)), repeat=2):
                if bool(call("q_seq", rs[a], rs[b])) != (want[a] == want[b]):
                    return False, "wrong equality"
            return True, ""
        yield from iv.decide(sess, world, "q_getp", body, "sorts %s%s" % (", ".join(show(s) for s in want), " indexed one by one" if h[0] else ""), RULE, group="sorts")

    def show(s):
        return s[0] + ("(%s)" % ", ".join(map(show, s[1])) if s[1] else "") + ("".join("_%d" % i for i in s[2]))

    FUNS = [(n, d, c) for n in "fg" for d in ((), ("A",), ("B",), ("A", "B"), ("A", "A"), ("B", "A")) for c in "AB"]

    def fun(b, f):
        return call("q_uf", string(f[0]), sorts([b[x] for x in f[1]]), b[f[2]])

    def fid(f):
        return call("q_fid", Cell(f))

    def w_funs(h):
        want = [FUNS[i] for i in h]

        def body():
            b = base()
            rs = [fun(b, f) for f in want]
            why = unique([fid(r) for r in rs], want)
            if why:
                return False, why
            for r, f in zip(rs, want):
                got = text(call("q_fname", Cell(r))), ids(call("q_fdomain", Cell(r)), sid), sid(call("q_fcodomain", Cell(r)))
                if got != (f[0], tuple(sid(b[x]) for x in f[1]), sid(b[f[2]])):
                    return False, "contents %r" % (got,)
            for x, y in itertools.product(range(len(rs)), repeat=2):
                if bool(call("q_feq", Cell(rs[x]), Cell(rs[y]))) != (want[x] == want[y]):
                    return False, "wrong equality"
            return True, ""
        yield from iv.decide(sess, world, "q_uf", body, "functions %s" % ", ".join("%s: %s -> %s" % (f[0], "*".join(f[1]), f[2]) for f in want), RULE, group="functions")

    def plain(i):
        v = call("q_novar")
        mp.field(v, lambda x: type(x) is int).v = (i + 1) << 3 | TY["VT_UNINTERPRETED"]
        return v

    def var(b, i):
        return call("q_uvar", plain(i), b["A"])

    # terms: variable index or (function name, arguments); all of sort A
    AR = {"c": 0, "d": 0, "f": 1, "g": 1, "h": 2}
    TERMS = [0, 1, ("c",), ("d",), ("f", 0), ("f", 1), ("g", 0), ("h", 0, 1), ("h", 1, 0), ("h", 0, 0), ("f", ("f", 0)), ("f", ("c",)), ("h", ("f", 0), 1)]

    def inst(b, t, move):
        f = fun(b, (t[0], ("A",) * AR[t[0]], "A"))
        return call("q_instm" if move else "q_inst", Cell(f), terms([term(b, x) for x in t[1:]]))

    def term(b, t, move=False):
        if isinstance(t, int):
            return call("q_tvar", Cell(var(b, t)))
        return call("q_tinst", Cell(inst(b, t, move)))

    def w_inst(h):
        want = [TERMS[i] for i in h]

        def body():
            b = base()
            rs = [inst(b, t, k % 2) for k, t in enumerate(want)]
            why = unique([call("q_iid", Cell(r)) for r in rs], want)
            if why:
                return False, why
            for r, t in zip(rs, want):
                if fid(call("q_iuf", Cell(r))) != fid(fun(b, (t[0], ("A",) * AR[t[0]], "A"))):
                    return False, "another function"
                args = val(call("q_iargs", Cell(r)))
                if len(args.cells) != len(t) - 1 or not all(call("q_teq", c, Cell(term(b, x))) for c, x in zip(args.cells, t[1:])):
                    return False, "other arguments"
            return True, ""
        yield from iv.decide(sess, world, "q_inst", body, "instances %s" % ", ".join(map(tshow, want)), RULE, group="instances")

    def tshow(t):
        return "xyz"[t] if isinstance(t, int) else t[0] + ("(%s)" % ", ".join(map(tshow, t[1:])) if t[1:] else "")

    def w_terms(item):
        s, t = item

        def body():
            b = base()
            x, y = Cell(term(b, s)), Cell(term(b, t, True))
            eq = s == t
            if bool(call("q_teq", x, y)) != eq or bool(call("q_tne", x, y)) == eq:
                return False, "wrong equality"
            if bool(call("q_tlt", x, y)) + bool(call("q_tlt", y, x)) + eq != 1:
                return False, "not exactly one of less, equal, greater"
            if eq and call("q_thash", x) != call("q_thash", y):
                return False, "equal terms with different hashes"
            return sid(call("q_tdomain", x)) == sid(b["A"]), "domain"
        yield from iv.decide(sess, world, "q_teq", body, "terms %s and %s" % (tshow(s), tshow(t)), "terms are equal exactly if they denote the same object", group="terms")

    def w_eqs(item):
        (a, b_, n), (c, d, m), how = item

        def body():
            b = base()
            x = Cell(call("q_eq", Cell(term(b, a)), Cell(term(b, b_)), n))
            y = Cell(call("q_eq", Cell(term(b, c)), Cell(term(b, d)), m ^ (how > 0)))
            if how == 1:
                y = Cell(call("q_neg", y))
            if how == 2:
                y = Cell(call("q_inv", y, True))
            eq = n == m and sorted(map(repr, (a, b_))) == sorted(map(repr, (c, d)))
            if bool(call("q_eeq", x, y)) != eq or bool(call("q_ene", x, y)) == eq:
                return False, "wrong equality"
            if bool(call("q_elt", x, y)) + bool(call("q_elt", y, x)) + eq != 1:
                return False, "not exactly one of less, equal, greater"
            if eq and call("q_ehash", x) != call("q_ehash", y):
                return False, "equal equalities with different hashes"
            return bool(call("q_enegated", y)) == m, "negated"
        yield from iv.decide(sess, world, "q_eq", body, "%s%s%s and %s%s%s%s" % (tshow(a), "!=" if n else "=", tshow(b_), tshow(c), "!=" if m else "=", tshow(d), " negated twice" if how else ""),
                             "an equality and its mirror image are the same", group="equalities")

    def occurring(t):
        """variables and functions of a term"""
        if isinstance(t, int):
            return {t}, set()
        vs, fs = set(), {t[0]}
        for a in t[1:]:
            vs, fs = vs | occurring(a)[0], fs | occurring(a)[1]
        return vs, fs

    def w_gather(item):
        a, c = item

        def body():
            b = base()
            vs, fs = occurring(a)
            x, k = Cell(term(b, a)), "t"
            if c is not None:
                vs, fs = vs | occurring(c)[0], fs | occurring(c)[1]
                x, k = Cell(call("q_eq", x, Cell(term(b, c)), False)), "e"
            xs = [var(b, i) for i in range(2)]
            if {i for i, v in enumerate(xs) if call("q_%svars" % k, x, plain(i))} != vs or call("q_%snvars" % k, x) != len(vs):
                return False, "wrong variables"
            if {f for f in AR if call("q_%sfuns" % k, x, Cell(fun(b, (f, ("A",) * AR[f], "A"))))} != fs or call("q_%snfuns" % k, x) != len(fs):
                return False, "wrong functions"
            if k == "e" and ({i for i, v in enumerate(xs) if call("q_euvars", x, Cell(v))} != vs or call("q_enuvars", x) != len(vs)):
                return False, "wrong uninterpreted variables"
            return True, ""
        yield from iv.decide(sess, world, "q_tvars" if c is None else "q_evars", body, tshow(a) + ("" if c is None else "=" + tshow(c)), "the collected variables and functions are those that occur", group="uninterpreted terms")
    if gather:
        pmap(chk, sess, [(t, None) for t in TERMS] + list(itertools.product(TERMS, repeat=2)), w_gather)
        return
    pmap(chk, sess, [(k, h) for k in (0, 1) for h in histories(SORTS, False)] + [(0, h) for h in histories(SORTS[:9])], w_sorts)
    pmap(chk, sess, list(histories(FUNS)), w_funs)
    k = [i for i, t in enumerate(TERMS) if not isinstance(t, int)]
    pmap(chk, sess, [tuple(k[i] for i in h) for h in histories(k)], w_inst)
    pmap(chk, sess, list(itertools.product(TERMS, repeat=2)), w_terms)
    E = [(a, b, n) for a in TERMS[:6] for b in TERMS[:6] for n in (False, True)]
    pmap(chk, sess, [(x, y, h) for x in E for y in E for h in range(3) if h == 0 or x[0] in y[:2]], w_eqs)


def vectors(chk, gather=False):
    sess = c21.session()
    I = sess.I
    E = sess.prog.enum_by_name
    K, R = E["carl::BVTermType"], E["carl::BVCompareRelation"]

    def call(q, *a):
        return val(I.call_root(q, *[Cell(x) if isinstance(x, (Struct, Vec)) else x for x in a]))

    def build(t):
        if t[0] == "v":
            return call("q_var", c21.variable(sess, t[1], t[2]))
        if t[0] == "c":
            return call("q_const", bv(sess, bits.Bits([t[1] >> i & 1 for i in range(t[2])])))
        if t[0] == "EXTRACT":
            return call("q_ext", K[t[0]], build(t[1]), t[2], t[3])
        if t[0] in c21.UN:
            return call("q_un", K[t[0]], build(t[1]), t[2])
        return call("q_bin", K[t[0]], build(t[1]), build(t[2]))
    x, y, z = ("v", 1, 2), ("v", 2, 2), ("v", 3, 3)
    one, two = ("c", 1, 2), ("c", 2, 2)
    TERMS = [x, y, z, one, two, ("c", 1, 3), ("EXTRACT", z, 1, 0), ("EXTRACT", z, 2, 1), ("EXTRACT", z, 2, 0), ("NOT", x, 0), ("NOT", y, 0), ("NEG", x, 0), ("LROTATE", z, 1), ("LROTATE", z, 2), ("RROTATE", z, 1),
             ("EXT_U", x, 1), ("EXT_U", x, 2), ("EXT_S", x, 1), ("AND", x, y), ("AND", y, x), ("OR", x, y), ("ADD", x, y), ("SUB", x, y), ("SUB", y, x), ("ADD", x, one), ("ADD", x, two), ("CONCAT", x, z), ("CONCAT", z, x), ("ADD", ("NOT", x, 0), y)]

    def show(t):
        return "xyz"[t[1] - 1] if t[0] == "v" else str(t[1]) if t[0] == "c" else "%s(%s)" % (t[0], ", ".join(show(a) if isinstance(a, tuple) else str(a) for a in t[1:]))

    def canon(t):
        """contents of the term: those that fold or are normalised are described by what the accessors say"""
        k = next(n for n, v in K.items() if v == call("q_type", t))
        w = call("q_width", t)
        if k == "CONSTANT":
            return "c", tuple(c21.known(sess.dom, b) for b in c21.raw(sess, call("q_value", t)).b)
        if k == "VARIABLE":
            return "v", repr(call("q_variable", t))
        if k == "EXTRACT":
            return k, w, canon(call("q_operand", t)), call("q_highest", t), call("q_lowest", t)
        if call("q_isUnary", K[k]):
            return k, w, canon(call("q_operand", t)), call("q_index", t)
        return k, w, canon(call("q_first", t)), canon(call("q_second", t))

    def expected(t):
        if t[0] == "c":
            return "c", tuple(t[1] >> i & 1 for i in range(t[2]))
        if t[0] == "v":
            return "v", repr(val(c21.variable(sess, t[1], t[2])))
        if t[0] == "EXTRACT":
            return "EXTRACT", t[2] - t[3] + 1, expected(t[1]), t[2], t[3]
        if t[0] in c21.UN:
            return t[0], width(t), expected(t[1]), t[2]
        return t[0], width(t), expected(t[1]), expected(t[2])

    def width(t):
        if t[0] in "cv":
            return t[2]
        if t[0] == "EXTRACT":
            return t[2] - t[3] + 1
        if t[0] == "CONCAT":
            return width(t[1]) + width(t[2])
        return width(t[1]) + (t[2] if t[0] in ("EXT_U", "EXT_S") else 0)

    def occurring(t):
        return {t[1]} if t[0] == "v" else set().union(*[occurring(a) for a in t[1:] if isinstance(a, tuple)])

    def names(s):
        return sorted(c21.only(c.v.f[next(iter(c.v.f))].v).v >> 3 for c in s.cells)

    def w_gather(item):
        a, b = item

        def body():
            if b is None:
                got, want = names(call("q_vars", build(a))), occurring(a)
            else:
                c, want = call("q_constr", R["ULT"], build(a), build(b)), occurring(a) | occurring(b)
                got = names(call("q_cvars", c))
                for i in (1, 2, 3):
                    if bool(call("q_cvhas", c, next(iter(val(c21.variable(sess, i, 2)).f.values())).v)) != (i in want):
                        return False, "wrong variables"
            return got == sorted(want), "collects %s" % got
        yield from iv.decide(sess, lambda: sess.world({}), "q_vars" if b is None else "q_cvars", body, show(a) + ("" if b is None else " < " + show(b)), "the collected variables are those that occur", group="bit-vector terms")
    if gather:
        same = [(a, b) for a in TERMS for b in TERMS if width(a) == width(b) and not (a[0] == b[0] == "c") and a != b]
        pmap(chk, sess, [(t, None) for t in TERMS] + same, w_gather)
        return

    def w_terms(h):
        want = [TERMS[i] for i in h]

        def body():
            ts = [build(t) for t in want]
            ks = [canon(t) for t in ts]
            for t, k in zip(want, ks):
                if k != expected(t):
                    return False, "%s has contents %s" % (show(t), k)
            for i, j in itertools.combinations(range(len(ts)), 2):
                eq = bool(call("q_teq", ts[i], ts[j]))
                if want[i] == want[j] and not eq:
                    return False, "%s created twice gives two terms" % show(want[i])
                if eq != (ks[i] == ks[j]):
                    return False, "%s and %s: equal is %s" % (ks[i], ks[j], eq)
                if bool(call("q_tless", ts[i], ts[j])) + bool(call("q_tless", ts[j], ts[i])) + eq != 1:
                    return False, "not exactly one of less, equal, greater"
            return True, ""
        yield from iv.decide(sess, lambda: sess.world({}), "q_teq", body, "bit-vector terms %s" % ", ".join(map(show, want)), RULE, group="bit-vector terms")
    CONS = [(r, a, b) for r in ("EQ", "ULT", "SLE") for a, b in ((x, y), (y, x), (x, one), (one, x), (x, two), (x, x))]

    def w_cons(h):
        want = [CONS[i] for i in h]

        def body():
            cs = [call("q_constr", R[r], build(a), build(b)) for r, a, b in want]
            for c, (r, a, b) in zip(cs, want):
                if not call("q_cConst", c) and (call("q_crel", c), canon(call("q_cl", c)), canon(call("q_cr", c))) != (R[r], expected(a), expected(b)):
                    return False, "%s(%s, %s) has other contents" % (r, show(a), show(b))
            for i, j in itertools.combinations(range(len(cs)), 2):
                eq = bool(call("q_ceq", cs[i], cs[j]))
                ks = [(call("q_crel", c), canon(call("q_cl", c)), canon(call("q_cr", c))) if not call("q_cConst", c) else bool(call("q_cTrue", c)) for c in (cs[i], cs[j])]
                if want[i] == want[j] and not eq:
                    return False, "the same constraint created twice gives two"
                if eq != (ks[0] == ks[1]):
                    return False, "%s and %s: equal is %s" % (ks[0], ks[1], eq)
                if (call("q_cid", cs[i]) == call("q_cid", cs[j])) != eq:
                    return False, "ids %r and %r" % (call("q_cid", cs[i]), call("q_cid", cs[j]))
            return True, ""
        yield from iv.decide(sess, lambda: sess.world({}), "q_ceq", body, "bit-vector constraints %s" % ", ".join("%s(%s, %s)" % (r, show(a), show(b)) for r, a, b in want), RULE, group="bit-vector constraints")
    pmap(chk, sess, list(histories(TERMS)), w_terms)
    pmap(chk, sess, list(histories(CONS)), w_cons)


def monomials(chk):
    sess = mp.setup()
    env, I = mp.Env(sess), sess.I

    def world():
        return AlgWorld(sess.paths)

    def make(m, how):
        if how == 0:
            return env.mon(m)
        one = [i for i, e in enumerate(m) if e]
        if how == 1 and len(one) == 1:
            return I.call_root("q_mkmon", env.var(one[0]), m[one[0]])
        c = Cell(val(I.call_root("q_content")))
        for i in one:
            I.call_root("q_push", c, env.var(i), m[i])
        return I.call_root("q_mon2", c, sum(m) if how == 2 else 0)

    def ident(x):
        x = val(x)
        if not isinstance(x, Smart) or x.p is None:
            raise Unsupported("monomial %r" % (x,))
        return id(x.cell()), val(I.call_root("q_monid", Cell(x)))

    def w_mons(item):
        want, hows = item

        def body():
            ms = [make(m, k) for m, k in zip(want, hows)]
            ids = [ident(m) for m in ms]
            why = unique([i[0] for i in ids], want) or unique([i[1] for i in ids], want)
            if why:
                return False, why
            for m, w in zip(ms, want):
                if env.rmon(m) != w:
                    return False, "contents %r" % (env.rmon(m),)
                if val(I.call_root("q_tdegm", Cell(val(m)))) != sum(w):
                    return False, "total degree of %s" % mp.show(w)
            return True, ""
        yield from iv.decide(sess, world, "q_mon", body, "monomials %s created as %s" % (", ".join(map(mp.show, want)), hows), RULE, group="monomials")

    def w_free(item):
        a, b, c, which = item
        extra = (0, 0, 3)

        def body():
            live = [make(m, 0) for m in (a, b, c)]
            gone = live.pop(which)
            want = [a, b, c]
            again = want.pop(which)
            ids = [ident(m) for m in live]
            I.call_root("q_free", Ptr(val(gone).cell()))
            now = [ident(make(m, 0)) for m in want]
            if now != ids:
                return False, "freeing %s changed the entries of %s and %s" % (mp.show(again), mp.show(want[0]), mp.show(want[1]))
            r = ident(make(again, 0))
            if ident(make(extra, 0))[1] in [i[1] for i in ids] + [r[1]]:
                return False, "id of a live monomial given to another one"
            if r[0] == id(val(gone).cell()):
                return False, "%s is still in the pool after it was freed" % mp.show(again)
            if r[1] in [i[1] for i in ids]:
                return False, "id of a live monomial given again"
            return True, ""
        yield from iv.decide(sess, world, "q_free", body, "monomials %s, %s, %s, number %d freed" % (mp.show(a), mp.show(b), mp.show(c), which + 1),
                             "a release removes exactly the released monomial", group="releases")
    M = [m for m in mp.M9 if any(m)]
    pmap(chk, sess, [((a, b), (0, 1)) for a in M for b in M] + [((a, b, a), (i, 0, j)) for a in M[:12] for b in M[:12] for i in range(3) for j in range(3)], w_mons)
    pmap(chk, sess, [(a, b, c, k) for a, b, c in itertools.permutations(M[:7], 3) for k in range(3)], w_free)


def constraints(chk):
    sess = con.setup()
    I, dom = sess.I, sess.dom
    REL = sess.prog.enum_by_name["carl::Relation"]
    D = sess.prog.enum_by_name["carl::Definiteness"]
    X, Y, XY, ONE = (1, 0, 0), (0, 1, 0), (1, 1, 0), mp.ONEM
    FLIP = {"LESS": "GREATER", "GREATER": "LESS", "LEQ": "GEQ", "GEQ": "LEQ"}
    st = {}

    def coprime(I, fn, this, a):
        p = {m: Fraction(c) for m, c in st["env"].pval(this).items()}
        l = max(p, key=mp.mkey)
        n, d = 0, 1
        for c in p.values():
            n, d = gcd(n, c.numerator), d * c.denominator // gcd(d, c.denominator)
        f = Fraction(d, n) * (-1 if p[l] < 0 else 1)
        return poly({m: c * f for m, c in p.items()})
    for f in sess.prog.fns.values():
        n = f["qn"].split("::")[-1]
        if f["qn"].startswith("carl::MultivariatePolynomial") and n == "coprimeCoefficients":
            f["_model"] = coprime
        elif f["qn"] == "carl::definiteness" and "MultivariatePolynomial" in f["sig"]:
            f["_model"] = lambda I, fn, this, a: D["NON"]
        elif f["qn"].startswith("std::hash") and f["name"] == "operator()" and "MultivariatePolynomial" in f["sig"]:
            # one value per polynomial (C12), the same for polynomials of the same shape
            f["_model"] = lambda I, fn, this, a: sum(sum(m) for m in st["env"].pval(a[0]))

    def poly(p):
        return st["env"].poly([(m, p[m]) for m in sorted(p, key=mp.mkey)], True)
    POLYS = [{X: 1}, {X: 2}, {X: -1}, {Y: 1}, {X: 1, ONE: 1}, {X: 2, ONE: 2}, {X: 1, ONE: -1}, {X: -1, ONE: 1}, {X: 1, Y: 1}, {X: 1, Y: -1}, {XY: 1, X: 1}, {XY: 1, Y: 1}, {XY: -2, X: 1}]
    CONS = [(p, r) for p in POLYS for r in ("EQ", "NEQ", "LESS", "LEQ", "GREATER", "GEQ")]

    def canon(p, r):
        l = max(p, key=mp.mkey)
        n = 0
        for c in p.values():
            n = gcd(n, c)
        n = -n if p[l] < 0 else n
        return frozenset((m, c // n) for m, c in p.items()), FLIP.get(r, r) if n < 0 else r

    def show(c):
        return "%s %s 0" % (" + ".join("%s*%s" % (k, mp.show(m)) for m, k in c[0].items()), c[1])

    def call(q, *a):
        return val(I.call_root(q, *a))

    def work(h):
        want = [CONS[i] for i in h]

        def body():
            st["env"] = mp.Env(sess)
            cs = [Cell(call("q_poly", Cell(poly({m: Fraction(c) for m, c in p.items()})), REL[r])) for p, r in want]
            for i, j in itertools.combinations(range(len(cs)), 2):
                same = canon(*want[i]) == canon(*want[j])
                eq = bool(call("q_ceq", cs[i], cs[j]))
                ids = call("q_cid", cs[i]), call("q_cid", cs[j])
                if want[i] == want[j] and not eq:
                    return False, "created twice, but not equal"
                if eq != (ids[0] == ids[1]) or eq != (val(con.slot(sess, cs[i].v, "std::shared_ptr")).cell() is val(con.slot(sess, cs[j].v, "std::shared_ptr")).cell()):
                    return False, "ids %r, equal is %s" % (ids, eq)
                if eq and not same:
                    return False, "two different constraints are one object"
                if same and not eq:
                    return False, "constraints that normalise to the same are two objects"
                if bool(call("q_cless", cs[i], cs[j])) + bool(call("q_cless", cs[j], cs[i])) + eq != 1:
                    return False, "not exactly one of less, equal, greater"
            return True, ""
        yield from iv.decide(sess, lambda: AlgWorld(sess.paths), "q_poly", body, "constraints %s" % ", ".join(map(show, want)), RULE, group="constraints")
    n = len(CONS)
    pmap(chk, sess, [(i, j) for i in range(n) for j in range(n) if i <= j or (i + j) % 3 == 0] + [(i, j, i) for i in range(n) for j in range(i + 1, n, 7)], work)
