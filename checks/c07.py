"""C07: relation, sign, bound-kind and bit-vector relation tables.  Complete enumeration of enum values."""
import itertools
import iv
from interp import Cell
from dom import Sym, ZERO
from models import Vec
from session import Session, pmap, weak_orders


def run(chk):
    chk.rule("for every relation and every sign/order class: inverse() complements, turn_around() mirrors, isStrict/isWeak "
             "match reflexivity of the relation, evaluate() is the mathematical truth value")
    chk.rule("sign_variations counts the changes in the sequence of non-zero signs and never leaves the range (all sign sequences up to length 5; "
             "the loop carries only the last sign)")
    chk.rule("bound-kind helpers are the max/min/complement of the strictness order with INFTY absorbing; bit-vector relation helpers obey the truth tables")
    sess = Session("tables.cpp")
    E = sess.prog.enum_by_name
    R, S, B, V = E["carl::Relation"], E["carl::Sign"], E["carl::BoundType"], E["carl::BVCompareRelation"]
    TR = {"EQ": {0}, "NEQ": {-1, 1}, "LESS": {-1}, "LEQ": {-1, 0}, "GREATER": {1}, "GEQ": {0, 1}}
    SG = {-1: "NEGATIVE", 0: "ZERO", 1: "POSITIVE"}
    name = lambda e, v: next((n for n, x in e.items() if x == v), "?%r" % (v,))
    if set(R) != set(TR):
        chk.error("relation enumerators changed: %s" % sorted(R))
        return
    jobs = []

    def job(q, args, exp, desc, rank=None):
        jobs.append((q, args, exp, desc, rank))

    for r, t in TR.items():
        neg = {-1, 0, 1} - t
        mir = {-x for x in t}
        job("q_inverse", (R[r],), lambda v, neg=neg: TR.get(name(R, v)) == neg, "inverse(%s)" % r)
        job("q_turn", (R[r],), lambda v, mir=mir: TR.get(name(R, v)) == mir, "turn_around(%s)" % r)
        job("q_isStrict", (R[r],), lambda v, t=t: bool(v) == (0 not in t), "isStrict(%s)" % r)
        job("q_isWeak", (R[r],), lambda v, t=t: bool(v) == (0 in t), "isWeak(%s)" % r)
        for s in (-1, 0, 1):
            job("q_evalS", (S[SG[s]], R[r]), lambda v, t=t, s=s: bool(v) == (s in t), "evaluate(%s, %s)" % (SG[s], r))
        for o in weak_orders(["a", "#0"]):
            s = (o["a"] > o["#0"]) - (o["a"] < o["#0"])
            job("q_evalQ", (Sym.atom("a"), R[r]), lambda v, t=t, s=s: bool(v) == (s in t), "evaluate(a, %s) with %s" % (r, iv.show_order(o)), o)
        for o in weak_orders(["a", "b", "#0"]):
            s = (o["a"] > o["b"]) - (o["a"] < o["b"])
            for q in ("q_evalQQ", "q_evalZZ"):
                job(q, (Sym.atom("a"), R[r], Sym.atom("b")), lambda v, t=t, s=s: bool(v) == (s in t), "evaluate(a, %s, b) with %s" % (r, iv.show_order(o)), o)
    for o in weak_orders(["a", "#0"]):
        s = (o["a"] > o["#0"]) - (o["a"] < o["#0"])
        for q in ("q_sgnQ", "q_sgnZ", "q_sgnI"):
            job(q, (Sym.atom("a"),), lambda v, s=s: v == S[SG[s]], "sgn(a) with %s" % iv.show_order(o), o)
    PR = {"EQ": "=", "NEQ": "!=", "LESS": "<", "LEQ": "<=", "GREATER": ">", "GEQ": ">="}
    for r in R:
        job("q_strR", (R[r],), lambda v, r=r: v.s == PR[r], "toString(%s)" % r)
    for n in range(0, 6):
        for seq in itertools.product((-1, 0, 1), repeat=n):
            nz = [x for x in seq if x]
            exp = sum(1 for a, b in zip(nz, nz[1:]) if a != b)
            job("q_varS", ("signs", seq), lambda v, exp=exp: v == exp, "sign_variations(%s)" % "".join("-0+"[x + 1] for x in seq))
            job("q_varF", ("nums", seq), lambda v, exp=exp: v == exp, "sign_variations(%s, f)" % "".join("-0+"[x + 1] for x in seq))
    st = {"STRICT": 0, "WEAK": 1, "INFTY": 2}
    for a, b in itertools.product(st, st):
        w = "INFTY" if "INFTY" in (a, b) else "WEAK" if "WEAK" in (a, b) else "STRICT"
        s = "INFTY" if "INFTY" in (a, b) else "STRICT" if "STRICT" in (a, b) else "WEAK"
        job("q_weakest", (B[a], B[b]), lambda v, w=w: v == B[w], "getWeakestBoundType(%s, %s)" % (a, b))
        job("q_strictest", (B[a], B[b]), lambda v, s=s: v == B[s], "getStrictestBoundType(%s, %s)" % (a, b))
    for a, o in (("STRICT", "WEAK"), ("WEAK", "STRICT"), ("INFTY", "INFTY")):
        job("q_other", (B[a],), lambda v, o=o: v == B[o], "getOtherBoundType(%s)" % a)
    # bit-vector relations: truth over (unsigned order, signed order); equality coincides in both
    cases = [(0, 0)] + [(u, s) for u in (-1, 1) for s in (-1, 1)]

    def vt(n):
        if n in ("EQ", "NEQ"):
            return {c for c in cases if (c == (0, 0)) == (n == "EQ")}
        k = 0 if n[0] == "U" else 1
        t = {"LT": {-1}, "LE": {-1, 0}, "GT": {1}, "GE": {0, 1}}[n[1:]]
        return {c for c in cases if c[k] in t}
    VP = {"EQ": "=", "NEQ": "<>"}
    for r in V:
        t = vt(r)
        job("q_vinverse", (V[r],), lambda v, t=t: name(V, v) in V and vt(name(V, v)) == set(cases) - t, "inverse(%s)" % r)
        job("q_vstrict", (V[r],), lambda v, t=t: bool(v) == ((0, 0) not in t), "relationIsStrict(%s)" % r)
        job("q_vsigned", (V[r],), lambda v, r=r: bool(v) == (r[0] == "S"), "relationIsSigned(%s)" % r)
        job("q_strV", (V[r],), lambda v, r=r: v.s == VP.get(r, "bv" + r.lower()), "toString(%s)" % r)
        job("q_idV", (V[r],), lambda v, r=r: v == V[r], "toId(%s)" % r)

    def work(i):
        q, args, exp, desc, order = jobs[i]
        line = iv.Line(order if order else {"#0": 0})

        def body():
            a = args
            if args and args[0] == "signs":
                a = (Cell(Vec([Cell(S[SG[x]]) for x in args[1]])),)
            elif args and args[0] == "nums":
                from fractions import Fraction
                a = (Cell(Vec([Cell(Fraction(x)) for x in args[1]])),)
            r = sess.I.call_root(q, *a)
            return exp(r), repr(r)
        yield from iv.decide(sess, lambda: line.world(sess), q, body, desc, "table entry")
    pmap(chk, sess, range(len(jobs)), work)
    for q, n in (("inverse", 6), ("turn", 6), ("evalS", 18), ("evalQQ", 78), ("varS", 364), ("vinverse", 10), ("weakest", 9)):
        chk.require("obligations " + q, n)
