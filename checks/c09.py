"""C09: verdicts of constraints over interval boxes."""
import itertools
import con, iv, mp
from interp import Cell, Unsupported, val
from dom import AlgWorld, Sym, ZERO, ONE
from session import pmap


def run(chk):
    chk.rule("for every relation and every class of the enclosure of the left-hand side (order type of its bounds and 0, bound kinds): 'consistent' only "
             "if every number of the enclosure satisfies the relation, 'inconsistent' only if none does, undecided only if the enclosure has both kinds")
    chk.rule("a reported stricter relation is equivalent to the relation on the enclosure; without an interval for one of the variables the answer is undecided; "
             "without variables the constant decides")
    chk.rule("with an assignment the answer is the relation of the substituted left-hand side, and undecided exactly when variables remain")
    chk.assume("the interval evaluation of the left-hand side is an arbitrary enclosure (its soundness is C35); bounds are only compared and copied; "
               "consistentWith may leave != undecided on the enclosure {0}")
    sess = con.setup()
    I = sess.I
    R = sess.prog.enum_by_name["carl::Relation"]
    if set(R) != set(con.TRUTH):
        chk.error("relation enumerators changed: %s" % sorted(R))
        return
    cell = {}

    def encl(I, fn, this, a):
        if a[0] is not cell.get("lhs") and val(a[0]) is not cell["lhs"]:
            raise Unsupported("interval evaluation of something else than the left-hand side")
        cell["calls"] += 1
        return cell["make"]()
    I.override("carl::IntervalEvaluation::evaluate", encl)
    name = {v: k for k, v in R.items()}
    # query, interval prefix, how it answers
    QS = [("q_consistent", "d", {0: False, 1: True, 2: None}), ("q_consistent2", "d", {0: False, 1: True, 2: None}),
          ("q_evaluate", "", {0: False, 3: True, 2: None, 1: 0})]

    def judge(got, sg, rel, q, spec0):
        """None when the answer is right for an enclosure with the signs sg"""
        t = con.TRUTH[rel]
        if not sg:
            return None                      # nothing in the box
        every, none = sg <= t, not (sg & t)
        if got is True:
            return None if every else "'consistent', but the enclosure contains numbers violating the relation"
        if got is False:
            return None if none else "'inconsistent', but the enclosure contains numbers satisfying the relation"
        if got == 0 and got is not None:
            return None if sg & t == {0} else "'only with value 0', but the enclosure satisfies the relation elsewhere"
        if every or none and not (rel == "NEQ" and sg == {0} and q != "q_evaluate" and q != "q_tri"):
            return "undecided, but the enclosure decides the relation"
        return None

    def box(q, spec, order, rel):
        line = iv.Line(order)
        pre, table = next((p, t) for n, p, t in QS if n == q)
        sg = con.signs(iv.spec_mask(spec, "a", line), line)

        def body():
            env = mp.Env(sess)
            lhs = env.poly([((1, 0, 0), Sym.atom("c"))], True)
            cell.update(lhs=lhs, calls=0, make=lambda: con.make(sess, spec, "a", pre))
            c = con.constraint(sess, R[rel], lhs, (0,))
            m = Cell(val(I.call_root("q_map" + (pre or "i"))))
            I.call_root("q_put" + (pre or "i"), m, env.var(0), Cell(con.make(sess, (2, 2), "z", pre)))
            if q == "q_consistent2":
                r = Cell(R[rel])
                got = I.call_root(q, Cell(c), m, r)
            else:
                r = None
                got = I.call_root(q, Cell(c), m)
            if type(got) is not int or got not in table:
                return False, "answers %r" % (got,)
            why = judge(table[got], sg, rel, q, spec)
            if why is None and r is not None:
                t = con.TRUTH.get(name.get(val(r)), None)
                if t is None or got == 2 and sg & t != sg & con.TRUTH[rel]:
                    why = "reports the relation %s" % name.get(val(r))
            return why is None, why or ""
        desc = "%s 0 on %s with %s" % (rel, iv.show_spec(spec, "a"), iv.show_order(order))
        yield from iv.decide(sess, lambda: line.world(sess), q, body, desc, "sound verdict")

    def tri(spec, order, rel):
        line = iv.Line(order)
        sg = con.signs(iv.spec_mask(spec, "a", line), line)

        def body():
            got = val(I.call_root("q_tri", iv.make(sess, spec, "a"), R[rel]))
            why = judge(got.value, sg, rel, "q_tri", spec)
            return why is None, why or ""
        desc = "%s 0 on %s with %s" % (rel, iv.show_spec(spec, "a"), iv.show_order(order))
        yield from iv.decide(sess, lambda: line.world(sess), "q_tri", body, desc, "sound verdict")

    def missing(q, used, given, rel):
        pre, table = next((p, t) for n, p, t in QS if n == q)

        def body():
            env = mp.Env(sess)
            lhs = env.poly([(tuple(int(i in used) for i in range(3)), Sym.atom("c"))], True)
            cell.update(lhs=lhs, calls=0, make=lambda: con.make(sess, (1, 1), "a", pre))
            c = con.constraint(sess, R[rel], lhs, used)
            m = Cell(val(I.call_root("q_map" + pre)))
            for i in given:
                I.call_root("q_put" + pre, m, env.var(i), Cell(con.make(sess, (2, 2), "z", pre)))
            args = (Cell(c), m) + ((Cell(R[rel]),) if q == "q_consistent2" else ())
            got = I.call_root(q, *args)
            full = set(used) <= set(given)
            if not full:
                return got == 2 and not cell["calls"], "answers %r" % (got,)
            return cell["calls"] > 0, "does not evaluate the left-hand side"
        order = {"al": 0, "au": 1, "#0": 0}
        line = iv.Line(order)
        desc = "%s with variables %s, intervals for %s" % (rel, "".join("xyz"[i] for i in used), "".join("xyz"[i] for i in given) or "none")
        yield from iv.decide(sess, lambda: line.world(sess), q, body, desc, "missing intervals")

    def const(q, rel, s):
        pre = "d"

        def body():
            env = mp.Env(sess)
            lhs = env.poly([((0, 0, 0), Sym.atom("c"))] if s else [], True)
            cell.update(lhs=lhs, calls=0, make=lambda: con.make(sess, (1, 1), "c", pre))
            c = con.constraint(sess, R[rel], lhs, ())
            args = (Cell(c), Cell(val(I.call_root("q_map" + pre)))) + ((Cell(R[rel]),) if q == "q_consistent2" else ())
            got = I.call_root(q, *args)
            return got == int(s in con.TRUTH[rel]), "answers %r" % (got,)
        order = {"c": 1 + s, "#0": 1} if s else {"#0": 0}
        if s < 0:
            order = {"c": 0, "#0": 1}
        elif s > 0:
            order = {"c": 1, "#0": 0}
        line = iv.Line(order)
        yield from iv.decide(sess, lambda: line.world(sess), q, body, "constant of sign %d %s 0" % (s, rel), "constant constraint")

    def sat(ms, given, rel):
        def body():
            env = mp.Env(sess)
            p = {m: Sym.atom("c%d" % i) for i, m in enumerate(ms)}
            lhs = env.poly([(m, p[m]) for m in ms], True)
            c = con.constraint(sess, R[rel], lhs, sorted({i for m in ms for i, e in enumerate(m) if e}))
            m = Cell(val(I.call_root("q_mapq")))
            for i in given:
                I.call_root("q_putq", m, env.var(i), Cell(Sym.atom("v%d" % i)))
            got = I.call_root("q_satisfied", Cell(c), m)
            q = env.nonzero(mp.psubst(p, {i: mp.const(Sym.atom("v%d" % i)) for i in given}))
            if any(map(any, q)):
                return got == 2, "answers %r although the value is not determined" % (got,)
            want = int(sess.dom.cmp(q.get(mp.ONEM, ZERO), ZERO) in con.TRUTH[rel])
            return got == want, "answers %r" % (got,)
        desc = "%s %s 0 with values for %s" % (" + ".join("c*" + mp.show(m) for m in ms) or "0", rel, "".join("xyz"[i] for i in given) or "none")
        yield from iv.decide(sess, lambda: AlgWorld(sess.paths, ["c%d" % i for i in range(len(ms))]), "q_satisfied", body, desc, "assignment")

    def work(it):
        yield from {"sat": sat, "box": box, "tri": tri, "missing": missing, "const": const}[it[0]](*it[1:])
    cls = [(s[0], o) for s, o in iv.classes(("a",))]
    items = [("box", q, s, o, r) for q, _, _ in QS for s, o in cls for r in con.TRUTH]
    items += [("tri", s, o, r) for s, o in cls for r in con.TRUTH]
    subs = [t for n in range(4) for t in itertools.combinations(range(3), n)]
    items += [("missing", q, u, g, r) for q in ("q_consistent", "q_consistent2") for u in subs if u for g in subs for r in ("EQ", "LEQ", "NEQ")]
    items += [("const", q, r, s) for q in ("q_consistent", "q_consistent2") for r in con.TRUTH for s in (-1, 0, 1)]
    X, Y = (1, 0, 0), (0, 1, 0)
    shapes = [[], [mp.ONEM], [X], [mp.ONEM, X], [X, Y], [mp.ONEM, (1, 1, 0)], [Y, (2, 0, 0)], [mp.ONEM, Y, (1, 1, 0)]]
    items += [("sat", ms, g, r) for ms in shapes for g in ((), (0,), (1,), (0, 1), (0, 2), (0, 1, 2)) for r in con.TRUTH]
    pmap(chk, sess, items, work)
    chk.require("obligations satisfied", 200)
    for q in ("consistent", "consistent2", "evaluate", "tri"):
        chk.require("obligations " + q, 150)
