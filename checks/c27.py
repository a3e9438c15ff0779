"""C27: id generators.  Fixpoint over the states reachable through the public operations with a bounded number of ids."""
import bits
from interp import Cell, Struct, Ptr, Native, Unsupported, AssertFail, CppThrow, val, copyval
from models import Vec
from session import Session, pmap


def canon(v):
    if isinstance(v, Cell):
        return canon(v.v)
    if isinstance(v, Struct):
        return (v.rec["id"],) + tuple((k, canon(c)) for k, c in sorted(v.f.items(), key=str))
    if isinstance(v, Vec):
        return ("vec",) + tuple(canon(c) for c in v.cells)
    if isinstance(v, bits.Bits):
        return ("bits",) + tuple(v.b)
    return repr(v)


def run(chk):
    chk.rule("fixpoint over all states reachable by acquire, release and clear with a bounded number of ids: an acquired id is in no client's hands, and the reported next/largest id bounds every id in use")
    chk.assume("at most 6 ids per generator in arbitrary release orders (ids are only compared, copied, incremented and decremented; states with ids beyond three times this number are not continued); for the pool additionally every fill level up to three storage blocks with up to two released ids")
    sess = Session("ids.cpp")
    bits.register(sess.models)
    I, dom = sess.I, sess.dom
    K = 6 if chk.tier != "thorough" else 8

    def explore(p, bound_q, strict, limit):
        """reachable states as (object, ids in use)"""
        def fresh():
            return val(I.call_root("q_%smk" % p)).cell().v
        start = (fresh(), frozenset())
        seen = {(canon(start[0]), start[1])}
        todo = [(start, ())]

        def report(q, hist, text):
            return ("violation", dict(rule="an id in use is never handed out again and is bounded by the reported id",
                    where=sess.target(q), instance="history " + ", ".join(hist), detail=text))
        while todo:
            (obj, used), hist = todo.pop(0)
            steps = [("get", None)] if len(used) < limit else []
            steps += [("free", i) for i in sorted(used)] + ([("clear", None)] if used else [])
            for op, arg in steps:
                c = Cell(copyval(obj))
                h = hist + (op if arg is None else "free(%s)" % arg,)
                yield ("count", "obligations %s transitions" % p, 1)
                try:
                    if op == "get":
                        r = I.call_root("q_%sget" % p, c)
                        if type(r) is not int:
                            raise Unsupported("abstract id")
                        new = used | {r}
                        if r in used:
                            yield report("q_%sget" % p, h, "returned %d, which is in use" % r)
                            return
                    elif op == "free":
                        I.call_root("q_%sfree" % p, c, arg)
                        new = used - {arg}
                    else:
                        I.call_root("q_%sclear" % p, c)
                        new = frozenset()
                    b = I.call_root(bound_q, c)
                except (AssertFail, CppThrow) as e:
                    yield report("q_%s%s" % (p, op), h, "fault: %s" % e)
                    return
                if any(u >= b if strict else u > b for u in new):
                    yield report("q_%s%s" % (p, op), h, "reported bound %d with %s in use" % (b, sorted(new)))
                    return
                k = (canon(c.v), new)
                if k not in seen and max([b, *new]) <= 3 * limit:      # histories that let the ids grow are followed up to this size
                    seen.add(k)
                    todo.append(((c.v, new), h))
        yield ("count", "reachable states " + p, len(seen))

    def fill(n):
        """pool: n ids acquired, then all single and some double releases and re-acquisitions"""
        c = val(I.call_root("q_pmk")).cell()
        used = set()
        for k in range(n):
            r = I.call_root("q_pget", c)
            if r in used:
                yield ("violation", dict(rule="an id in use is never handed out again", where=sess.target("q_pget"), instance="%d acquisitions" % (k + 1), detail="returned %d twice" % r))
                return
            used.add(r)
        if I.call_root("q_plargest", c) < max(used, default=0):
            yield ("violation", dict(rule="reported id bounds the ids in use", where=sess.target("q_plargest"), instance="%d acquisitions" % n, detail=""))
        us = sorted(used)
        picks = sorted({us[0], us[len(us) // 2], us[-1]})
        for i in picks:
            for j in picks:
                d = Cell(copyval(c.v))
                u = set(used)
                for x in {i, j}:
                    I.call_root("q_pfree", d, x)
                    u.discard(x)
                for _ in range(3):
                    r = I.call_root("q_pget", d)
                    yield ("count", "obligations pool refill", 1)
                    if r in u or I.call_root("q_plargest", d) < r:
                        yield ("violation", dict(rule="an id in use is never handed out again and is bounded by the reported id", where=sess.target("q_pget"),
                               instance="%d acquisitions, release of %d and %d, acquisition" % (n, i, j), detail="returned %d" % r))
                        return
                    u.add(r)
    LP = 4
    jobs = [("g",), ("p",)] + [("fill", n) for n in (1, 2, 62, 63, 64, 65, 66, 127, 128, 129, 130, 193)]

    def work(j):
        dom.w = sess.world({}, 0)
        I.reset()
        if j[0] == "g":
            yield from explore("g", "q_gnext", True, K)
        elif j[0] == "p":
            yield from explore("p", "q_plargest", False, LP)
        else:
            yield from fill(j[1])
    pmap(chk, sess, jobs, work)
    chk.require("obligations g transitions", 200)
    chk.require("obligations p transitions", 50)
    chk.require("obligations pool refill", 100)
