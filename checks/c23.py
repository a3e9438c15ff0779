"""C23: set covers.  Membership bits are opaque; every membership matrix of the bounded sizes is covered by state splitting."""
import bits, containers, iv
from bits import Bit, Bits, decide, known
from dom import Sym
from fractions import Fraction
from interp import Cell, Unsupported, val
from models import Vec
from session import Session, pmap

NPOS = (1 << 64) - 1


def run(chk):
    chk.rule("instances with opaque membership bits: the selected sets cover every element that was coverable; after a preprocessing step the remaining "
             "instance together with the selection still covers exactly the uncovered elements; bookkeeping queries agree with the denoted sets")
    chk.assume("instances of up to 3 sets and 3 elements with all memberships, 4 sets and 4 elements with six free memberships; weights are positive")
    sess = Session("cover.cpp")
    bits.register(sess.models)
    containers.register(sess.models)
    I, dom = sess.I, sess.dom
    jobs = []

    def matrix(sets, elems, fixed=None):
        return [[Bit("m%d%d" % (s, e)) if not fixed or (s, e) not in fixed else fixed[(s, e)] for e in range(elems)] for s in range(sets)]

    def instance(m):
        c = Cell(I.call_root("q_mk"))
        for s, row in enumerate(m):
            I.call_root("q_add", c, s, Cell(I.call_root("q_bits", Cell(Bits(row)))))
        return c

    def rd(b, n):
        """set of positions of a bitset object"""
        n = max(n, val(I.call_root("q_bsize", b)))
        return {i for i in range(n) if I.truth(I.call_root("q_test", b, i))}

    def row(m, s):
        return {e for e in range(len(m[s])) if decide(dom, m[s][e])}

    def universe(m):
        return set().union(*[row(m, s) for s in range(len(m))]) if m else set()

    def covers(m, sel):
        return set().union(*[row(m, s) for s in sel]) == universe(m) if sel else not universe(m)

    def show(m):
        return " ".join("{%s}" % ",".join(map(str, sorted(row(m, s)))) for s in range(len(m)))

    def rest(c):
        n = I.call_root("q_count", c)
        return [rd(Cell(val(I.call_root("q_get", c, s))), I.call_root("q_elements", c)) for s in range(n)]

    def equivalent(m, sel, left):
        """the sets T covering the remaining instance are those that complete the selection to a cover"""
        import itertools
        S = len(m)
        left = left + [set()] * (S - len(left))
        want = set().union(*left) if left else set()
        for k in range(S + 1):
            for t in itertools.combinations(range(S), k):
                got = set().union(*[left[x] for x in t]) if t else set()
                if (got >= want) != covers(m, set(t) | set(sel)):
                    return False
        return len(left) <= S or not any(left[S:])

    def job(q, desc, m, f):
        jobs.append((q, desc, m, f))

    def heuristics(tag, m, full=True):
        S, E = len(m), len(m[0]) if m else 0

        def whole(q, *args):
            def f():
                c = instance(m)
                sel = rd(Cell(I.call_root(q, c, *args)), S)
                return all(s < S for s in sel) and covers(m, sel), "selected %s of %s" % (sorted(sel), show(m))
            return f
        job("q_greedy", "greedy " + tag, m, whole("q_greedy"))
        job("q_exact", "exact " + tag, m, whole("q_exact"))
        job("q_greedyb", "greedy_bounded(0) " + tag, m, whole("q_greedyb", 0))
        if S:
            job("q_trivial", "trivial " + tag, m, whole("q_trivial"))
        else:
            job("q_trivial", "trivial " + tag, m, lambda: (I.call_root("q_trivial", instance(m)), (True, ""))[1])

        def minimal():
            import itertools
            c = instance(m)
            sel = rd(Cell(I.call_root("q_exact", c)), S)
            k = next(k for k in range(S + 1) if any(covers(m, t) for t in itertools.combinations(range(S), k)))
            return len(sel) <= k, "selected %s of %s" % (sorted(sel), show(m))
        if S and full:
            job("q_exact", "exact is minimal " + tag, m, minimal)
        ws = [Vec([Cell(Fraction(w)) for w in ([1, 3, 2, 5][:S])]), Vec([Cell(Fraction(w, 8)) for w in ([4, 1, 2, 12][:S])])]
        for w in ws:
            job("q_greedyw", "greedy_weighted " + tag, m, lambda w=w: whole("q_greedyw", Cell(w.copy()), 0)())

        def bounded(k, q="q_greedyb", extra=()):
            def f():
                c = instance(m)
                sel = rd(Cell(I.call_root(q, c, *extra, k)), S)
                left = rest(c)
                u = set().union(*[row(m, s) for s in sel]) if sel else set()
                ok = all(left[s] == row(m, s) - u for s in range(S)) and sum(1 for x in left if x) <= max(k, 0)
                return ok, "selected %s of %s, left %s" % (sorted(sel), show(m), left)
            return f
        if full:
            job("q_greedyb", "greedy_bounded(1) " + tag, m, bounded(1))
            if S:
                job("q_greedyw", "greedy_weighted(1) " + tag, m, bounded(1, "q_greedyw", (Cell(ws[0].copy()),)))

        def essential():
            c = instance(m)
            sel = rd(Cell(I.call_root("q_essential", c)), S)
            u = set().union(*[row(m, s) for s in sel]) if sel else set()
            left = rest(c)
            # every selected set is needed and the remaining instance asks for exactly the completions of the selection
            ok = equivalent(m, sel, left) and all(not covers(m, [t for t in range(S) if t != s]) for s in sel)
            return ok, "selected %s of %s, left %s" % (sorted(sel), show(m), left)
        job("q_essential", "select_essential " + tag, m, essential)

        def dups():
            c = instance(m)
            sel = rd(Cell(I.call_root("q_dups", c)), S)
            left = rest(c)
            return equivalent(m, sel, left), "%s became %s, selected %s" % (show(m), left, sorted(sel))
        job("q_dups", "remove_duplicates " + tag, m, dups)

    def queries(tag, m):
        S, E = len(m), len(m[0]) if m else 0

        def q(name, f, *args):
            def g():
                c = instance(m)
                r = I.call_root(name, c, *args)
                return f(r), "%r for %s" % (r, show(m))
            job(name, "%s %s" % (name[2:], tag), m, g)
        q("q_count", lambda r: r == S)
        q("q_elements", lambda r: r >= len(universe(m)) and all(e < r for e in universe(m)))
        q("q_active", lambda r: r == sum(1 for s in range(S) if row(m, s)))
        q("q_uncovered", lambda r: rd(Cell(r), E) == universe(m))
        if S:
            q("q_largest", lambda r: r < S and all(len(row(m, t)) <= len(row(m, r)) for t in range(S)))
            w = [Fraction(x) for x in (1, 3, 2, 5)][:S]
            q("q_largestw", lambda r: r < S and all(len(row(m, t)) * w[t] <= len(row(m, r)) * w[r] for t in range(S)), Cell(Vec([Cell(x) for x in w])))
        for s in range(S):
            def sel(s=s):
                c = instance(m)
                I.call_root("q_select", c, s)
                left = rest(c)
                return all(left[t] == row(m, t) - row(m, s) for t in range(S)), "%s became %s" % (show(m), left)
            job("q_select", "select_set(%d) %s" % (s, tag), m, sel)

        def prune():
            c = instance(m)
            I.call_root("q_prune", c)
            left = rest(c)
            return all(left[t] == row(m, t) for t in range(S)), "%s became %s" % (show(m), left)
        job("q_prune", "prune_sets " + tag, m, prune)

        def add1():
            c = instance(m)
            I.call_root("q_add1", c, S, E)
            I.call_root("q_add1", c, S + 1, 0)
            left = rest(c)
            return left == [row(m, t) for t in range(S)] + [{E}, {0}], "%s became %s" % (show(m), left)
        job("q_add1", "set(%d, %d), set(%d, 0) %s" % (S, E, S + 1, tag), m, add1)

        def add2():
            c = instance(m)
            I.call_root("q_add", c, 0, Cell(I.call_root("q_bits", Cell(Bits([0, 1])))))
            left = rest(c)
            return left == [row(m, 0) | {1}] + [row(m, t) for t in range(1, S)], "%s became %s" % (show(m), left)
        if S:
            job("q_add", "set(0, {1}) " + tag, m, add2)

    def typed(tag, m):
        S = len(m)
        labels = [5, 2, 5, 7]

        def union():
            d = {}
            for s in range(S):
                d.setdefault(labels[s], set()).update(row(m, s))
            return d

        def mk():
            c = Cell(I.call_root("q_tmk"))
            for s in range(S):
                I.call_root("q_tadd", c, labels[s], Cell(I.call_root("q_bits", Cell(Bits(m[s])))))
            return c
        for q in ("q_tgreedy", "q_ttrivial"):
            def f(q=q):
                r = [x.v for x in val(I.call_root(q, mk())).cells]
                d = union()
                ok = set(r) <= set(d) and len(set(r)) == len(r) and (set().union(*[d[x] for x in r]) if r else set()) == universe(m)
                return ok, "cover %s of %s" % (r, d)
            job(q, "typed cover %s %s" % (q[3:], tag), m, f)

        def tw():
            c = mk()
            r = rd(Cell(I.call_root("q_tweighted", c, Cell(Vec([Cell(Fraction(w)) for w in (1, 1, 4, 1, 1, 2, 1, 3)])))), 4)
            d = union()
            order = []
            for s in range(S):
                if labels[s] not in order:
                    order.append(labels[s])
            return (set().union(*[d[order[x]] for x in r]) if r else set()) == universe(m), "selected %s of %s" % (r, d)
        job("q_tweighted", "typed weighted cover " + tag, m, tw)

    def core(tag, m, n):
        S = len(m)

        def mk():
            c = Cell(I.call_root("q_cmk", n))
            for s in range(S):
                I.call_root("q_cadd", c, s + 3, Cell(I.call_root("q_bits", Cell(Bits(m[s])))))
            return c

        def f():
            c = mk()
            u = universe(m) & set(range(n))
            conf = I.truth(I.call_root("q_cconf", c))
            if conf != (len(u) == n):
                return False, "conflicts %r for %s" % (conf, show(m))
            sat = I.call_root("q_csat", c)
            left = [i for i in range(n) if i not in u]
            if sat != (left[0] if left else NPOS):
                return False, "satisfyingInterval %r for %s" % (sat, show(m))
            if conf:
                v = Cell(Vec())
                I.call_root("q_ccore", c, v)
                r = [x.v for x in v.v.cells]
                cov = set().union(*[row(m, x - 3) for x in r]) if r else set()
                return cov >= set(range(n)), "core %s of %s" % (r, show(m))
            return True, ""
        job("q_ccore", "interval covering of %d %s" % (n, tag), m, f)
    for S in range(0, 4):
        for E in (range(1, 4) if S else (0,)):
            tag = "of %d sets, %d elements" % (S, E)
            m = matrix(S, E)
            heuristics(tag, m)
            if S * E <= 6:
                queries(tag, m)
                typed(tag, m)
                if S:
                    core(tag, m, E)
    free = {(0, 0), (1, 1), (2, 2), (3, 3), (1, 3), (2, 0)}
    big = {}
    for s in range(4):
        for e in range(4):
            if (s, e) not in free:
                big[(s, e)] = ((s * 5 + e * 3) % 4 == 1) * 1
    heuristics("of 4 sets, 4 elements", matrix(4, 4, big), False)

    def work(i):
        q, desc, m, body = jobs[i]
        yield from iv.decide(sess, lambda: sess.world({}, 0), q, body, desc, "selection covers / bookkeeping exact")
    pmap(chk, sess, range(len(jobs)), work)
    for q in ("greedy", "exact", "greedyb", "greedyw", "essential", "dups", "trivial"):
        chk.require("obligations " + q, 300)
    chk.require("obligations ccore", 50)
