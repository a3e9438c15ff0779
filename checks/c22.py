"""C22: bitsets as infinite sequences.  Stored bits are opaque atoms, all storage sizes up to a bound, both defaults."""
import bits, iv, containers
from bits import Bit, Bits, inv, known, decide, b_and, b_or
from interp import Cell, Arr, Ptr, Unsupported, val
from session import Session, pmap

NPOS = (1 << 64) - 1


def run(chk):
    chk.rule("a bitset of n stored bits and a default denotes an infinite sequence; every operation must act pointwise on that sequence, "
             "for every storage size up to the bound, both default values and opaque stored bits")
    chk.assume("boost::dynamic_bitset is modelled; positions up to two beyond the larger storage size are read, the tail is represented by the default")
    sess = Session("bitset.cpp")
    bits.register(sess.models)
    containers.register(sess.models)
    dom, I = sess.dom, sess.I
    sizes = (0, 1, 2, 3, 5) if chk.tier != "thorough" else (0, 1, 2, 3, 4, 5, 6)
    jobs = []

    def seq(p, n, d):
        """denoted sequence: explicit part and tail"""
        return [Bit("%s%d" % (p, i)) for i in range(n)], d

    def make(p, n, d):
        return Cell(I.call_root("q_mk", Cell(Bits(seq(p, n, d)[0])), d))

    def at(s, i):
        return s[0][i] if i < len(s[0]) else s[1]

    def read(c, upto):
        return [I.call_root("q_test", c, i) for i in range(upto)] + [I.call_root("q_test", c, 200)]

    def bit(x):
        return x if isinstance(x, Bit) else (1 if x else 0)

    def agree(c, f, upto, tail):
        """stored object reads as f(i) for i < upto and as tail far out"""
        got = [bit(x) for x in read(c, upto)]
        exp = [bit(f(i)) for i in range(upto)] + [bit(tail)]
        ok = all(known(dom, x) == known(dom, y) or decide(dom, x) == decide(dom, y) for x, y in zip(got, exp))
        return ok, "reads %s, tail %s; expected %s, tail %s" % (got[:-1], got[-1], exp[:-1], exp[-1])

    def job(q, desc, body):
        jobs.append((q, desc, body))
    for d in (False, True):
        def mkdef(d=d):
            return agree(Cell(I.call_root("q_def", d)), lambda i: d, 3, d)
        job("q_def", "Bitset(%s)" % d, mkdef)
        for x in range(3):
            for y in range(3):
                def lst(d=d, x=x, y=y):
                    return agree(Cell(I.call_root("q_list", x, y, d)), lambda i: i in (x, y) or d, 4, d)
                job("q_list", "Bitset({%d, %d}, %s)" % (x, y, d), lst)
        for n in sizes:
            S = "%d bits, default %s" % (n, d)
            s = seq("a", n, d)

            def rd(n=n, d=d, s=s):
                return agree(make("a", n, d), lambda i: at(s, i), n + 2, d)
            job("q_test", "test on " + S, rd)

            def cp(n=n, d=d, s=s):
                c = make("a", n, d)
                k = Cell(I.call_root("q_copy", c))
                I.call_root("q_set", c, n, not d)
                return agree(k, lambda i: at(s, i), n + 2, d)
            job("q_copy", "copy of " + S, cp)

            def sz(n=n, d=d):
                r = I.call_root("q_size", make("a", n, d))
                return r == n, repr(r)
            job("q_size", "size of " + S, sz)

            def ng(n=n, d=d, s=s):
                return agree(Cell(I.call_root("q_not", make("a", n, d))), lambda i: inv(bit(at(s, i))), n + 2, not d)
            job("q_not", "~ of " + S, ng)
            for m in range(0, n + 3):
                for v in (False, True, None):
                    def st(n=n, d=d, s=s, m=m, v=v):
                        c = make("a", n, d)
                        if v is None:
                            I.call_root("q_set1", c, m)
                        else:
                            I.call_root("q_set", c, m, v)
                        return agree(c, lambda i: (True if v is None else v) if i == m else at(s, i), n + 4, d)
                    job("q_set1" if v is None else "q_set", "set(%d, %s) on %s" % (m, v, S), st)

                def rs(n=n, d=d, s=s, m=m):
                    c = make("a", n, d)
                    I.call_root("q_reset", c, m)
                    return agree(c, lambda i: False if i == m else at(s, i), n + 4, d)
                job("q_reset", "reset(%d) on %s" % (m, S), rs)
                for e in range(m, n + 3):
                    for v in (False, True):
                        def si(n=n, d=d, s=s, m=m, e=e, v=v):
                            c = make("a", n, d)
                            I.call_root("q_setint", c, m, e, v)
                            return agree(c, lambda i: v if m <= i <= e else at(s, i), n + 4, d)
                        job("q_setint", "set_interval(%d, %d, %s) on %s" % (m, e, v, S), si)
                if m >= n:
                    def rz(n=n, d=d, s=s, m=m):
                        c = make("a", n, d)
                        I.call_root("q_resize", c, m)
                        ok, t = agree(c, lambda i: at(s, i), n + 4, d)
                        return ok and I.call_root("q_size", c) >= m, t
                    job("q_resize", "resize(%d) of %s" % (m, S), rz)
                    for v in (False, True):
                        def rv(n=n, d=d, s=s, m=m, v=v):
                            c = make("a", n, d)
                            I.call_root("q_resizev", c, m, v)
                            return agree(c, lambda i: v if n <= i < m else at(s, i), n + 4, d)
                        job("q_resizev", "resize(%d, %s) of %s" % (m, v, S), rv)
            if not d:
                def cnt(n=n, s=s):
                    r = I.call_root("q_count", make("a", n, False))
                    return r == sum(decide(dom, b) for b in s[0]), repr(r)
                job("q_count", "count of " + S, cnt)
                for q, want in (("q_any", True), ("q_none", False)):
                    def an(n=n, s=s, q=q, want=want):
                        r = I.truth(I.call_root(q, make("a", n, False)))
                        return r == ((sum(decide(dom, b) for b in s[0]) > 0) == want), repr(r)
                    job(q, "%s of %s" % (q[2:], S), an)

                def ff(n=n, s=s):
                    r = I.call_root("q_first", make("a", n, False))
                    on = [i for i, b in enumerate(s[0]) if decide(dom, b)]
                    return r == (on[0] if on else NPOS), repr(r)
                job("q_first", "find_first of " + S, ff)
                for m in range(n + 2):
                    def fx(n=n, s=s, m=m):
                        r = I.call_root("q_next", make("a", n, False), m)
                        on = [i for i, b in enumerate(s[0]) if decide(dom, b) and i > m]
                        return r == (on[0] if on else NPOS), repr(r)
                    job("q_next", "find_next(%d) of %s" % (m, S), fx)

                def it(n=n, s=s):
                    out, cn = Arr([Cell(0) for _ in range(n + 1)]), Cell(0)
                    I.call_root("q_iter", make("a", n, False), Ptr(out, 0), cn)
                    got = [out.cells[i].v for i in range(cn.v)]
                    return got == [i for i, b in enumerate(s[0]) if decide(dom, b)], repr(got)
                job("q_iter", "iteration over " + S, it)
            for d2 in (False, True):
                for m in [x for x in sizes if x <= 3 or n <= 1]:
                    if n + m > 6:
                        continue
                    S2 = S + " and %d bits, default %s" % (m, d2)
                    t = seq("b", m, d2)
                    N = max(n, m) + 2

                    def bo(n=n, d=d, s=s, m=m, d2=d2, t=t, N=N):
                        for q, f in (("q_and", b_and), ("q_or", b_or)):
                            x, y = make("a", n, d), make("b", m, d2)
                            r = agree(Cell(I.call_root(q, x, y)), lambda i: f(dom, bit(at(s, i)), bit(at(t, i))), N, f(dom, int(d), int(d2)))
                            if not r[0]:
                                return False, q[2:] + " " + r[1]
                            for z, o in ((x, s), (y, t)):
                                r = agree(z, lambda i: at(o, i), N, o[1])
                                if not r[0]:
                                    return False, "operand changed: " + r[1]
                        return True, ""
                    job("q_and", "& and | of " + S2, bo)
                    for q, f in (("q_andas", b_and), ("q_oras", b_or), ("q_subas", lambda D, x, y: b_and(D, x, inv(known(D, y))))):
                        if q == "q_subas" and d != d2:
                            continue        # excluded by the documented assertion

                        def asg(n=n, d=d, s=s, m=m, d2=d2, t=t, N=N, q=q, f=f):
                            x, y = make("a", n, d), make("b", m, d2)
                            I.call_root(q, x, y)
                            r = agree(x, lambda i: f(dom, bit(at(s, i)), bit(at(t, i))), N, f(dom, int(d), int(d2)))
                            if not r[0]:
                                return r
                            return agree(y, lambda i: at(t, i), N, t[1])
                        job(q, "%s of %s" % ({"q_andas": "&=", "q_oras": "|=", "q_subas": "-="}[q], S2), asg)

                    def sub(n=n, d=d, s=s, m=m, d2=d2, t=t, N=N):
                        r = I.truth(I.call_root("q_subset", make("a", n, d), make("b", m, d2)))
                        e = all(decide(dom, bit(at(s, i))) <= decide(dom, bit(at(t, i))) for i in range(N)) and d <= d2
                        return r == e, repr(r)
                    job("q_subset", "is_subset_of of " + S2, sub)

                    def eq(n=n, d=d, s=s, m=m, d2=d2, t=t, N=N):
                        r = I.truth(I.call_root("q_eq", make("a", n, d), make("b", m, d2)))
                        e = all(decide(dom, bit(at(s, i))) == decide(dom, bit(at(t, i))) for i in range(N)) and d == d2
                        return r == e, repr(r)
                    job("q_eq", "== of " + S2, eq)

                    def lt(n=n, d=d, s=s, m=m, d2=d2, t=t, N=N):
                        r = I.truth(I.call_root("q_less", make("a", n, d), make("b", m, d2)))
                        r2 = I.truth(I.call_root("q_less", make("b", m, d2), make("a", n, d)))
                        e = all(decide(dom, bit(at(s, i))) == decide(dom, bit(at(t, i))) for i in range(N)) and d == d2
                        return (r == r2) == e and not (r and r2), "a<b %r, b<a %r, equal %r" % (r, r2, e)
                    job("q_less", "< of " + S2, lt)

                    def al(n=n, d=d, s=s, m=m, d2=d2, t=t, N=N):
                        x, y = make("a", n, d), make("b", m, d2)
                        I.call_root("q_align", x, y)
                        if I.call_root("q_size", x) != I.call_root("q_size", y):
                            return False, "sizes differ"
                        r = agree(x, lambda i: at(s, i), N, d)
                        return r if not r[0] else agree(y, lambda i: at(t, i), N, d2)
                    job("q_align", "alignSize of " + S2, al)

    def work(i):
        q, desc, body = jobs[i]
        yield from iv.decide(sess, lambda: sess.world({}, 0), q, body, desc, "pointwise on the infinite sequence")
    pmap(chk, sess, range(len(jobs)), work)
    for q, n in (("set", 50), ("and", 50), ("oras", 50), ("andas", 50), ("subas", 20), ("subset", 100), ("eq", 100), ("less", 100), ("setint", 50), ("next", 20), ("iter", 20)):
        chk.require("obligations " + q, n)
