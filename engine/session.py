"""One parsed driver plus an interpreter; runs queries over partition classes."""
import multiprocessing, os, signal, sys, threading, time
from fractions import Fraction
from interp import Interp, Paths, Cell, Struct, Unsupported, AssertFail, CppThrow, Infeasible, val, copyval
from dom import Dom, World, Sym, ZERO
from models import Models
import front

REPO = front.REPO


class Outcome:
    __slots__ = ("kind", "v", "msg", "extra")

    def __init__(self, kind, v=None, msg=None):
        self.kind, self.v, self.msg = kind, v, msg

    def __repr__(self):
        return "%s %r %s" % (self.kind, self.v, self.msg or "")


class Session:
    def __init__(self, driver, dom=None, models=None, **kw):
        self.prog = front.load(driver, **kw)
        self.paths = Paths()
        self.dom = dom or Dom()
        self.models = models or Models()
        self.I = Interp(self.prog, self.dom, self.models)
        self._target = {}

    def world(self, rank=None, zero=None, crank=None):
        w = World(self.paths, rank, zero)
        if crank:
            w.crank = dict(crank)
        return w

    def explore(self, mkworld, body):
        """evaluate body on every abstract path; yields Outcome"""
        self.paths.count = 0

        def one():
            self.I.reset()
            self.dom.w = mkworld()
            try:
                return Outcome("ok", body())
            except AssertFail as e:
                return Outcome("fault", None, str(e))
            except CppThrow as e:
                return Outcome("throw", None, e.tname)
            except Infeasible:
                return Outcome("infeasible")
        for o in self.paths.explore(one):
            if o.kind != "infeasible":
                yield o

    def trace(self, body, mkworld):
        """branches taken on the path explored last (for reports)"""
        self.I.trace = []
        self.paths.prefix, self.paths.pos = [list(x) for x in self.paths.last], 0
        self.I.reset()
        self.dom.w = mkworld()
        try:
            body()
        except (Unsupported, AssertFail, CppThrow, Infeasible):
            pass
        tr, self.I.trace = self.I.trace, None
        out = []
        for fn, line, b in tr:
            if b is not None and fn.get("file", "").startswith(REPO):
                s = "%s:%d %s" % (os.path.basename(fn["file"]), line, "true" if b else "false")
                if s not in out:
                    out.append(s)
        return out[-12:]

    def target(self, q):
        """the library function a query function calls"""
        if q in self._target:
            return self._target[q]
        fn = self.prog.roots[q]
        found = []

        def walk(n):
            if isinstance(n, dict):
                if n.get("k") in ("Call", "MCall", "OCall", "Ctor") and "fn" in n:
                    g = self.prog.fns.get(n["fn"])
                    if g is not None and g["file"].startswith(REPO):
                        found.append(g)
                for v in n.values():
                    walk(v)
            elif isinstance(n, list):
                for v in n:
                    walk(v)
        walk(fn["body"])
        best = None
        for g in found:
            if not g.get("ctor"):
                best = g
                break
        if best is None and found:
            best = found[0]
        w = "%s:%s %s" % (best["file"], best.get("line", "?"), best["qn"]) if best else q
        self._target[q] = w
        return w

    def visited_fns(self):
        return [self.prog.fns[i] for i in self.I.visited if self.prog.fns[i]["file"].startswith(REPO)]


def pmap(chk, sess, items, worker, procs=8, chunk=None, item_s=None):
    """run worker(item) -> list of (kind, payload) over items in parallel forks.
    kinds: ("count", what, n) ("violation", dict) ("error", msg)"""
    items = list(items)
    if not items:
        return
    n = min(procs, max(1, len(items) // 4))
    chunks = [items[i::n] for i in range(n)]
    global _job
    _job = (sess, worker, chk, multiprocessing.Value("i", 0), item_s or ITEM_S)
    if n == 1:
        results = [_run_chunk(chunks[0])]
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(n) as pool:
            results = pool.map(_run_chunk, chunks)
    for evs, visited in results:
        for ev in evs:
            if ev[0] == "count":
                chk.count(ev[1], ev[2])
            elif ev[0] == "violation":
                chk.violation(**ev[1])
            else:
                chk.error(ev[1])
        if sess is not None:
            sess.I.visited |= visited
    if sess is not None:
        for f in sess.visited_fns():
            chk.analysed(f)


def mute(sess):
    """printing of the library's objects has no effect on the analysed values"""
    for f in sess.prog.fns.values():
        if f.get("op") == "<<" and f["file"].startswith(REPO) and f["sig"].startswith("std::basic_ostream<char> &(std::basic_ostream<char> &"):
            f["_model"] = lambda I, fn, this, a: a[0]


ITEM_S, TOTAL_S, ENOUGH, LATE_S = 150, 650, 300, 200


def _expired(signum, frame):
    raise Unsupported("analysis takes too long")


def _run_chunk(items):
    """an item that takes too long is an analysis error; with enough violations found the rest is not analysed"""
    sess, worker, chk, bad, item_s = _job
    out = {}
    evs = []
    if threading.current_thread() is threading.main_thread():
        signal.signal(signal.SIGALRM, _expired)
    for it in items:
        left = TOTAL_S - (time.time() - chk.t0)
        if bad.value >= ENOUGH or left <= 0 or bad.value and left < TOTAL_S - LATE_S:
            evs.append(("error", "stopped before %r: %s" % (it, "enough violations" if left > 0 else "time budget exhausted")))
            break
        try:
            signal.setitimer(signal.ITIMER_REAL, min(item_s, left), 5)
            for ev in worker(it):
                if ev[0] == "count":
                    out[ev[1]] = out.get(ev[1], 0) + ev[2]
                else:
                    evs.append(ev)
                    if ev[0] == "violation" and (ev[1].get("key") or ev[1]["instance"]) not in chk.known:
                        with bad.get_lock():
                            bad.value += 1
        except Unsupported as e:
            evs.append(("error", "%s on %r" % (e, it)))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if len(evs) > 3000:
            break
    evs += [("count", k, v) for k, v in out.items()]
    return evs, (sess.I.visited if sess is not None else set())


def weak_orders(names):
    """all total preorders of names as dict name -> rank (dense ranks from 0)"""
    names = list(names)
    if not names:
        yield {}
        return
    first, rest = names[0], names[1:]
    for o in weak_orders(rest):
        k = max(o.values()) + 1 if o else 0
        for r in range(k):            # equal to an existing class
            d = dict(o)
            d[first] = r
            yield d
        for r in range(k + 1):        # new class before position r
            d = {n: (v + 1 if v >= r else v) for n, v in o.items()}
            d[first] = r
            yield d
