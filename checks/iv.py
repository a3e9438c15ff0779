"""Shared pieces of the interval checks: partition classes, denotations."""
from fractions import Fraction
from interp import Cell, Unsupported
from dom import Sym, ZERO
from session import Session, weak_orders

STRICT, WEAK, INFTY = 0, 1, 2
BTN = {0: "STRICT", 1: "WEAK", 2: "INFTY"}
EMPTY = ("empty",)


class Line:
    """the number line cut at ranked points: segment 2r+1 is the point of rank r, even
    segments are the open gaps between them"""

    def __init__(self, order, consts=(ZERO,)):
        # order: name -> rank; constants have names "#<value>"
        self.order = order
        self.k = max(order.values()) + 1 if order else 0
        self.full = (1 << (2 * self.k + 1)) - 1
        self.rank = {n: r for n, r in order.items() if not n.startswith("#")}
        self.crank = {Fraction(n[1:]): r for n, r in order.items() if n.startswith("#")}

    def above(self, seg):
        return self.full & ~((1 << (seg + 1)) - 1)

    def below(self, seg):
        return (1 << seg) - 1

    def range(self, lo, lt, hi, ht):
        """mask for bounds given as segment indices"""
        m = self.full
        if lt != INFTY:
            m &= self.above(lo) | ((1 << lo) if lt == WEAK else 0)
        if ht != INFTY:
            m &= self.below(hi) | ((1 << hi) if ht == WEAK else 0)
        return m

    def seg(self, r):
        return 2 * r + 1

    def world(self, sess):
        return sess.world(self.rank, self.crank.get(ZERO), self.crank)

    def position(self, sess, v):
        """segment index of a number of the abstract state (even = strictly inside a gap)"""
        d = sess.dom
        v = d.num(v)
        if isinstance(v, Sym) and len(v.t) == 1:
            (m, c), = v.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in self.rank:
                return self.seg(self.rank[m[0][0]])
        if isinstance(v, Fraction) and v in self.crank:
            return self.seg(self.crank[v])
        # place it by comparison with one representative per rank
        reps = {}
        for n, r in self.order.items():
            reps.setdefault(r, Fraction(n[1:]) if n.startswith("#") else Sym.atom(n))
        for r in range(self.k):
            c = d.cmp(v, reps[r])
            if c == 0:
                return self.seg(r)
            if c < 0:
                return 2 * r
        return 2 * self.k


def spec_names(spec, p):
    """names of the atoms used by interval spec with prefix p"""
    if spec == EMPTY:
        return []
    lt, ut = spec
    return ([p + "l"] if lt != INFTY else []) + ([p + "u"] if ut != INFTY else [])


def spec_ok(spec, p, order):
    """non-contradictory bounds"""
    if spec == EMPTY or INFTY in spec:
        return True
    l, u = order[p + "l"], order[p + "u"]
    return l < u or (l == u and spec == (WEAK, WEAK))


ALL_SPECS = [EMPTY] + [(a, b) for a in (0, 1, 2) for b in (0, 1, 2)]


def spec_mask(spec, p, line):
    if spec == EMPTY:
        return 0
    lt, ut = spec
    lo = line.seg(line.order[p + "l"]) if lt != INFTY else 0
    hi = line.seg(line.order[p + "u"]) if ut != INFTY else 0
    return line.range(lo, lt, hi, ut)


def make(sess, spec, p):
    """abstract interval object, built by the library's own constructor"""
    if spec == EMPTY:
        return sess.I.call_root("q_empty")
    lt, ut = spec
    lo = Sym.atom(p + "l") if lt != INFTY else ZERO
    hi = Sym.atom(p + "u") if ut != INFTY else ZERO
    return sess.I.call_root("q_mk4", lo, lt, hi, ut)


def read(sess, iv):
    """(lower, lower type, upper, upper type) through the accessors"""
    c = Cell(iv)
    I = sess.I
    return (I.call_root("q_lower", c), I.call_root("q_lt", c), I.call_root("q_upper", c), I.call_root("q_ut", c))


def denote(sess, line, iv):
    """(mask, exact): set denoted by an abstract interval object; exact=False when a finite
    bound lies strictly inside a gap (the set is then not a union of segments)"""
    lo, lt, hi, ht = read(sess, iv)
    ex = True
    pl = ph = 0
    if lt != INFTY:
        pl = line.position(sess, lo)
        ex = ex and pl % 2 == 1
    if ht != INFTY:
        ph = line.position(sess, hi)
        ex = ex and ph % 2 == 1
    if not ex and lt != INFTY and ht != INFTY:
        c = sess.dom.cmp(lo, hi)
        if c > 0 or (c == 0 and not (lt == WEAK and ht == WEAK)):
            return 0, True
    return line.range(pl, lt, ph, ht), ex


def show_spec(spec, p):
    if spec == EMPTY:
        return "empty"
    lt, ut = spec
    return "%s%s, %s%s" % ("(" if lt != WEAK else "[", "-oo" if lt == INFTY else p + "l", "oo" if ut == INFTY else p + "u", ")" if ut != WEAK else "]")


def show_order(order):
    by = {}
    for n, r in order.items():
        by.setdefault(r, []).append(n.lstrip("#"))
    return " < ".join("=".join(sorted(by[r])) for r in sorted(by))


def show_iv(sess, iv):
    lo, lt, hi, ht = read(sess, iv)
    return "%s%s, %s%s" % ("(" if lt != WEAK else "[", "-oo" if lt == INFTY else lo, "oo" if ht == INFTY else hi, ")" if ht != WEAK else "]")


def classes(prefixes, extra=(), specs=ALL_SPECS, zero=True, consts=("#0",)):
    """all (specs, order) classes for intervals with the given prefixes and extra atoms"""
    import itertools
    cache = {}
    for combo in itertools.product(specs, repeat=len(prefixes)):
        names = [n for s, p in zip(combo, prefixes) for n in spec_names(s, p)] + list(extra) + (list(consts) if zero else [])
        key = tuple(names)
        if key not in cache:
            os_ = []
            for o in weak_orders(names):
                # constants are ordered as they are
                cs = sorted((Fraction(n[1:]), r) for n, r in o.items() if n.startswith("#"))
                if all(a[1] < b[1] for a, b in zip(cs, cs[1:])):
                    os_.append(o)
            cache[key] = os_
        for o in cache[key]:
            if all(spec_ok(s, p, o) for s, p in zip(combo, prefixes)):
                yield combo, o


def decide(sess, mkworld, q, body, desc, rule, group=None, key=None):
    """evaluate body (-> (ok, text)) on every abstract path and emit events"""
    for o in sess.explore(mkworld, body):
        yield ("count", "obligations " + (group or q[2:]), 1)
        if o.kind == "ok" and o.v[0]:
            continue
        tr = sess.trace(body, mkworld)
        yield ("violation", dict(rule=rule, where=sess.target(q), instance=desc,
               detail="result %s; path %s" % (o.v[1] if o.kind == "ok" else "%s %s" % (o.kind, o.msg), " -> ".join(tr)),
               key=key))
