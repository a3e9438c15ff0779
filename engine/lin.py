"""Domain of integers and fractions: linear forms over integer atoms and atoms in (0,1), decided by elimination."""
from fractions import Fraction
from dom import IntWorld, Sym, ZERO, ONE, mk, p_add, p_sub, p_mul, p_neg
from interp import Infeasible, Unsupported


def feasible(cons):
    """cons: list of (coefficients by name, constant, strict) read as form > 0 or form >= 0"""
    while True:
        tight = {}
        for c, k, s in cons:          # of parallel constraints only the strongest counts
            x = abs(c[min(c)]) if c else ONE
            d = tuple(sorted((b, v / x) for b, v in c.items()))
            if d not in tight or (k / x, not s) < tight[d]:
                tight[d] = (k / x, not s)
        cons = [(dict(d), k, not n) for d, (k, n) in tight.items()]
        names = {a for c, _, _ in cons for a in c}
        if not names:
            return all(k > 0 if s else k >= 0 for _, k, s in cons)
        a = min(names)
        lo, hi, rest = [], [], []
        for c, k, s in cons:
            x = c.get(a)
            if x is None:
                rest.append((c, k, s))
            else:
                (lo if x > 0 else hi).append(({b: v / abs(x) for b, v in c.items() if b != a}, k / abs(x), s))
        for c, k, s in lo:
            for d, l, t in hi:
                e = dict(c)
                for b, v in d.items():
                    e[b] = e.get(b, 0) + v
                rest.append(({b: v for b, v in e.items() if v}, k + l, s or t))
        cons = rest


class LinWorld(IntWorld):
    """fracs: atoms known to lie strictly between zero and one; ints: integer atoms with optional bounds (lowest, highest)"""

    def __init__(self, paths, ints=(), fracs=(), depth=None):
        IntWorld.__init__(self, paths, ints)
        self.fr = set(fracs)
        self.bounds = dict(ints) if isinstance(ints, dict) else {a: (None, None) for a in ints}
        self.cons = []
        for f in fracs:
            self.cons += [({f: ONE}, ZERO, True), ({f: -ONE}, ONE, True)]
        self.depth = depth
        for a, (l, h) in self.bounds.items():
            if l is not None and l > 0:
                self.positive(Sym.atom(a))

    def linear(self, q):
        """(integer atoms, fraction atoms, constant) or None"""
        i, f, c = {}, {}, ZERO
        if not isinstance(q, Sym):
            return i, f, q
        for m, k in q.t.items():
            if not m:
                c = k
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] in self.fr:
                f[m[0][0]] = k
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] in self.bounds:
                i[m[0][0]] = k
            else:
                return None
        return i, f, c

    def fractions(self, p):
        return any(a in self.fr for m in p.t for a, _ in m)

    def pick(self, options):
        """options: (value, constraints); splits among the feasible ones"""
        ok = [(v, cs) for v, cs in options if feasible(self.cons + cs)]
        if not ok:
            raise Infeasible()
        if len(ok) > 1:
            if self.no_split:
                raise Unsupported("undetermined linear form")
            self.splits += 1
            if self.depth is not None and self.splits > self.depth:
                self.cut()
            v, cs = ok[self.paths.choose(len(ok))]
            self.cons += cs
            return v
        self.cons += ok[0][1]
        return ok[0][0]

    def cut(self):
        raise Infeasible()

    def frac_sign(self, f, c):
        if not f:
            return (c > 0) - (c < 0)
        n = {a: -k for a, k in f.items()}
        return self.pick([(1, [(f, c, True)]), (0, [(f, c, False), (n, -c, False)]), (-1, [(n, -c, True)])])

    def frac_floor(self, f, c):
        """(floor, whether the form is an integer)"""
        if not f:
            n = Fraction(c.numerator // c.denominator)
            return n, n == c
        lo, hi = c + sum(min(k, 0) for k in f.values()), c + sum(max(k, 0) for k in f.values())
        opts, n = [], {a: -k for a, k in f.items()}
        k = Fraction(lo.numerator // lo.denominator)
        while k <= hi:
            opts.append(((k, True), [(f, c - k, False), (n, k - c, False)]))
            opts.append(((k, False), [(f, c - k, True), (n, k + 1 - c, True)]))
            k += 1
        return self.pick(opts)

    def int_sign(self, a, k):
        """sign of a + k for an integer atom and an integer constant"""
        l, h = self.bounds[a]
        opts = []
        if l is None or l < -k: opts.append(-1)
        if (l is None or l <= -k) and (h is None or h >= -k): opts.append(0)
        if h is None or h > -k: opts.append(1)
        if not opts:
            raise Infeasible()
        if len(opts) > 1:
            if self.no_split:
                raise Unsupported("undetermined integer")
            self.splits += 1
            s = opts[self.paths.choose(len(opts))]
        else:
            s = opts[0]
        if s < 0:
            h = -k - 1 if h is None else min(h, -k - 1)
        elif s > 0:
            l = -k + 1 if l is None else max(l, -k + 1)
        else:
            l = h = -k
        self.bounds[a] = (l, h)
        if l is not None and l == h:
            self.subst[a] = Fraction(l)
        return s

    def lin_sign(self, lin):
        i, f, c = lin
        if not i:
            return self.frac_sign(f, c)
        if len(i) > 1:
            ss = {self.atom_range(a, k) for a, k in i.items()} | ({self.quiet(f, c)} if f or c else set())
            if len(ss) == 1 and None not in ss:
                return ss.pop()
            raise Unsupported("sign of a form with %d integers" % len(i))
        (a, k), = i.items()
        n, exact = self.frac_floor({b: v / k for b, v in f.items()}, c / k)
        s = self.int_sign(a, n)
        if not exact and s == 0:
            s = 1
        return s if k > 0 else -s

    def atom_range(self, a, k):
        l, h = self.bounds[a]
        s = 1 if l is not None and l > 0 else -1 if h is not None and h < 0 else None
        return None if s is None else s if k > 0 else -s

    def quiet(self, f, c):
        old, self.no_split = self.no_split, True
        try:
            return self.frac_sign(f, c)
        except Unsupported:
            return None
        finally:
            self.no_split = old

    def sign(self, p):
        p = self.norm(p)
        if not isinstance(p, Sym):
            return (p > 0) - (p < 0)
        lin = self.linear(p)
        if lin is not None:
            return self.lin_sign(lin)
        s, common, q = self.split(p)
        for a, e in sorted(common.items()):
            x = self.sign(Sym.atom(a)) if a in self.fr or a in self.bounds else self.sign_fact(Sym.atom(a))
            if x == 0:
                return 0
            s *= x if e % 2 else 1
        if q is None:
            return s
        lin = self.linear(q)
        return s * (self.lin_sign(lin) if lin is not None else self.sign_fact(q))

    def is_zero(self, p):
        return self.sign(p) == 0

    def parts(self, x):
        x = self.norm(x)
        i, f, c = {}, {}, ZERO
        for m, k in (x.t.items() if isinstance(x, Sym) else [((), x)]):
            if not m:
                c = k
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] in self.fr:
                f[m[0][0]] = k
            elif k.denominator == 1 and all(e > 0 and (a in self.bounds or a in self.ints) for a, e in m):
                i[m] = k
            else:
                raise Unsupported("integrality of %r" % (x,))
        n, exact = self.frac_floor(f, c)
        return p_add(mk(i), n), exact

    def floor(self, x):
        return self.parts(x)[0]

    def is_int(self, x):
        return self.parts(x)[1]
