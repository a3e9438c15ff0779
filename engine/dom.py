"""Number domains.

Numbers are Fractions (known constants) or Sym values: value-numbered Laurent
polynomials over atoms.  A World fixes what is known about the atoms: their rank in
a total preorder that contains zero, hence their signs.  The sign of a difference is
derived from ranks and sign rules; when it is not determined the state is split into
the three cases and the assumption is remembered for the rest of the path.
"""
import itertools
import math
from fractions import Fraction
from interp import Unsupported, Infeasible, UNINIT, AssertFail

ZERO = Fraction(0)
ONE = Fraction(1)


class Sym:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def atom(name):
        return Sym({((name, 1),): ONE})

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Sym) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        def m(mo):
            return "*".join(a if e == 1 else "%s^%d" % (a, e) for a, e in mo)
        out = []
        for mo, c in self.key():
            if not mo:
                out.append(str(c))
            elif c == 1:
                out.append(m(mo))
            elif c == -1:
                out.append("-" + m(mo))
            else:
                out.append("%s*%s" % (c, m(mo)))
        return " + ".join(out).replace("+ -", "- ")


def terms(x):
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        return {(): Fraction(x)} if x else {}
    raise Unsupported("not a number: %r" % (x,))


def mk(t):
    t = {m: c for m, c in t.items() if c}
    if not t:
        return ZERO
    if len(t) == 1 and () in t:
        return t[()]
    return Sym(t)


def p_add(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    r = dict(terms(a))
    for m, c in terms(b).items():
        r[m] = r.get(m, 0) + c
    return mk(r)


def p_neg(a):
    if isinstance(a, Fraction):
        return -a
    return mk({m: -c for m, c in terms(a).items()})


def p_sub(a, b):
    return p_add(a, p_neg(b))


def mono_mul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted((x, e) for x, e in d.items() if e))


def p_mul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    r = {}
    for m1, c1 in terms(a).items():
        for m2, c2 in terms(b).items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return mk(r)


def p_inv(b):
    if isinstance(b, Fraction):
        return 1 / b
    t = terms(b)
    if len(t) == 1:
        (m, c), = t.items()
        return mk({tuple((x, -e) for x, e in m): 1 / c})
    raise Unsupported("division by a sum: %r" % (b,))


class World:
    """knowledge about atoms"""

    def __init__(self, paths, rank=None, zero=None):
        self.paths = paths
        self.rank = rank or {}       # atom -> rank
        self.zero = zero             # rank of 0
        self.crank = {}              # other constants -> rank
        self.facts = {}
        self.signs = {}              # atom -> sign for unranked atoms
        self.splits = 0
        self.no_split = False

    def atom_sign(self, a):
        if a in self.signs:
            return self.signs[a]
        if a in self.rank and self.zero is not None:
            r = self.rank[a]
            return (r > self.zero) - (r < self.zero)
        return None

    def term_sign(self, m, c):
        s = 1 if c > 0 else -1
        for a, e in m:
            sa = self.atom_sign(a)
            if sa is None:
                if e % 2 == 0 and False:
                    continue
                return None
            if sa == 0:
                return 0
            if e % 2:
                s *= sa
        return s

    def abs_le(self, a, b):
        """|a| vs |b| for atoms: -1,0,1 or None"""
        if a == b:
            return 0
        sa, sb = self.atom_sign(a), self.atom_sign(b)
        if sa is None or sb is None:
            return None
        if sa == sb and a in self.rank and b in self.rank:
            d = (self.rank[a] > self.rank[b]) - (self.rank[a] < self.rank[b])
            return d * sa
        if sa * sb < 0:
            # sa*a - sb*b is sa*(a + b)
            r = self.facts.get(Sym({((a, 1),): Fraction(1), ((b, 1),): Fraction(1)}).key())
            return None if r is None else r * sa
        return None

    def sign(self, p):
        if isinstance(p, (Fraction, int)):
            return (p > 0) - (p < 0)
        if not isinstance(p, Sym):
            raise Unsupported("sign of %r" % (p,))
        t = p.t
        # common monomial factor
        common = None
        for m in t:
            d = dict(m)
            if common is None:
                common = d
            else:
                new = {}
                for a in set(common) | set(d):
                    e = min(common.get(a, 0), d.get(a, 0))
                    if e:
                        new[a] = e
                common = new
        s = 1
        if common:
            for a, e in common.items():
                sa = self.atom_sign(a)
                if sa is None:
                    if e % 2 == 0:
                        raise Unsupported("sign of square of unknown")
                    sa = self.sign_unknown(Sym.atom(a))
                if sa == 0:
                    if e < 0:
                        raise Unsupported("division by zero")
                    return 0
                if e % 2:
                    s *= sa
            inv = tuple((a, -e) for a, e in common.items())
            t = {mono_mul(m, inv): c for m, c in t.items()}
        if len(t) == 1:
            (m, c), = t.items()
            if not m:
                return s * ((c > 0) - (c < 0))
        return s * self.sign_rest(mk(t))

    def sign_rest(self, p):
        # normalise: primitive, leading positive
        items = p.key()
        lead = items[0][1]
        q = mk({m: c / abs(lead) for m, c in p.t.items()})
        f = 1
        if lead < 0:
            q = p_neg(q)
            f = -1
        if isinstance(q, Fraction):
            return f * ((q > 0) - (q < 0))
        k = q.key()
        if k in self.facts:
            return f * self.facts[k]
        s = self.derive(q)
        if s is None:
            s = self.powers(q)
        if s is None:
            s = self.sign_unknown(q)
        return f * s

    def powers(self, q):
        """c*a^k - c*b^k has the sign given by |a| against |b|"""
        if len(q.t) != 2:
            return None
        (m1, c1), (m2, c2) = q.t.items()
        if len(m1) != 1 or len(m2) != 1 or m1[0][1] != m2[0][1] or m1[0][1] < 2 or abs(c1) != abs(c2):
            return None
        s1, s2 = self.term_sign(m1, c1), self.term_sign(m2, c2)
        if s1 is None or s2 is None or s1 * s2 >= 0:
            return None
        a, b = m1[0][0], m2[0][0]
        d = Sym({((a, 1),): Fraction(self.atom_sign(a)), ((b, 1),): Fraction(-self.atom_sign(b))})
        return s1 * self.sign(d)

    def derive(self, q):
        t = q.t
        if len(t) == 2:
            (m1, c1), (m2, c2) = sorted(t.items())
            if len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1 and c1 == -c2:
                a, b = m1[0][0], m2[0][0]
                if a in self.rank and b in self.rank:
                    d = (self.rank[a] > self.rank[b]) - (self.rank[a] < self.rank[b])
                    return d if c1 > 0 else -d
            if m1 == () and len(m2) == 1 and m2[0][1] == 1 and self.crank:
                k, a = -c1 / c2, m2[0][0]
                if a in self.rank and k in self.crank:
                    d = (self.rank[a] > self.crank[k]) - (self.rank[a] < self.crank[k])
                    return d if c2 > 0 else -d
        ss = [self.term_sign(m, c) for m, c in t.items()]
        if None not in ss:
            if all(x >= 0 for x in ss):
                return 1 if any(ss) else 0
            if all(x <= 0 for x in ss):
                return -1
            if len(t) == 2:
                (m1, c1), (m2, c2) = sorted(t.items())
                s1 = self.term_sign(m1, c1)
                r = self.abs_cmp(m1, abs(c1), m2, abs(c2))
                if r is not None:
                    return r * s1
        return self.derive_more(q)

    def derive_more(self, q):
        """linear forms over ranked atoms: a combination of the positive gaps between consecutive ranks"""
        coef = {}
        for m, c in q.t.items():
            if not m:
                return None
            if len(m) != 1 or m[0][1] != 1 or m[0][0] not in self.rank:
                return None
            r = self.rank[m[0][0]]
            coef[r] = coef.get(r, 0) + c
        if sum(coef.values()) != 0:
            if self.zero is None:
                return None
            coef[self.zero] = coef.get(self.zero, 0) - sum(coef.values())
        acc, signs = 0, set()
        for r in sorted(coef, reverse=True)[:-1]:
            acc += coef[r]
            if acc:
                signs.add(1 if acc > 0 else -1)
        if len(signs) == 0:
            return 0
        return signs.pop() if len(signs) == 1 else None

    def abs_cmp(self, m1, c1, m2, c2):
        """compare |c1*m1| with |c2*m2| by matching atoms"""
        l1 = [a for a, e in m1 for _ in range(e)] if all(e > 0 for _, e in m1) else None
        l2 = [a for a, e in m2 for _ in range(e)] if all(e > 0 for _, e in m2) else None
        if l1 is None or l2 is None or len(l1) != len(l2):
            return None
        from itertools import permutations
        cc = (c1 > c2) - (c1 < c2)
        for perm in permutations(l2):
            rs = [self.abs_le(a, b) for a, b in zip(l1, perm)]
            if None in rs:
                continue
            rs.append(cc)
            if all(r >= 0 for r in rs):
                return 1 if any(rs) else 0
            if all(r <= 0 for r in rs):
                return -1
        return None

    def sign_unknown(self, q):
        if self.no_split:
            raise Unsupported("undetermined sign of %r" % (q,))
        self.splits += 1
        s = (-1, 0, 1)[self.paths.choose(3)]
        self.facts[q.key()] = s
        return s

    def known_sign(self, p):
        """sign without splitting (None when undetermined)"""
        old = self.no_split
        self.no_split = True
        try:
            return self.sign(p)
        except Unsupported:
            return None
        finally:
            self.no_split = old


def tdiv_q(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


INTDIV = {"fdiv_q": lambda a, b: a // b, "fdiv_r": lambda a, b: a - b * (a // b), "mod": lambda a, b: a % abs(b),
          "tdiv_q": tdiv_q, "tdiv_r": lambda a, b: a - b * tdiv_q(a, b), "cdiv_q": lambda a, b: -(-a // b),
          "cdiv_r": lambda a, b: a + b * (-a // b), "divexact": tdiv_q}


class Dom:
    """number domain used by the interpreter"""

    def __init__(self):
        self.w = None

    def const(self, x):
        return Fraction(x)

    def num(self, x):
        if type(x) is bool:
            return Fraction(int(x))
        if type(x) is int:
            return Fraction(x)
        if isinstance(x, (Fraction, Sym)):
            return x
        if x is UNINIT:
            raise Unsupported("use of uninitialised number")
        raise Unsupported("number expected, got %r" % (x,))

    def is_number(self, x):
        return isinstance(x, (Fraction, Sym))

    def absval(self, x):
        if type(x) is int:
            return abs(x)
        return x if self.cmp(x, ZERO) >= 0 else self.neg(x)

    def is_special(self, x):
        return False

    def add(self, a, b): return p_add(self.num(a), self.num(b))
    def sub(self, a, b): return p_sub(self.num(a), self.num(b))
    def mul(self, a, b): return p_mul(self.num(a), self.num(b))
    def neg(self, a): return p_neg(self.num(a))

    def fdiv(self, a, b):
        """exact division"""
        a, b = self.num(a), self.num(b)
        if self.cmp_op("==", b, ZERO):
            raise AssertFail("division by zero")
        return p_mul(a, p_inv(b))

    def cmp(self, a, b):
        a, b = self.num(a), self.num(b)
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return (a > b) - (a < b)
        if a is b:
            return 0
        return self.w.sign(p_sub(a, b))

    def cmp_op(self, op, a, b):
        if op in ("==", "!=") and isinstance(self.w, AlgWorld):
            return self.w.is_zero(p_sub(self.num(a), self.num(b))) == (op == "==")
        c = self.cmp(a, b)
        if op == "<": return c < 0
        if op == ">": return c > 0
        if op == "<=": return c <= 0
        if op == ">=": return c >= 0
        if op == "==": return c == 0
        if op == "!=": return c != 0
        raise Unsupported(op)

    def truth(self, v):
        if isinstance(v, (Sym, Fraction)):
            return self.cmp_op("!=", v, ZERO)
        raise Unsupported("truth of %r" % (v,))

    # abstract machine integers (no overflow assumed)
    def int_op(self, op, a, b, ty):
        if op == "neg": return self.neg(a)
        if op == "+": return self.unint(self.add(a, b))
        if op == "-": return self.unint(self.sub(a, b))
        if op == "*": return self.unint(self.mul(a, b))
        if op in ("/", "%") and isinstance(self.w, IntWorld):
            return self.unint(self.func("tdiv_q" if op == "/" else "tdiv_r", [a, b]))
        raise Unsupported("integer operation %s on abstract values %r %r" % (op, a, b))

    def tdiv_q(self, a, b):
        return self.func("tdiv_q", [a, b])

    def tdiv_r(self, a, b):
        return self.func("tdiv_r", [a, b])

    def unint(self, v):
        if isinstance(v, Fraction) and v.denominator == 1:
            return int(v)
        return v

    def int_cast(self, v, ty):
        return v

    def float_to_int(self, v, ty):
        if isinstance(v, Fraction):
            q = abs(v.numerator) // v.denominator
            return q if v >= 0 else -q
        raise Unsupported("float to int conversion of abstract value")

    def int_cmp(self, op, a, b):
        return self.cmp_op(op, a, b)

    def floor(self, x):
        x = self.num(x)
        if isinstance(x, Fraction):
            return Fraction(x.numerator // x.denominator)
        if isinstance(self.w, IntWorld):
            return self.w.floor(x)
        raise Unsupported("floor of abstract value")

    def ceil(self, x):
        return self.neg(self.floor(self.neg(x)))

    def trunc(self, x):
        return self.floor(x) if self.cmp(x, ZERO) >= 0 else self.ceil(x)

    def is_int(self, x):
        x = self.num(x)
        if isinstance(x, Fraction):
            return x.denominator == 1
        if isinstance(self.w, IntWorld):
            return self.w.is_int(x)
        raise Unsupported("integrality of abstract value")

    def denom(self, x):
        """denominator: of an abstract value any non-zero number; the numerator is the matching multiple"""
        x = self.num(x)
        if isinstance(x, Fraction):
            return Fraction(x.denominator)
        if not isinstance(self.w, AlgWorld):
            raise Unsupported("denominator of an abstract value")
        if isinstance(self.w, IntWorld):
            if self.w.is_int(x):
                return ONE
            x = self.w.norm(x)
            y = p_inv(x) if isinstance(x, Sym) and len(x.t) == 1 and not self.w.fractions(x) else None
            if isinstance(y, Sym) and self.w.is_int(y) and list(y.t.values())[0] == 1:
                return y          # one over an integer
            d = Sym.atom("den(%r)" % (x,))
            self.w.ints.add("den(%r)" % (x,))
            self.w.positive(d)
            return d
        d = Sym.atom("den(%r)" % (self.w.norm(x),))
        self.w.nz.add(d.key())
        return d

    def numer(self, x):
        x = self.num(x)
        if isinstance(x, Fraction):
            return Fraction(x.numerator)
        return p_mul(x, self.denom(x))

    def func(self, name, args):
        """integer functions: computed for constants, otherwise an opaque value of their arguments"""
        args = [self.num(x) for x in args]
        if all(isinstance(x, Fraction) for x in args):
            if any(x.denominator != 1 for x in args):
                raise Unsupported("%s of fractions" % name)
            a = [int(x) for x in args]
            if name in ("gcd", "lcm"):
                return Fraction(getattr(math, name)(*a))
            if name in INTDIV:
                if a[1] == 0:
                    raise AssertFail("division by zero")
                return Fraction(INTDIV[name](*a))
            raise Unsupported("function %s" % name)
        if name in INTDIV:
            if self.cmp_op("==", args[1], ZERO):
                raise AssertFail("division by zero")
            if args[0] == 0:
                return ZERO
            if isinstance(self.w, IntWorld):
                return self.int_div(name, *args)
        if not isinstance(self.w, AlgWorld):
            raise Unsupported("%s of abstract values" % name)
        args = [self.w.norm(x) for x in args]
        return Sym.atom("%s(%s)" % (name, ",".join(repr(x) for x in args)))

    def int_div(self, name, a, b):
        x = p_mul(a, p_inv(b))
        if name == "mod":
            b = self.absval(b)
            return p_sub(a, p_mul(b, self.floor(p_mul(a, p_inv(b)))))
        if name == "divexact":
            return x
        f, r = name.split("_")
        q = {"f": self.floor, "c": self.ceil, "t": self.trunc}[f[0]](x)
        return q if r == "q" else p_sub(a, p_mul(b, q))

    def concretize_int(self, v, cases):
        for c in cases:
            if self.cmp(v, Fraction(c)) == 0:
                return c
        return None


def rational_root(c):
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    return Fraction(n, d) if n * n == c.numerator and d * d == c.denominator else None


def two_squares(q):
    """the two factors of A^2 - B^2 or (A + B)^2 for monomials A and B, or None"""
    if len(q.t) not in (2, 3):
        return None
    lead = next((c for m, c in sorted(q.t.items()) if all(e % 2 == 0 for _, e in m)), None)
    if lead is None:
        return None
    n = mk({m: c / lead for m, c in q.t.items()})
    sq = []
    for m, c in n.t.items():
        r = rational_root(abs(c))
        if r and all(e % 2 == 0 for _, e in m):
            sq.append((c, mk({tuple((a, e // 2) for a, e in m): r})))
    if len(n.t) == 2 and len(sq) == 2 and sq[0][0] * sq[1][0] < 0:
        a, b = (sq[0][1], sq[1][1]) if sq[0][0] > 0 else (sq[1][1], sq[0][1])
        return p_mul(lead, p_sub(a, b)), p_add(a, b)
    if len(n.t) == 3:
        for (c, a), (d, b) in itertools.combinations(sq, 2):
            if c > 0 and d > 0:
                for f in (p_add(a, b), p_sub(a, b)):
                    z = p_sub(p_mul(f, f), n)
                    if not isinstance(z, Sym) and z == 0:
                        return p_mul(lead, f), f
    return None


class AlgWorld(World):
    """atoms of an ordered field without a given order: equations found on the path are solved for an atom"""

    def __init__(self, paths, nonzero=()):
        World.__init__(self, paths)
        self.subst, self.unsolved = {}, []
        self.nz = {Sym.atom(a).key() for a in nonzero}

    def norm(self, p, scale=False):
        """p modulo the equations known on this path, up to a positive factor with scale"""
        if not isinstance(p, Sym) or not self.subst:
            return p
        for _ in range(50):
            hit = None
            for m in p.t:
                for a, _e in m:
                    if a in self.subst:
                        hit = a
                        break
                if hit:
                    break
            if hit is None:
                return p
            v, out = self.subst[hit], ZERO
            low = min(dict(m).get(hit, 0) for m in p.t)
            if scale and low < 0 and isinstance(v, Sym) and len(v.t) > 1:
                p = p_mul(p, mk({((hit, -low + low % 2),): ONE}))
            for m, c in p.t.items():
                e = dict(m).get(hit, 0)
                r = mk({tuple(x for x in m if x[0] != hit): c})
                f = v if e > 0 else p_inv(v) if e < 0 else ONE
                for _ in range(abs(e)):
                    r = p_mul(r, f)
                out = p_add(out, r)
            p = out
            if not isinstance(p, Sym):
                return p
        raise Unsupported("cyclic equations")

    def split(self, p):
        """sign of the constant, atoms of the common factor with exponents, and the normalised rest (or None)"""
        t = p.t
        common = None
        for m in t:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: e for a, e in ((a, min(common.get(a, 0), d.get(a, 0))) for a in set(common) | set(d)) if e}
        if common:
            inv = tuple((a, -e) for a, e in common.items())
            t = {mono_mul(m, inv): c for m, c in t.items()}
        q = mk(t)
        if isinstance(q, Fraction):
            return (q > 0) - (q < 0), common, None
        lead = q.key()[0][1]
        q = mk({m: c / lead for m, c in q.t.items()})
        return (1 if lead > 0 else -1), common, q

    def factors(self, q):
        """differences of two squares and squares of two-term sums are split, the leading coefficients stay 1"""
        k = q.key()
        r = None if k in self.facts or k in self.nz else two_squares(q)
        if r is None:
            return 1, [q]
        s, out = 1, []
        for f in r:
            if not isinstance(f, Sym):
                return 1, [q]
            s1, common, f1 = self.split(f)
            if common or f1 is None:
                return 1, [q]
            s2, more = self.factors(f1)
            s, out = s * s1 * s2, out + more
        return s, out

    def is_zero(self, p):
        p = self.norm(p, True)
        if not isinstance(p, Sym):
            return p == 0
        s, common, q = self.split(p)
        for a, e in sorted(common.items()):
            if e > 0 and self.zero_fact(Sym.atom(a)):
                return True
        return q is not None and any(self.zero_fact(f) for f in self.factors(q)[1])

    def zero_fact(self, q):
        k = q.key()
        if k in self.facts:
            return self.facts[k] == 0
        if k in self.nz:
            return False
        if self.no_split:
            raise Unsupported("undetermined equality of %r with zero" % (q,))
        self.splits += 1
        if self.paths.choose(2):
            self.nz.add(k)
            return False
        self.learn_zero(q)
        return True

    def sign(self, p):
        p = self.norm(p, True)
        if not isinstance(p, Sym):
            return (p > 0) - (p < 0)
        s, common, q = self.split(p)
        for a, e in sorted(common.items()):
            x = self.sign_fact(Sym.atom(a)) if e % 2 else (0 if self.zero_fact(Sym.atom(a)) else 1)
            if x == 0:
                return 0
            s *= x
        if q is None:
            return s
        s1, fs = self.factors(q)
        s *= s1
        for f in fs:
            s *= self.sign_fact(f) if s else 0
        return s

    def sign_fact(self, q):
        k = q.key()
        if k in self.facts:
            return self.facts[k]
        if self.no_split:
            raise Unsupported("undetermined sign of %r" % (q,))
        self.splits += 1
        if k in self.nz:
            s = (-1, 1)[self.paths.choose(2)]
        else:
            s = (-1, 0, 1)[self.paths.choose(3)]
        if s == 0:
            self.learn_zero(q)
        else:
            self.facts[k] = s
        return s

    def atom_sign(self, a):
        return self.facts.get(Sym.atom(a).key())

    def learn_zero(self, q):
        self.facts[q.key()] = 0
        count = {}
        for m in q.t:
            for a, e in m:
                count[a] = count.get(a, 0) + 1
        done = False
        for m, c in sorted(q.t.items(), key=lambda x: (len(x[0]), x)):
            for a, e in m:
                rest = tuple(x for x in m if x[0] != a)
                if e == 1 and count[a] == 1 and all(Sym.atom(b).key() in self.nz or self.facts.get(Sym.atom(b).key()) for b, _ in rest):
                    inv = mk({tuple((b, -k) for b, k in rest): 1 / c})
                    self.subst[a] = p_mul(inv, mk({x: -d for x, d in q.t.items() if x != m}))
                    done = True
                    break
            if done:
                break
        if not done:
            self.unsolved.append(q)
            return
        # restate what is known
        facts, nz = list(self.facts.items()), list(self.nz)
        self.facts, self.nz = {}, set()
        for k, s in facts:
            p = self.norm(Sym(dict(k)), True)
            if not isinstance(p, Sym):
                if ((p > 0) - (p < 0)) != s:
                    raise Infeasible()
                continue
            f, common, r = self.split(p)
            if not common and r is not None:
                old = self.facts.get(r.key())
                if old is not None and old != s * f:
                    raise Infeasible()
                self.facts[r.key()] = s * f
            elif len(common) == 1 and r is None and list(common.values()) == [1]:
                kk = Sym.atom(list(common)[0]).key()
                if self.facts.get(kk, s * f) != s * f:
                    raise Infeasible()
                self.facts[kk] = s * f
            elif s:
                self.extra = True       # a product: keep its factors non-zero
                for a in common:
                    self.nz.add(Sym.atom(a).key())
                if r is not None:
                    self.nz.add(r.key())
        for k in nz:
            p = self.norm(Sym(dict(k)), True)
            if not isinstance(p, Sym):
                if p == 0:
                    raise Infeasible()
                continue
            f, common, r = self.split(p)
            for a in common:
                self.nz.add(Sym.atom(a).key())
            if r is not None:
                self.nz.add(r.key())
        for k in self.nz:
            if self.facts.get(k) == 0:
                raise Infeasible()


class IntWorld(AlgWorld):
    """some atoms are integers, some expressions are known to lie strictly between zero and one"""

    def __init__(self, paths, ints=(), fracs=(), nonzero=(), positive=(), scales=()):
        AlgWorld.__init__(self, paths, nonzero)
        self.scales = list(scales)
        self.ints, self.fracs = set(ints), list(fracs)
        for p in positive:
            self.positive(p)
        for p in self.fracs:
            self.positive(p)
            self.positive(p_sub(ONE, p))

    def fractions(self, p):
        return False

    def positive(self, p):
        s, common, q = self.split(p)
        for a, e in common.items():
            k = Sym.atom(a).key()
            if e % 2 and self.facts.get(k) != 1 and (q is not None or len(common) > 1):
                raise Unsupported("positive product")
            if q is None and len(common) == 1:
                self.facts[k] = s
                self.nz.add(k)
        if q is not None:
            self.facts[q.key()] = s

    def sign(self, p):
        p = self.norm(p)
        if isinstance(p, Sym):
            _, common, q = self.split(p)
            if q is not None:
                rest = p_mul(p, mk({tuple((a, -e) for a, e in sorted(common.items())): ONE}))
                for d in [ONE] + self.scales:
                    s = self.between(p_mul(rest, p_inv(d)))
                    if s is not None:
                        for a, e in sorted(common.items()):
                            s *= self.sign_fact(Sym.atom(a)) if e % 2 else (0 if self.zero_fact(Sym.atom(a)) else 1)
                        return s
        return AlgWorld.sign(self, p)

    def is_zero(self, p):
        p = self.norm(p)
        if isinstance(p, Sym) and self.split(p)[2] is not None and not self.split(p)[1]:
            for d in [ONE] + self.scales:
                s = self.between(p_mul(p, p_inv(d)))
                if s is not None:
                    return s == 0
        return AlgWorld.is_zero(self, p)

    def between(self, x):
        """sign of a constant shifted by a fraction, or None"""
        try:
            n, c, s = self.parts(x)
        except Unsupported:
            return None
        if isinstance(n, Sym):
            return None
        lo = n + c
        if s == 0:
            return (lo > 0) - (lo < 0)
        lo, hi = (lo, lo + 1) if s > 0 else (lo - 1, lo)
        return 1 if lo >= 0 else -1 if hi <= 0 else None

    def parts(self, x):
        """integer part, rational constant in [0,1), sign and index of the fraction it is shifted by"""
        x = self.norm(x)
        if not isinstance(x, Sym):
            n = Fraction(x.numerator // x.denominator)
            return n, x - n, 0
        i, c, rest = {}, ZERO, {}
        for m, k in x.t.items():
            if not m:
                c = k
            elif k.denominator == 1 and all(e > 0 and a in self.ints for a, e in m):
                i[m] = k
            else:
                rest[m] = k
        i = mk(i)
        n = Fraction(c.numerator // c.denominator)
        if not rest:
            return p_add(i, n), c - n, 0
        r = mk(rest)
        for f in self.fracs:
            for s in (1, -1):
                d = p_sub(r, f if s > 0 else p_neg(f))
                if isinstance(d, Fraction):
                    c += d
                    n = Fraction(c.numerator // c.denominator)
                    return p_add(i, n), c - n, s
        raise Unsupported("integrality of %r" % (x,))

    def floor(self, x):
        n, c, s = self.parts(x)
        if s and c:
            raise Unsupported("floor of %r" % (x,))
        return p_sub(n, ONE) if s < 0 else n

    def is_int(self, x):
        n, c, s = self.parts(x)
        if s and c:
            raise Unsupported("integrality of %r" % (x,))
        return not s and not c
