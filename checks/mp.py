"""Monomials, terms and multivariate polynomials over opaque rational coefficients (C10, C11, C13, C15)."""
import itertools, re
import bits, containers
from fractions import Fraction
from interp import Cell, Struct, Ptr, Native, Unsupported, val, copyval
from dom import AlgWorld, Sym, ZERO, ONE, p_add, p_mul, p_neg, p_sub, p_inv
from models import Vec, VecIt, Pair, Opaque, Smart
from session import Session, mute, pmap

VARS = "xyz"


class Pool(Vec):
    """boost::intrusive::unordered_set: refers to elements that live elsewhere"""

    def copy(self):
        raise Unsupported("copy of an intrusive set")


def content(v):
    return tuple((val(c.v.first).get("mContent"), val(c.v.second)) for c in val(v).cells)


def setup(driver="mpoly.cpp"):
    sess = Session(driver)
    M, I = sess.models, sess.I
    bits.register(M)
    containers.register(M)
    mute(sess)
    orig = M.opaque_record

    def opaque(I, rec):
        n = rec["name"]
        if n.startswith("boost::intrusive::"):
            if n.split("<")[0] == "boost::intrusive::unordered_set":
                return Pool()
            return Opaque(n)
        return orig(I, rec)
    M.opaque_record = opaque

    def find(I, fn, this, a):
        if len(a) == 1:
            for i, c in enumerate(this.v.cells):
                if I.truth(val(I.call_root("q_samemon", c, a[0]))):
                    return VecIt(this.v, i)
            return VecIt(this.v, len(this.v.cells))
        if len(a) != 3:
            raise Unsupported("lookup in an intrusive set")
        for i, c in enumerate(this.v.cells):
            if I.truth(val(I.call_value(a[2], [a[0], c]))):
                return VecIt(this.v, i)
        return VecIt(this.v, len(this.v.cells))

    def check(I, fn, this, a):
        if isinstance(val(a[0]), Struct):
            it = find(I, fn, this, a[:3])
            return Pair(Cell(it), Cell(it.i == len(this.v.cells)))
        k = content(a[0])
        for i, c in enumerate(this.v.cells):
            if content(c.v.get("mExponents")) == k:
                return Pair(Cell(VecIt(this.v, i)), Cell(False))
        return Pair(Cell(VecIt(this.v, len(this.v.cells))), Cell(True))

    def commit(I, fn, this, a):
        this.v.cells.append(a[0])
        return VecIt(this.v, len(this.v.cells) - 1)

    def pool(I, fn, this, a):
        n = fn["name"]
        if n == "find": return find(I, fn, this, a)
        if n == "insert_check": return check(I, fn, this, a)
        if n == "insert_commit": return commit(I, fn, this, a)
        if n == "erase" and isinstance(val(a[0]), VecIt):
            del this.v.cells[val(a[0]).i]
            return VecIt(this.v, val(a[0]).i)
        if n == "size": return len(this.v.cells)
        if n == "end": return VecIt(this.v, len(this.v.cells))
        if fn.get("ctor"):
            if len(a) >= 1 and isinstance(val(a[0]), VecIt):
                this.v = VecIt(val(a[0]).vec, val(a[0]).i)
            return None
        if isinstance(val(this), VecIt):
            op = fn.get("op")
            if op == "->": return Ptr(val(this).cell())
            if op == "*": return val(this).cell()
            if op in ("==", "!="): return (val(this).i == val(a[0]).i) == (op == "==")
        if fn.get("op") in ("==", "!=") and len(a) == 2:
            return (val(a[0]).i == val(a[1]).i) == (fn["op"] == "==")
        raise Unsupported("intrusive set: " + n)
    M.pat(r"^boost::intrusive::", pool)
    I.override("carl::pool::RehashPolicy::numBucketsFor", lambda I, fn, this, a: 1)
    for f in sess.prog.fns.values():
        if f["qn"].endswith("Pool::check_rehash") or re.search(r"Pool<.*>::check_rehash$", f["qn"]):
            f["_model"] = lambda I, fn, this, a: None
    I.override("carl::Monomial::hashContent", lambda I, fn, this, a: 0)
    for f in sess.prog.fns.values():
        if f["qn"] == "carl::Singleton::getInstance" and "VariablePool" in f["sig"]:
            f["_model"] = lambda I, fn, this, a: Cell(None)
    return sess


# --- oracle: polynomials as {exponents: coefficient} -------------------------------------
def mkey(m):
    """graded order: total degree, then the larger exponent of the first differing variable is smaller"""
    return sum(m), tuple(-e for e in m)


def mmul(a, b):
    return tuple(x + y for x, y in zip(a, b))


def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = p_add(r.get(m, ZERO), c)
    return r


def pneg(a):
    return {m: p_neg(c) for m, c in a.items()}


def psub(a, b):
    return padd(a, pneg(b))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            r[k] = p_add(r.get(k, ZERO), p_mul(c, d))
    return r


def ppow(a, n):
    r = {ONEM: ONE}
    for _ in range(n):
        r = pmul(r, a)
    return r


def pderiv(a, v, n):
    r = {}
    for m, c in a.items():
        f, e = 1, m[v]
        for k in range(n):
            f *= e - k
        if f > 0 and e >= n:
            r[tuple(x - n if i == v else x for i, x in enumerate(m))] = p_mul(c, Fraction(f))
    return r


def psubst(a, subs):
    """subs: {variable index: polynomial}"""
    r = {}
    for m, c in a.items():
        t = {ONEM: c}
        for i, e in enumerate(m):
            if i in subs:
                t = pmul(t, ppow(subs[i], e))
            else:
                t = pmul(t, {tuple(e if j == i else 0 for j in range(len(m))): ONE})
        r = padd(r, t)
    return r


ONEM = (0,) * len(VARS)


def vmon(i, e=1):
    return tuple(e if j == i else 0 for j in range(len(VARS)))


class Env:
    def __init__(self, sess):
        self.sess, self.I, self.dom = sess, sess.I, sess.dom

    def zero(self, x):
        return self.dom.cmp_op("==", x, ZERO)

    def same(self, a, b):
        return all(self.zero(p_sub(a.get(m, ZERO), b.get(m, ZERO))) for m in set(a) | set(b))

    def nonzero(self, a):
        return {m: c for m, c in a.items() if not self.zero(c)}

    # concrete objects
    def var(self, i):
        v = val(self.I.call_root("q_novar"))
        field(v, lambda x: type(x) is int).v = (i + 1) << 3 | 1
        return v

    def mon(self, m):
        if not any(m):
            return self.I.call_root("q_null")
        c = Cell(val(self.I.call_root("q_content")))
        for i, e in enumerate(m):
            if e:
                self.I.call_root("q_push", c, self.var(i), e)
        return self.I.call_root("q_mon", c)

    def term(self, m, c):
        return val(self.I.call_root("q_tcm", Cell(c), Cell(self.mon(m))))

    def poly(self, terms, ordered):
        p = val(self.I.call_root("q_zero"))
        field(p, lambda x: isinstance(x, Vec)).v = Vec([Cell(self.term(m, c)) for m, c in terms])
        field(p, lambda x: type(x) is bool).v = ordered
        return p

    # reading
    def rmon(self, m):
        m = val(m)
        if not isinstance(m, Smart):
            raise Unsupported("monomial %r" % (m,))
        if m.p is None:
            return ONEM
        e = [0] * len(VARS)
        prev = 0
        for c in field(m.cell().v, lambda x: isinstance(x, Vec)).v.cells:
            i = (field(c.v.first.v, lambda x: type(x) is int).v >> 3) - 1
            if i < prev or val(c.v.second) == 0 or e[i]:
                return None
            e[i] = val(c.v.second)
        return tuple(e)

    def rterm(self, t):
        t = val(t)
        return (self.rmon(field(t, lambda x: isinstance(x, Smart)).v),
                self.dom.num(field(t, lambda x: not isinstance(x, Smart)).v))

    def terms(self, p):
        p = val(p)
        return [self.rterm(c.v) for c in field(p, lambda x: isinstance(x, Vec)).v.cells], field(p, lambda x: type(x) is bool).v

    def pval(self, p):
        r = {}
        for m, c in self.terms(p)[0]:
            r = padd(r, {m: c})
        return r

    def invariant(self, p):
        """None or what is wrong"""
        ts, ordered = self.terms(p)
        ms = [m for m, _ in ts]
        if None in ms:
            return "malformed monomial"
        for m, c in ts:
            if self.zero(c):
                return "zero coefficient of %s" % show(m)
        if len(set(ms)) != len(ms):
            return "two terms with the same monomial"
        if ONEM in ms[1:]:
            return "constant term is not the first one"
        if ms and max(ms, key=mkey) != ms[-1]:
            return "last term is not the leading one"
        if ordered and sorted(ms, key=mkey) != ms:
            return "marked as ordered but not sorted"
        return None


def field(s, pred):
    """the only data member of a kind"""
    if not isinstance(s, Struct):
        raise Unsupported("representation %r" % (s,))
    fs = [c for c in s.f.values() if pred(c.v)]
    if len(fs) != 1:
        raise Unsupported("representation of %s" % s.rec["name"])
    return fs[0]


def show(m):
    return "*".join(v if e == 1 else "%s^%d" % (v, e) for v, e in zip(VARS, m) if e) or "1"


# --- operand shapes ------------------------------------------------------------------------
def arrangements(ms):
    """storage orders the representation allows, with the flag"""
    ms = sorted(ms, key=mkey)
    yield ms, True
    if len(ms) < 3:
        yield ms, False
        return
    head = ms[:1] if ms[0] == ONEM else []
    for mid in itertools.permutations(ms[len(head):-1]):
        yield head + list(mid) + ms[-1:], False


def shapes(pool, n, flags=True):
    for k in range(n + 1):
        for s in itertools.combinations(pool, k):
            for a in arrangements(s):
                if flags or a[1] is False or k == 0:
                    yield a


def monomials(nv, d):
    return sorted((m for m in itertools.product(*[range(d + 1) if i < nv else (0,) for i in range(len(VARS))]) if sum(m) <= d), key=mkey)


M6 = monomials(2, 2)                     # 1, x, y, x^2, xy, y^2
M3 = monomials(2, 1)                     # 1, x, y
M8 = [ONEM, (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (1, 1, 0), (0, 1, 1), (1, 1, 1)]
BIG = list(shapes(M6, 3))
MID = [s for s in shapes(M6, 3, False) if s == next(iter(t for t in arrangements(s[0]) if t[1] is False), None) or not s[0]]
SMALL = list(shapes(M3, 2, False))
WIDE = list(shapes(M8, 4))
M9 = list(itertools.product(range(3), repeat=3))
MONS = {"9": M9, "6": M6, "3": M3, "8": M8}
ONCE = [s for i, s in enumerate(WIDE) if not any(set(t[0]) == set(s[0]) for t in WIDE[:i])]
SHAPES = {"V": ONCE, "B": BIG, "M": MID, "S": SMALL, "W": WIDE, "T": [s for s in MID if len(s[0]) < 3]}


def choices(kind):
    k = kind[0]
    if k == "p":
        return SHAPES[kind[1]]
    if k in "tzy":
        return MONS[kind[1]]
    if k == "m":
        return MONS[kind[1]]
    if k == "n":
        return [m for m in MONS[kind[1]] if any(m)]
    if k == "v":
        return range(int(kind[1]) if len(kind) > 1 else 2)
    if k == "e":
        return range(int(kind[1:]))
    if k == "Q":      # values for a set of variables
        return [(), (0,), (1,), (0, 1)]
    if k in "PT":     # polynomials (terms) for one variable or for two variables
        pool = SMALL[1:] if k == "P" else M3
        if kind[1] == "1":
            return [()] + [((i, s),) for i in (0, 1) for s in pool]
        if k == "P":
            pool = [s for s in pool if s[0] in ([M3[1]], [M3[2]], [M3[0], M3[1]])]
        return [((0, s), (1, t)) for s in pool for t in pool if k == "T" or len(s[0]) + len(t[0]) < 4]
    if k == "L":      # lists of terms
        return [tuple(l) for n in range(4) for l in itertools.product(M3, repeat=n)]
    if k == "D":      # lists of terms with different monomials, any order
        return [tuple(l) for n in range(4) for l in itertools.permutations(M6[:5], n)]
    if k == "O":      # sorted lists
        return [tuple(l) for n in range(4) for l in itertools.combinations(M6, n)]
    if k in "ckuo":
        return (0,)
    raise ValueError(kind)


class Op:
    def __init__(self, name, q, args, res, f, pre=None):
        self.name, self.q, self.args, self.res, self.f, self.pre = name, q, args.split(), res, f, pre


def const(c):
    return {ONEM: c}


def divides(a, b):
    return all(x <= y for x, y in zip(a, b))


def mdiv(a, b):
    return tuple(x - y for x, y in zip(a, b))


def ring_ops():
    o = []

    def op(*a, **k):
        o.append(Op(*a, **k))
    for q in ("q_copy", "q_move"):
        op("copy", q, "pB", "P", lambda e, p: p)
    for q in ("q_assign", "q_massign"):
        op("assignment", q, "pM pM", "A", lambda e, p, r: r)
    op("unary -", "q_neg", "pB", "P", lambda e, p: pneg(p))
    ring = (("+", "add", padd), ("-", "sub", psub), ("*", "mul", pmul))
    for s, n, f in ring:
        op(s + "=", "q_%sasp" % n, "pB pM", "A", lambda e, p, r, f=f: f(p, r))
        op(s + "= term", "q_%sast" % n, "pB t6", "A", lambda e, p, r, f=f: f(p, r))
        op(s + "= monomial", "q_%sasm" % n, "pB m6", "A", lambda e, p, r, f=f: f(p, r))
        op(s + "= variable", "q_%sasv" % n, "pB v", "A", lambda e, p, r, f=f: f(p, r))
        op(s + "= number", "q_%sasc" % n, "pB c", "A", lambda e, p, r, f=f: f(p, r))
        for a in "ptmvc":
            for b in "ptmvc":
                q = "q_%s%s%s" % (n, a, b)
                if n == "mul" and "p" not in (a, b) or {a, b} <= set("mvc") and n == "mul":
                    continue
                if {a, b} in ({"m"}, {"v"}, {"c"}, {"m", "v"}):
                    continue
                op("%s %s" % (s, KIND[a] + " and " + KIND[b]), q, ARG[a] + " " + ARG[b], "P", lambda e, p, r, f=f: f(p, r))
    op("/ number", "q_divpc", "pB k", "P", lambda e, p, c: pmul(p, const(p_inv(c[ONEM]))))
    op("/= number", "q_divasc", "pB k", "A", lambda e, p, c: pmul(p, const(p_inv(c[ONEM]))))
    op("divide by number", "q_fdivc", "pB k", "P", lambda e, p, c: pmul(p, const(p_inv(c[ONEM]))))
    op("+= itself", "q_addself", "pB", "A", lambda e, p: padd(p, p))
    op("-= itself", "q_subself", "pB", "A", lambda e, p: {})
    op("*= itself", "q_mulself", "pB", "A", lambda e, p: pmul(p, p))
    op("= itself", "q_asself", "pB", "A", lambda e, p: p)
    op("power", "q_pow", "pS e5", "P", lambda e, p, k: ppow(p, k))
    op("power", "q_npow", "pS e5", "P", lambda e, p, k: ppow(p, k))
    op("power", "q_pow", "pM e3", "P", lambda e, p, k: ppow(p, k))
    op("derivative", "q_deriv", "pB v e4", "P", lambda e, p, v, k: pderiv(p, v_of(v), k))
    op("derivative", "q_deriv", "pV v3 e3", "P", lambda e, p, v, k: pderiv(p, v_of(v), k))
    op("substitute", "q_subst", "pM v pS", "P", lambda e, p, v, r: psubst(p, {v_of(v): r}))
    op("substitute", "q_substas", "pB v pS", "A", lambda e, p, v, r: psubst(p, {v_of(v): r}))
    op("substitute numbers", "q_substq", "pB Q", "P", lambda e, p, s: psubst(p, s))
    for k in "12":
        op("substitute terms", "q_substmt", "pM T" + k, "P", lambda e, p, s: psubst(p, s))
    op("substitute polynomials", "q_substm", "pT P1", "P", lambda e, p, s: psubst(p, s))
    op("substitute polynomials", "q_substm", "pT P2", "P", lambda e, p, s: psubst(p, s))
    op("evaluate", "q_eval", "pB Q", "N", lambda e, p, s: psubst(p, s).get(ONEM, ZERO), pre=lambda e, p, s: all(not m[i] or i in s for m in p for i in range(3)))
    op("addTerm", "q_addterm", "pB z6", "A", lambda e, p, t: padd(p, t))
    op("subtractProduct", "q_subprod", "pB z3 pS", "A", lambda e, p, t, r: psub(p, pmul(t, r)))
    op("tail", "q_tail", "pW", "P", lambda e, p: tail(p), pre=lambda e, p: p)
    op("tail", "q_tailord", "pW", "P", lambda e, p: tail(p), pre=lambda e, p: p)
    op("stripLT", "q_strip", "pW", "A", lambda e, p: tail(p), pre=lambda e, p: p)
    op("normalize", "q_norm", "pB", "P", lambda e, p: pmul(p, const(p_inv(p[lm(p)]))), pre=lambda e, p: p)
    op("coefficient polynomial", "q_coeff", "pV v3 e3", "P", lambda e, p, v, k: coeff(p, v_of(v), k))
    op("leading coefficient polynomial", "q_lcoeffv", "pB v", "P", lambda e, p, v: coeff(p, v_of(v), max([m[v_of(v)] for m in p] or [0])))
    op("makeOrdered", "q_makeord", "pW", "A", lambda e, p: p)
    # construction
    op("construct", "q_pc", "c", "P", lambda e, c: c)
    op("construct", "q_pi", "e3", "P", lambda e, k: const(Fraction(k)))
    op("construct", "q_pv", "v", "P", lambda e, v: v)
    op("construct", "q_pt", "t6", "P", lambda e, t: t)
    op("construct", "q_pm", "m6", "P", lambda e, t: t)
    for q in ("q_terms", "q_termsm"):
        op("construct from terms", q, "L", "P", lambda e, l: l)
    for q in ("q_termsnd", "q_termsndm"):
        op("construct from different terms", q, "D", "P", lambda e, l: l)
    op("construct from sorted terms", "q_termsord", "O", "P", lambda e, l: l)
    op("construct from list", "q_init3", "z3 z3 z3", "P", lambda e, a, b, c: padd(padd(a, b), c))
    op("construct from variables", "q_initv", "v v v", "P", lambda e, a, b, c: padd(padd(a, b), c))
    for q, f in (("q_opadd", padd), ("q_opsub", psub), ("q_opmul", pmul)):
        op("construct from operation", q, "pM pS", "P", lambda e, p, r, f=f: f(p, r))
    op("construct from operation", "q_opneg", "pM", "P", lambda e, p: pneg(p))
    # views
    nz = lambda e, p, *a: p
    op("lcoeff", "q_lcoeff", "pW", "N", lambda e, p: p[lm(p)], pre=nz)
    op("lmon", "q_lmon", "pW", "M", lambda e, p: lm(p), pre=nz)
    op("trailingTerm", "q_tt", "pW", "X", lambda e, g, p: g[0] in p and e.zero(p_sub(p[g[0]], g[1])) and (ONEM not in p or g[0] == ONEM), pre=nz)
    op("constantPart", "q_cpart", "pW", "N", lambda e, p: p.get(ONEM, ZERO))
    op("hasConstantTerm", "q_hasc", "pW", "B", lambda e, p: ONEM in p)
    op("totalDegree", "q_tdeg", "pW", "N", lambda e, p: Fraction(max(map(sum, p))), pre=nz)
    op("degree", "q_deg", "pW v3", "N", lambda e, p, v: Fraction(max([m[v_of(v)] for m in p] or [0])))
    op("isZero", "q_iszero", "pW", "B", lambda e, p: not p)
    op("isOne", "q_isone", "pB", "B", lambda e, p: e.same(p, const(ONE)))
    op("isConstant", "q_isconst", "pW", "B", lambda e, p: not any(map(any, p)))
    op("isLinear", "q_islin", "pW", "B", lambda e, p: all(sum(m) <= 1 for m in p))
    op("isVariable", "q_isvar", "pB", "B", lambda e, p: len(p) == 1 and sum(lm(p)) == 1 and e.zero(p_sub(p[lm(p)], ONE)))
    op("isUnivariate", "q_isuni", "pW", "B", lambda e, p: len({i for m in p for i in range(3) if m[i]}) <= 1)
    op("has", "q_has", "pW v3", "B", lambda e, p, v: any(m[v_of(v)] for m in p))
    op("== itself", "q_eqself", "pB", "B", lambda e, p: True)
    # terms
    op("term from number", "q_tc", "c", "T", lambda e, c: c)
    op("term from monomial", "q_tm", "m6", "T", lambda e, m: m)
    op("term from variable", "q_tv", "v", "T", lambda e, v: v)
    op("term from power", "q_tcv", "c v e4", "T", lambda e, c, v, k: pmul(c, ppow(v, k)), pre=lambda e, c, v, k: k > 0)
    op("unary - of term", "q_negt", "t6", "T", lambda e, t: pneg(t))
    for q, a in (("q_mult", "t6 t6"), ("q_mult", "z8 z8"), ("q_multm", "t6 m6"), ("q_multv", "t6 v"), ("q_multc", "t6 c"), ("q_mulmt", "m6 t6"), ("q_mulvt", "v t6"),
                 ("q_mulct", "c t6"), ("q_mulmc", "m6 c"), ("q_mulcm", "c m6"), ("q_mulvc", "v c"), ("q_mulcv", "c v")):
        op("term product", q, a, "T", lambda e, a, b: pmul(a, b))
    op("term / number", "q_divtc", "t6 k", "T", lambda e, t, c: pmul(t, const(p_inv(c[ONEM]))))
    op("term power", "q_powt", "t6 e4", "T", lambda e, t, k: ppow(t, k))
    op("term derivative", "q_derivt", "z9 v3 e4", "T", lambda e, t, v, k: pderiv(t, v_of(v), k))
    op("term substitution", "q_substt", "z6 Q", "T", lambda e, t, s: psubst(t, s))
    for k in "12":
        op("term substitution", "q_substtt", "z6 T" + k, "T", lambda e, t, s: psubst(t, s))
    # monomials
    op("monomial product", "q_mulmm", "m9 m9", "M", lambda e, a, b: mmul(lm(a), lm(b)))
    op("monomial product", "q_mulmv", "m9 v3", "M", lambda e, a, b: mmul(lm(a), lm(b)))
    op("monomial product", "q_mulvm", "v3 m9", "M", lambda e, a, b: mmul(lm(a), lm(b)))
    op("monomial product", "q_mulvv", "v3 v3", "M", lambda e, a, b: mmul(lm(a), lm(b)))
    op("monomial power", "q_fpowm", "m9 e4", "M", lambda e, a, k: tuple(x * k for x in lm(a)))
    op("variable power", "q_fpowv", "v e4", "M", lambda e, a, k: tuple(x * k for x in lm(a)))
    op("monomial without variable", "q_dropm", "n9 v3", "M", lambda e, a, v: tuple(0 if i == v_of(v) else x for i, x in enumerate(lm(a))))
    op("exponentOfVariable", "q_expm", "n9 v3", "N", lambda e, a, v: Fraction(lm(a)[v_of(v)]))
    op("monomial degree", "q_tdegm", "n9", "N", lambda e, a: Fraction(sum(lm(a))))
    op("monomial has", "q_hasm", "n9 v3", "B", lambda e, a, v: lm(a)[v_of(v)] > 0)
    op("hasNoOtherVariable", "q_noother", "n9 v3", "B", lambda e, a, v: sum(lm(a)) == lm(a)[v_of(v)])
    op("monomial isLinear", "q_linm", "n9", "B", lambda e, a: sum(lm(a)) == 1)
    # division; the last arguments take results
    op("monomial / monomial", "q_divm", "n9 m9 oM", "Z", lambda e, r, c, a, b, _: divided(e, r, c[2], lm(a), lm(b)))
    op("monomial / variable", "q_divv", "n9 v3 oM", "Z", lambda e, r, c, a, b, _: divided(e, r, c[2], lm(a), lm(b)))
    op("monomial divisible", "q_divisible", "n9 m9", "B", lambda e, a, b: divides(lm(b), lm(a)))
    op("monomial lcm", "q_lcm", "m9 m9", "M", lambda e, a, b: tuple(map(max, lm(a), lm(b))))
    op("monomial lcm and divide", "q_lcmdiv", "m9 m9", "M", lambda e, a, b: mdiv(tuple(map(max, lm(a), lm(b))), lm(b)))
    op("monomial sqrt", "q_sqrtm", "n9", "M", lambda e, a: tuple(x // 2 for x in lm(a)), pre=lambda e, a: all(x % 2 == 0 for x in lm(a)))
    op("term / term", "q_divtt", "t8 z8 oT", "Z", tdivided)
    op("term / monomial", "q_divtm", "t6 m6 oT", "Z", tdivided)
    op("term / variable", "q_divtv", "t6 v oT", "Z", tdivided)
    op("term divisible", "q_tdivisible", "z8 z8", "B", lambda e, a, b: divides(lm(b), lm(a)))
    nzd = lambda e, p, d, *_: d
    op("remainder", "q_rem", "pM pT", "P", lambda e, p, d: pdivrem(e, p, d)[1], pre=nzd)
    op("quotient", "q_quo", "pM pT", "P", lambda e, p, d: pdivrem(e, p, d)[0], pre=nzd)
    op("remainder by itself", "q_remself", "pT", "P", lambda e, p: {}, pre=nz)
    op("exact division", "q_trydiv", "pM pT oP", "Z", exact, pre=nzd)
    op("exact division of a product", "q_trydivmul", "pS pT oP", "Z", exactmul, pre=nzd)
    # one operation after another
    op("sum and difference", "q_addsub", "pM pT", "P", lambda e, p, r: p)
    op("difference and sum", "q_subadd", "pM pT", "P", lambda e, p, r: p)
    op("sum after division", "q_divadd", "pM pT", "P", lambda e, p, r: padd(p, r), pre=nzd)
    op("product after conversion", "q_upmul", "pT v", "P", lambda e, p, v: pmul(p, p))
    # conversions
    op("as univariate polynomial", "q_toup", "pM v3", "Z", lambda e, r, c, p, v: recursive(e, r, p, v_of(v)))
    op("from univariate polynomial", "q_viaup", "pM v3", "P", lambda e, p, v: p)
    op("as univariate polynomial", "q_tou", "pB", "Z", univariate, pre=lambda e, p: len({i for m in p for i in range(3) if m[i]}) == 1)
    op("from univariate polynomial", "q_fromuc", "v c", "P", lambda e, v, c: c)
    op("from univariate polynomial", "q_fromucs", "v c c c", "P", lambda e, v, *c: ufrom(v, c))
    op("monomial isSquare", "q_squarem", "n9", "B", lambda e, a: all(x % 2 == 0 for x in lm(a)))
    return o


KIND = {"p": "polynomial", "t": "term", "m": "monomial", "v": "variable", "c": "number"}
ARG = {"p": "pT", "t": "t3", "m": "m3", "v": "v", "c": "c"}


def v_of(v):
    return lm(v).index(1)


def lm(p):
    return max(p, key=mkey)


def tail(p):
    return {m: c for m, c in p.items() if m != lm(p)}


def coeff(p, v, k):
    return {tuple(0 if i == v else x for i, x in enumerate(m)): c for m, c in p.items() if m[v] == k}


def divided(e, r, out, a, b):
    ok = divides(b, a)
    return bool(val(r)) == ok and (not ok or e.rmon(out.v) == mdiv(a, b))


def tdivided(e, r, c, a, b, _):
    ok = divides(lm(b), lm(a))
    if bool(val(r)) != ok:
        return False
    if not ok:
        return True
    m, x = e.rterm(c[2].v)
    y = p_mul(a[lm(a)], p_inv(b[lm(b)]))
    return e.zero(p_sub(x, y)) and (m == mdiv(lm(a), lm(b)) or e.zero(y))


def pdivrem(e, p, d):
    """division by one divisor in the graded order"""
    d = e.nonzero(d)
    l = lm(d)
    q, r, p = {}, {}, e.nonzero(p)
    while p:
        m = lm(p)
        if divides(l, m):
            t = {mdiv(m, l): p_mul(p[m], p_inv(d[l]))}
            q = padd(q, t)
            p = psub(p, pmul(t, d))
            del p[m]
            p = e.nonzero(p)
        else:
            r = padd(r, {m: p.pop(m)})
    return q, r


def exact(e, r, c, p, d, _):
    q, rem = pdivrem(e, p, d)
    ok = not e.nonzero(rem)
    if bool(val(r)) != ok:
        return False
    return not ok or e.invariant(c[2].v) is None and e.same(e.pval(c[2].v), q)


def exactmul(e, r, c, p, d, _):
    return bool(val(r)) and e.invariant(c[2].v) is None and e.same(e.pval(c[2].v), p)


def ucoeffs(r):
    return field(val(r), lambda x: isinstance(x, Vec)).v.cells


def recursive(e, r, p, v):
    cs = ucoeffs(r)
    n = max([m[v] for m in p] or [-1]) + 1
    return len(cs) == n and all(e.invariant(c.v) is None and e.same(e.pval(c.v), coeff(p, v, k)) for k, c in enumerate(cs))


def univariate(e, r, c, p):
    cs = ucoeffs(r)
    d = {sum(m): x for m, x in p.items()}
    return len(cs) == max(d) + 1 and all(e.zero(p_sub(e.dom.num(x.v), d.get(k, ZERO))) for k, x in enumerate(cs))


def ufrom(v, cs):
    r = {}
    for k, c in enumerate(cs):
        r = padd(r, pmul(c, ppow(v, k)))
    return r


def jobs(ops):
    for i, o in enumerate(ops):
        for ch in itertools.product(*[choices(a) for a in o.args]):
            yield i, ch


class Judge:
    """outcome of one path: invariant problem, result verdict, value"""

    def __init__(self, inv, ok, got):
        self.inv, self.ok, self.got = inv, ok, got


def run_op(env, o, ch, report):
    dom, I = env.dom, env.I
    nz, vals0 = [], []
    for j, (k, s) in enumerate(zip(o.args, ch)):
        pfx = "abcdef"[j]
        if k[0] == "p":
            vals0.append({m: Sym.atom("%s%d" % (pfx, i)) for i, m in enumerate(s[0])})
            nz += ["%s%d" % (pfx, i) for i in range(len(s[0]))]
        elif k[0] in "tzyck":
            vals0.append({(s if k[0] in "tzy" else ONEM): Sym.atom(pfx)})
            if k[0] in "zk" or k[0] == "y" and any(s):
                nz.append(pfx)
        elif k[0] == "o":
            vals0.append(None)
        elif k[0] in "mn":
            vals0.append({s: ONE})
        elif k[0] == "v":
            vals0.append({vmon(s): ONE})
        elif k[0] == "e":
            vals0.append(s)
        elif k[0] == "Q":
            vals0.append({i: const(Sym.atom("%s%d" % (pfx, i))) for i in s})
        elif k[0] == "P":
            vals0.append({i: {m: Sym.atom("%s%d%d" % (pfx, i, n)) for n, m in enumerate(t[0])} for i, t in s})
            nz += ["%s%d%d" % (pfx, i, n) for i, t in s for n in range(len(t[0]))]
        elif k[0] == "T":
            vals0.append({i: {t: Sym.atom("%s%d" % (pfx, i))} for i, t in s})
            nz += ["%s%d" % (pfx, i) for i, t in s]
        elif k[0] in "LDO":
            r = {}
            for n, m in enumerate(s):
                r = padd(r, {m: Sym.atom("%s%d" % (pfx, n))})
            vals0.append(r)
            nz += ["%s%d" % (pfx, n) for n in range(len(s))]

    def body():
        vals, cells = [dict(v) if isinstance(v, dict) else v for v in vals0], []
        if o.pre is not None and not o.pre(env, *vals):
            return None
        for j, (k, s, v) in enumerate(zip(o.args, ch, vals)):
            pfx = "abcdef"[j]
            if k[0] == "p":
                cells.append(Cell(env.poly([(m, v[m]) for m in s[0]], s[1])))
            elif k[0] in "tzy":
                cells.append(Cell(env.term(s, v[s])))
            elif k[0] in "ck":
                cells.append(Cell(v[ONEM]))
            elif k[0] in "mn":
                cells.append(Cell(env.mon(s)))
            elif k[0] == "o":
                cells.append(Cell(env.mon((2, 1, 0)) if k[1] == "M" else env.term((2, 1, 0), ONE) if k[1] == "T" else env.poly([((2, 1, 0), ONE)], True)))
            elif k[0] == "v":
                cells.append(env.var(s))
            elif k[0] == "e":
                cells.append(s)
            elif k[0] in "QPT":
                mk, put = {"Q": ("q_mapq", "q_putq"), "P": ("q_map", "q_put"), "T": ("q_mapt", "q_putt")}[k[0]]
                c = Cell(val(I.call_root(mk)))
                for x in s:
                    i = x if k[0] == "Q" else x[0]
                    if k[0] == "Q":
                        a = v[i][ONEM]
                    elif k[0] == "P":
                        a = env.poly([(m, v[i][m]) for m in x[1][0]], x[1][1])
                    else:
                        a = env.term(x[1], v[i][x[1]])
                    I.call_root(put, c, env.var(i), Cell(a))
                cells.append(c)
            elif k[0] in "LDO":
                cells.append(Cell(Vec([Cell(env.term(m, Sym.atom("%s%d" % (pfx, n)))) for n, m in enumerate(s)])))
        r = I.call_root(o.q, *cells)
        inv = None
        for k, c in zip(o.args, cells):
            if k[0] == "p":
                inv = inv or env.invariant(c.v)
        if o.res in "PA":
            r = val(r) if o.res == "P" else cells[0].v
            inv = env.invariant(r) or inv
            got = env.pval(r)
            exp = o.f(env, *vals)
            return Judge(inv, env.same(got, exp), env.terms(r))
        if o.res == "T":
            m, c = env.rterm(r)
            exp = env.nonzero(o.f(env, *vals))
            ok = env.zero(c) if not exp else list(exp) == [m] and env.zero(p_sub(exp[m], c))
            return Judge(inv, m is not None and ok, (m, c))
        if o.res == "M":
            m = env.rmon(r)
            return Judge(inv, m == o.f(env, *vals), m)
        if o.res == "N":
            return Judge(inv, env.zero(p_sub(dom.num(val(r)), o.f(env, *vals))), val(r))
        if o.res == "V":
            i = (field(val(r), lambda x: type(x) is int).v >> 3) - 1
            return Judge(inv, i == o.f(env, *vals), i)
        if o.res == "R":
            return Judge(inv, val(r) == o.f(env, *vals), val(r))
        if o.res == "B":
            return Judge(inv, bool(val(r)) == bool(o.f(env, *vals)), val(r))
        if o.res == "Z":
            return Judge(inv, bool(o.f(env, r, cells, *vals)), [repr(val(r))] + [repr(c.v) for k, c in zip(o.args, cells) if k[0] == "o"])
        if o.res == "X":
            g = env.rterm(r)
            return Judge(inv, bool(o.f(env, g, *vals)), g)
        raise Unsupported(o.res)
    for out in env.sess.explore(lambda: AlgWorld(env.sess.paths, nz), body):
        if out.kind == "ok" and out.v is None:
            continue
        if (out.kind != "ok" or out.v.inv or not out.v.ok) and dom.w.unsolved:
            raise Unsupported("undecided equation %r" % (dom.w.unsolved[0],))
        report(out)


def text(o, ch):
    out = []
    for k, s in zip(o.args, ch):
        if k[0] == "p":
            out.append("{%s}%s" % (", ".join(map(show, s[0])), " ordered" if s[1] else ""))
        elif k[0] in "tzymn":
            out.append(("" if k[0] in "mn" else "c*") + show(s))
        elif k[0] == "v":
            out.append(VARS[s])
        elif k[0] in "ck":
            out.append("c")
        elif k[0] in "LDO":
            out.append("[%s]" % ", ".join(map(show, s)))
        elif k[0] == "Q":
            out.append("{%s}" % ", ".join(VARS[i] for i in s))
        elif k[0] == "P":
            out.append("{%s}" % ", ".join("%s: {%s}" % (VARS[i], ", ".join(map(show, t[0]))) for i, t in s))
        elif k[0] == "T":
            out.append("{%s}" % ", ".join("%s: c*%s" % (VARS[i], show(t)) for i, t in s))
        else:
            out.append(str(s))
    return "; ".join(out)


def compare(e, a, b):
    """documented order: descending terms, by monomial and then coefficient; zero is the constant zero"""
    a, b = [sorted(e.nonzero(x).items(), key=lambda t: mkey(t[0]), reverse=True) or [(ONEM, ZERO)] for x in (a, b)]
    for (m, c), (n, d) in zip(a, b):
        if m != n:
            return -1 if mkey(m) < mkey(n) else 1
        s = e.dom.cmp(c, d)
        if s:
            return s
    return (len(a) > len(b)) - (len(a) < len(b))


RELS = (("==", "eq", lambda c: c == 0), ("!=", "ne", lambda c: c != 0), ("<", "lt", lambda c: c < 0), ("<=", "le", lambda c: c <= 0),
        (">", "gt", lambda c: c > 0), (">=", "ge", lambda c: c >= 0))


def comparison_ops():
    o = []
    arg = {"p": "pM", "t": "y6", "m": "m6", "v": "v", "c": "c"}
    for a, b in ("pp", "pt", "pm", "pv", "pc", "tp", "mp", "vp", "cp", "tt", "tm", "tv", "tc", "mt", "vt", "ct", "mm", "mv", "vm", "vv"):
        x, y = arg[a], arg[b]
        if a + b == "pp":
            y = "pT"
        if a + b == "mm":
            x = y = "m9"
        for s, n, f in RELS:
            o.append(Op("%s %s %s" % (KIND[a], s, KIND[b]), "q_%s_%s%s" % (n, a, b), x + " " + y, "B", lambda e, p, r, f=f: f(compare(e, p, r))))
            if a + b == "pp":
                o.append(Op("%s %s %s" % (KIND[a], s, KIND[b]), "q_%s_%s%s" % (n, a, b), "pT pB", "B", lambda e, p, r, f=f: f(compare(e, p, r))))
    return o


def ordering_ops():
    o = []
    for g, name, key in (("glex", "graded lexical", mkey), ("lex", "lexical", tuple)):
        cmp = lambda a, b, key=key: (key(lm(a)) > key(lm(b))) - (key(lm(a)) < key(lm(b)))
        for t, args in (("", "m9 m9"), ("t", "z9 z9")):
            o.append(Op(name + " compare", "q_" + g + t, args, "R", lambda e, a, b, c=cmp: c(a, b)))
            o.append(Op(name + " less", "q_" + g + t + "less", args, "B", lambda e, a, b, c=cmp: c(a, b) < 0))
            o.append(Op(name + " less", "q_" + g + t + "fn", args, "B", lambda e, a, b, c=cmp: c(a, b) < 0))
            o.append(Op(name + " equal", "q_" + g + t + "eq", args, "B", lambda e, a, b, c=cmp: c(a, b) == 0))
        o.append(Op(name + " compare with a variable", "q_" + g + "v", "m9 v3", "R", lambda e, a, b, c=cmp: c(a, b)))
    return o


def drive(chk, ops, rule, judge, driver="mpoly.cpp"):
    """run the operations over all operand shapes; judge(outcome) returns what is wrong or None"""
    sess = setup(driver)
    env = Env(sess)

    def work(j):
        o, evs, n = ops[j[0]], [], 0

        def report(out):
            nonlocal n
            n += 1
            why = "%s: %s" % (out.kind, out.msg) if out.kind != "ok" else judge(out.v)
            if why:
                evs.append(("violation", dict(rule=rule, where=sess.target(o.q), instance="%s of %s" % (o.name, text(o, j[1])), detail=why)))
        try:
            run_op(env, o, j[1], report)
        except Unsupported as e:
            evs.append(("error", "%s of %s: %s" % (o.name, text(o, j[1]), e)))
        yield "count", "obligations", n
        yield from evs
    pmap(chk, sess, jobs(ops), work, item_s=20)
    chk.count("operations", len({o.q for o in ops}))
