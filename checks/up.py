"""Univariate polynomials over opaque rational coefficients (shared by C14 and C15)."""
import containers
from fractions import Fraction
from interp import Cell, Struct, Unsupported, val, copyval
from dom import AlgWorld, Sym, ZERO, ONE, p_add, p_mul, p_neg, p_sub, p_inv
from models import Vec, Pair
from session import Session, mute


def setup():
    sess = Session("upoly.cpp")
    containers.register(sess.models)
    mute(sess)
    return sess


class Poly:
    """oracle: coefficients by degree in one variable"""

    def __init__(self, c, var="x"):
        self.c, self.var = list(c), var

    def at(self, i):
        return self.c[i] if 0 <= i < len(self.c) else ZERO

    def __len__(self):
        return len(self.c)


def padd(a, b):
    return [p_add(a[i] if i < len(a) else ZERO, b[i] if i < len(b) else ZERO) for i in range(max(len(a), len(b)))]


def pneg(a):
    return [p_neg(x) for x in a]


def pmul(a, b):
    out = [ZERO] * max(0, len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = p_add(out[i + j], p_mul(x, y))
    return out


def ppow(a, n):
    r = [ONE]
    for _ in range(n):
        r = pmul(r, a)
    return r


def peval(a, x):
    r, v = ZERO, ONE
    for c in a:
        r, v = p_add(r, p_mul(c, v)), p_mul(v, x)
    return r


def pderiv(a, n):
    for _ in range(n):
        a = [p_mul(Fraction(i), a[i]) for i in range(1, len(a))]
    return a


class Env:
    def __init__(self, sess):
        self.sess, self.I, self.dom = sess, sess.I, sess.dom

    def var(self, name):
        v = val(self.I.call_root("q_novar"))
        v.set("mContent", ("xyz".index(name) + 1) << 3 | 1)
        return v

    def poly(self, coeffs, var="x", zero="q_zero"):
        p = val(self.I.call_root(zero, self.var(var)))
        p.set("mCoefficients", Vec([Cell(c) for c in coeffs]))
        return p

    def coeffs(self, p):
        p = val(p)
        v = p.get("mCoefficients")
        if not isinstance(v, Vec):
            raise Unsupported("representation of univariate polynomials")
        return [self.dom.num(c.v) for c in v.cells]

    def varof(self, p):
        return "?xyz?????"[val(p).get("mMainVar").get("mContent") >> 3]

    def zero(self, x):
        return self.dom.cmp_op("==", x, ZERO)

    def strip(self, c):
        c = list(c)
        while c and self.zero(c[-1]):
            c.pop()
        return c

    def invariant(self, p):
        c = self.coeffs(p)
        return not c or not self.zero(c[-1])

    def same(self, got, exp):
        n = max(len(got), len(exp))
        return all(self.zero(p_sub(got[i] if i < len(got) else ZERO, exp[i] if i < len(exp) else ZERO)) for i in range(n))


def atoms(pfx, n):
    return [Sym.atom("%s%d" % (pfx, i)) for i in range(n)]


# op: (query, argument kinds, result kind, oracle)
# kinds: p/r polynomials in x, c coefficient, n number, z coefficient that is not zero, v main variable, w other variable
# results: P polynomial returned, A first argument updated (and returned), N number, B truth value
def ops():
    F = Fraction
    o = []

    def op(name, q, args, res, f, pre=None, maxp=4, maxr=4):
        o.append((name, q, args, res, f, pre, maxp, maxr))
    for q in ("q_copy", "q_move"):
        op("copy", q, "p", "P", lambda e, p: p)
    for q in ("q_assign", "q_massign"):
        op("assignment", q, "pr", "A", lambda e, p, r: r)
    op("unary -", "q_neg", "p", "P", lambda e, p: pneg(p))
    op("+", "q_add", "pr", "P", lambda e, p, r: padd(p, r))
    op("+=", "q_addas", "pr", "A", lambda e, p, r: padd(p, r))
    op("-", "q_sub", "pr", "P", lambda e, p, r: padd(p, pneg(r)))
    op("-=", "q_subas", "pr", "A", lambda e, p, r: padd(p, pneg(r)))
    op("*", "q_mul", "pr", "P", lambda e, p, r: pmul(p, r))
    op("*=", "q_mulas", "pr", "A", lambda e, p, r: pmul(p, r))
    op("+ coefficient", "q_addc", "pc", "P", lambda e, p, c: padd(p, [c]))
    op("coefficient +", "q_cadd", "cp", "P", lambda e, c, p: padd(p, [c]))
    op("+= coefficient", "q_addcas", "pc", "A", lambda e, p, c: padd(p, [c]))
    op("- coefficient", "q_subc", "pc", "P", lambda e, p, c: padd(p, [p_neg(c)]))
    op("coefficient -", "q_csub", "cp", "P", lambda e, c, p: padd([c], pneg(p)))
    op("-= coefficient", "q_subcas", "pc", "A", lambda e, p, c: padd(p, [p_neg(c)]))
    op("* coefficient", "q_mulc", "pc", "P", lambda e, p, c: pmul(p, [c]))
    op("coefficient *", "q_cmul", "cp", "P", lambda e, c, p: pmul(p, [c]))
    op("*= coefficient", "q_mulcas", "pc", "A", lambda e, p, c: pmul(p, [c]))
    op("* variable", "q_mulv", "pv", "P", lambda e, p, v: [ZERO] + p)
    op("variable *", "q_vmul", "vp", "P", lambda e, v, p: [ZERO] + p)
    op("*= variable", "q_mulvas", "pv", "A", lambda e, p, v: [ZERO] + p)
    op("/ coefficient", "q_divc", "pz", "P", lambda e, p, c: pmul(p, [p_inv(c)]))
    op("/= coefficient", "q_divcas", "pz", "A", lambda e, p, c: pmul(p, [p_inv(c)]))
    for n in range(6):
        for q in ("q_pow", "q_fpow"):
            op("power %d" % n, q, "p%d" % n, "P", lambda e, p, k: ppow(p, k), maxp=3 if n < 4 else 2)
    op("evaluate", "q_eval", "pn", "N", lambda e, p, x: peval(p, x), maxp=4)
    op("evaluate", "q_feval", "pn", "N", lambda e, p, x: peval(p, x), maxp=4)
    op("isRoot", "q_isroot", "pn", "B", lambda e, p, x: e.zero(peval(p, x)))
    op("is_root_of", "q_isrootof", "pn", "B", lambda e, p, x: e.zero(peval(p, x)))
    op("sgn", "q_sgn", "pn", "S", lambda e, p, x: peval(p, x))
    op("substitute main variable", "q_subst", "pvn", "P", lambda e, p, v, x: [peval(p, x)])
    op("substitute main variable", "q_substas", "pvn", "A", lambda e, p, v, x: [peval(p, x)])
    op("substitute other variable", "q_subst", "pwn", "P", lambda e, p, v, x: p)
    op("substitute other variable", "q_substas", "pwn", "A", lambda e, p, v, x: p)
    for n in range(5):
        op("derivative %d" % n, "q_deriv", "p%d" % n, "P", lambda e, p, k: pderiv(p, k), maxp=5)
        op("derivative %d" % n, "q_derivv", "pv%d" % n, "P", lambda e, p, v, k: pderiv(p, k), maxp=4)
        op("derivative %d by other variable" % n, "q_derivv", "pw%d" % n, "P", lambda e, p, v, k: p if k == 0 else [])
    nz_r = lambda e, p, r, *a: len(r) > 0
    op("divide", "q_divide", "pr", "D", None, pre=nz_r, maxp=4)
    op("remainder", "q_rem", "pr", "R", None, pre=nz_r, maxp=4)
    op("normalized", "q_norm", "p", "P", lambda e, p: pmul(p, [p_inv(p[-1])]) if p else p)
    op("unitPart", "q_unit", "p", "N", lambda e, p: p[-1], pre=lambda e, p: p)
    op("negateVariable", "q_negvar", "p", "P", lambda e, p: [p_mul(F((-1) ** i), c) for i, c in enumerate(p)], maxp=4)
    op("reverseCoefficients", "q_reverse", "p", "P", lambda e, p: p[::-1], maxp=4)
    op("truncate", "q_truncate", "p", "A", lambda e, p: p[:-1], pre=lambda e, p: p, maxp=4)
    op("one", "q_one", "p", "P", lambda e, p: [ONE])
    op("eliminate_zero_root", "q_elim0", "p", "A", lambda e, p: elim0(e, p), maxp=4)
    op("degree", "q_degree", "p", "N", lambda e, p: F(len(p) - 1), pre=lambda e, p: p)
    op("totalDegree", "q_tdegree", "p", "N", lambda e, p: F(len(p) - 1), pre=lambda e, p: p)
    op("lcoeff", "q_lcoeff", "p", "N", lambda e, p: p[-1], pre=lambda e, p: p)
    op("tcoeff", "q_tcoeff", "p", "N", lambda e, p: p[0], pre=lambda e, p: p)
    op("isZero", "q_iszero", "p", "B", lambda e, p: not p)
    op("isOne", "q_isone", "p", "B", lambda e, p: len(p) == 1 and e.zero(p_sub(p[0], ONE)))
    op("zeroIsRoot", "q_zeroroot", "p", "B", lambda e, p: e.zero(p[0]), pre=lambda e, p: p)
    op("has", "q_has", "pv", "B", lambda e, p, v: True)
    op("has", "q_has", "pw", "B", lambda e, p, v: False)
    op("==", "q_eq", "pr", "B", lambda e, p, r: len(p) == len(r) and e.same(p, r))
    op("!=", "q_ne", "pr", "B", lambda e, p, r: not (len(p) == len(r) and e.same(p, r)))
    op("== coefficient", "q_eqc", "pc", "B", lambda e, p, c: len(p) < 2 and e.same(p, [c]))
    op("coefficient ==", "q_ceq", "cp", "B", lambda e, c, p: len(p) < 2 and e.same(p, [c]))
    nz_p = lambda e, p, *a: len(p) > 0
    op("syntheticDivision", "q_synth", "pn", "X", synth, maxp=4)
    op("eliminate_root", "q_elim", "pn", "X", elim, pre=lambda e, p, x: p and e.zero(peval(p, x)), maxp=4)
    op("remainder with prefactor", "q_prem", "prz", "R", None, pre=lambda e, p, r, c: r and len(p) >= len(r), maxp=4)
    op("+= itself", "q_addself", "p", "A", lambda e, p: padd(p, p))
    op("-= itself", "q_subself", "p", "A", lambda e, p: [])
    op("*= itself", "q_mulself", "p", "A", lambda e, p: pmul(p, p))
    op("= itself", "q_asself", "p", "A", lambda e, p: p)
    op("== itself", "q_eqself", "p", "B", lambda e, p: True)
    # integer coefficients: quotients and remainders are opaque values
    op("mod", "q_zmod", "iz", "A", None, maxp=3)
    op("mod", "q_zcmod", "iz", "P", None, maxp=3)
    op("/= integer", "q_zdivas", "iz", "A", None, maxp=3)
    op("/ integer", "q_zdiv", "iz", "P", None, maxp=3)
    op("+", "q_zadd", "ij", "P", lambda e, p, r: padd(p, r))
    op("*", "q_zmul", "ij", "P", lambda e, p, r: pmul(p, r))
    op("convert", "q_convert", "i", "P", lambda e, p: p)
    # construction
    op("construct zero", "q_zero", "v", "P", lambda e, v: [])
    for d in range(4):
        op("construct monomial", "q_mono", "vc%d" % d, "P", lambda e, v, c, k: [ZERO] * k + [c])
    op("construct from vector", "q_vec", "vL", "P", lambda e, v, l: l, maxp=4)
    op("construct from vector", "q_vecm", "vL", "P", lambda e, v, l: l, maxp=4)
    op("construct from list", "q_init3", "vcde", "P", lambda e, v, a, b, c: [a, b, c])
    op("construct from map", "q_map", "vM", "P", lambda e, v, l: l, maxp=4)
    return o


def synth(e, cell, ret, p, x):
    """value at x; the linear factor is divided out if x is a root of a non-constant polynomial"""
    v, new = peval(p, x), e.coeffs(cell.v)
    if not e.zero(p_sub(ret, v)):
        return False
    if len(p) > 1 and e.zero(v):
        return len(new) == len(p) - 1 and e.same(pmul(new, [p_neg(x), ONE]), p)
    return e.same(new, p)


def elim(e, cell, ret, p, x):
    new = e.coeffs(cell.v)
    k = len(p) - len(new)
    return k >= 1 and new and not e.zero(peval(new, x)) and e.same(pmul(new, ppow([p_neg(x), ONE], k)), p)


def elim0(e, p):
    i = 0
    while i < len(p) and e.zero(p[i]):
        i += 1
    return p[i:]


def jobs():
    for i, o in enumerate(ops()):
        args = o[2]
        ns = range(o[6] + 1) if set("piL") & set(args) else (range(1 << (o[6] + 1)) if "M" in args else (0,))
        for n in ns:
            for m in (range(o[7] + 1) if set("rj") & set(args) else (0,)):
                yield i, n, m


def run_op(env, o, n, m, report):
    """one operation on one pair of shapes, all paths; report(kind, outcome, details)"""
    name, q, kinds, res, oracle, pre, _, _ = o
    dom, I = env.dom, env.I
    P, R = atoms("a", n), atoms("b", m)
    nz = (["a%d" % (n - 1)] if n and set("pi") & set(kinds) else []) + (["b%d" % (m - 1)] if m else []) + (["c"] if "z" in kinds else [])

    def mk():
        return AlgWorld(env.sess.paths, nz)

    def body():
        vals, cells = [], []
        for k in kinds:
            if k in "prij":
                x = list(P if k in "pi" else R)
                vals.append(x)
                cells.append(Cell(env.poly(x, zero="q_zero" if k in "pr" else "q_zzero")))
            elif k in "cznde":
                vals.append(Sym.atom("c" if k == "z" else k))
                cells.append(Cell(vals[-1]))
            elif k in "vw":
                vals.append(None)
                cells.append(env.var("x" if k == "v" else "y"))
            elif k == "L":
                vals.append(list(P))
                cells.append(Cell(Vec([Cell(x) for x in P])))
            elif k == "M":
                s = [Sym.atom("a%d" % i) if n >> i & 1 else ZERO for i in range(o[6] + 1)]
                vals.append(s)
                cells.append(Cell(val(I.call_root("q_emptymap"))))
                for i in range(len(s)):
                    if n >> i & 1:
                        I.call_root("q_put", cells[-1], i, Cell(s[i]))
            else:
                vals.append(int(k))
                cells.append(int(k))
        if pre is not None and not pre(env, *vals):
            return None
        r = I.call_root(q, *cells)
        if res in "PA":
            r = val(r) if res == "P" else cells[0].v
            got = env.coeffs(r)
            inv = env.invariant(r)
            ok = (oracle is None or env.same(got, oracle(env, *vals))) and env.varof(r) == "x"
            # operands stay usable
            for k, c in zip(kinds, cells):
                if k in "prij" and not env.invariant(c.v):
                    inv = False
            return inv, ok, got
        if res == "N":
            return True, env.zero(p_sub(dom.num(val(r)), oracle(env, *vals))), val(r)
        if res == "B":
            return True, bool(val(r)) == bool(oracle(env, *vals)), val(r)
        if res == "S":
            g = int(dom.num(val(r)))
            return True, dom.w.sign(oracle(env, *vals)) == g, g
        if res == "D":
            r = val(r)
            quo, rem = r.get("quotient"), r.get("remainder")
            a, b = env.coeffs(quo), env.coeffs(rem)
            inv = env.invariant(quo) and env.invariant(rem)
            ok = env.same(padd(pmul(a, vals[1]), b), vals[0]) and len(env.strip(b)) < len(vals[1])
            return inv, ok, (a, b)
        if res == "X":
            ok = bool(oracle(env, cells[0], None if r is None else dom.num(val(r)), *vals))
            return env.invariant(cells[0].v), ok, env.coeffs(cells[0].v)
        if res == "R":
            b = env.coeffs(r)
            if len(vals) == 3:
                vals[0] = pmul(vals[0], [vals[2]])
            return env.invariant(r), len(env.strip(b)) < len(vals[1]) and divisible(env, padd(vals[0], pneg(b)), vals[1]), b
        raise Unsupported(res)
    for out in env.sess.explore(mk, body):
        if out.kind == "ok" and out.v is None:
            continue
        if (out.kind != "ok" or not out.v[0] or not out.v[1]) and dom.w.unsolved:
            raise Unsupported("undecided equation %r" % (dom.w.unsolved[0],))
        report(out, name, q, n, m)


def divisible(env, a, b):
    """does b divide a (leading coefficient of b an atom)"""
    a = list(a)
    inv = p_inv(b[-1])
    while len(a) >= len(b):
        f = p_mul(a[-1], inv)
        for i in range(len(b)):
            k = len(a) - len(b) + i
            a[k] = p_sub(a[k], p_mul(f, b[i]))
        a.pop()
    return env.same(a, [])
