"""C08: building a constraint keeps its solutions, verdicts at construction are right."""
import con, mp
from interp import Cell, Unsupported, val
from models import Vec
from dom import AlgWorld, IntWorld, Sym, ZERO, ONE, p_add, p_inv, p_mul, p_neg, p_sub
from session import pmap
from fractions import Fraction
import iv

X, ONEM = (1, 0, 0), mp.ONEM
DEF = {"NEGATIVE": {-1}, "NEGATIVE_SEMI": {-1, 0}, "NON": {-1, 0, 1}, "POSITIVE_SEMI": {0, 1}, "POSITIVE": {1}}
A = Sym.atom
G, H, K, N, F, R = A("g"), A("h"), A("k"), A("n"), A("f"), A("r")


class Env(mp.Env):
    """variables of given types"""

    def __init__(self, sess, types):
        mp.Env.__init__(self, sess)
        self.types = types

    def var(self, i):
        v = mp.Env.var(self, i)
        mp.field(v, lambda x: type(x) is int).v = (i + 1) << 3 | (2 if self.types[i] == "i" else 1)
        return v


def lead(ms):
    return max(ms, key=mp.mkey)


def div(sess, x, y):
    return p_mul(x, p_inv(y))


def run(chk):
    sess = con.setup()
    I, dom = sess.I, sess.dom
    REL = sess.prog.enum_by_name["carl::Relation"]
    NAME = {v: k for k, v in REL.items()}
    D = sess.prog.enum_by_name["carl::Definiteness"]
    chk.rule("Every way of building a constraint is explored with opaque coefficients and bounds; the polynomial and the relation stored "
             "must describe the same solutions: the same polynomial up to a factor of known sign, or for integer variables a shift that "
             "changes the verdict for no integer value.")
    chk.assume("scaling to coprime coefficients multiplies by one positive rational and makes the leading coefficient positive")
    chk.assume("the definiteness of a polynomial is any one that describes its signs; the construction must be right for each of them")
    st = {}

    def coeffs(this):
        return st["env"].pval(this)

    def polynomial(p):
        z = val(I.call_root("q_zero"))
        ms = sorted((m for m in p), key=mp.mkey)
        return st["env"].poly([(m, p[m]) for m in ms], True)

    def coprime(I, fn, this, a):
        p = coeffs(this)
        l = p[lead(p)]
        f = ONE
        if any("h" in [x for x, _ in m] for c in p.values() if isinstance(c, Sym) for m in c.t):
            f = H
        elif isinstance(dom.w, IntWorld) is False and any(isinstance(c, Sym) for c in p.values()):
            f = A("H")
            dom.w.facts[f.key()] = 1
        if dom.cmp(l, ZERO) < 0:
            f = p_neg(f)
        return polynomial({m: p_mul(c, f) for m, c in p.items()})

    def withoutconst(I, fn, this, a):
        p = coeffs(this)
        g = st.get("g", ONE)
        qs = [p_mul(c, p_inv(g)) for m, c in p.items() if any(m)]
        if not all(k.denominator == 1 and all(e > 0 for _, e in t) for c in qs for t, k in (c.t if isinstance(c, Sym) else {(): c}).items()):
            g = ONE
        g = p_inv(g)
        return p_neg(g) if dom.cmp(p[lead(p)], ZERO) < 0 else g

    def definite(I, fn, this, a):
        p = coeffs(a[0])
        ms = [m for m in p]
        if all(sum(m) < 2 for m in ms):
            return D["NON"]
        defs = st.setdefault("defs", [])
        for q, d in defs:
            if set(q) == set(p) and all(dom.w.norm(q[m]) == dom.w.norm(p[m]) for m in p):
                return D[d]
        if len(ms) == 1:
            d = "NON" if any(e % 2 for e in ms[0]) else "POSITIVE_SEMI" if dom.cmp(p[ms[0]], ZERO) > 0 else "NEGATIVE_SEMI"
        elif not any(len(q) > 1 for q, _ in defs):
            # the leading monomial is a vertex of the Newton polytope, the constant part is a value
            l, c = dom.cmp(p[lead(p)], ZERO), dom.cmp(p.get(ONEM, ZERO), ZERO)
            ds = [x for x in sorted(DEF) if x == "NON" or (l in DEF[x] and c in DEF[x] and not any(e % 2 for e in lead(p)))]
            d = ds[dom.w.paths.choose(len(ds))]
        else:
            return D["NON"]
        defs.append((p, d))
        return D[d]
    hooks = {"coprimeCoefficients": coprime, "coprimeFactorWithoutConstant": withoutconst}
    for f in sess.prog.fns.values():
        n = f["qn"].split("::")[-1]
        if f["qn"].startswith("carl::MultivariatePolynomial") and n in hooks:
            f["_model"] = hooks[n]
        elif f["qn"].startswith("std::hash") and f["name"] == "operator()" and "MultivariatePolynomial" in f["sig"]:
            f["_model"] = lambda I, fn, this, a: 0       # lookups compare elements
        elif f["qn"] == "carl::definiteness" and "MultivariatePolynomial" in f["sig"]:
            f["_model"] = definite

    def read(c):
        r = NAME.get(I.call_root("q_rel", Cell(c)))
        if r is None:
            raise Unsupported("relation")
        return st["env"].nonzero(st["env"].pval(val(I.call_root("q_lhs", Cell(c))))), r, I.call_root("q_cons", Cell(c))

    def holds(x, rel):
        return dom.cmp(x, ZERO) in con.TRUTH[rel]

    def judge(p, rel, c, vals, integer):
        """p: given polynomial, vals: values of p (expressions) that matter; returns None or what is wrong"""
        q, rel2, cons = read(c)
        text = "gives %s %s 0, consistency %s" % (mp.show_poly(q) if hasattr(mp, "show_poly") else {mp.show(m): repr(x) for m, x in q.items()}, rel2, cons)
        p = st["env"].nonzero(p)
        ps, qs = [m for m in p if any(m)], [m for m in q if any(m)]
        if not qs:
            const = q.get(ONEM, ZERO)
            f = lambda x: holds(const, rel2)
        else:
            m = lead(ps) if ps else None
            if m not in q:
                return monomial(p, rel, q, rel2, cons, text)
            lam = div(sess, q[m], p[m])
            if set(ps) != set(qs) or not all(dom.cmp_op("==", q[k], p_mul(lam, p[k])) for k in ps):
                return monomial(p, rel, q, rel2, cons, text)
            kap = p_sub(q.get(ONEM, ZERO), p_mul(lam, p.get(ONEM, ZERO)))
            f = lambda x: holds(p_add(p_mul(lam, x), kap), rel2)
        signs = []     # how the polynomials whose signs are known follow from the given one
        for o, d in st.get("defs", ()):
            if lead(o) in p and d != "NON":
                l = div(sess, o[lead(o)], p[lead(o)])
                signs.append((l, p_sub(o.get(ONEM, ZERO), p_mul(l, p.get(ONEM, ZERO))), DEF[d]))
        for x in vals:
            if any(dom.cmp(p_add(p_mul(l, x), k), ZERO) not in d for l, k, d in signs):
                continue
            want = holds(x, rel)
            if f(x) != want:
                return "%s: value %r %s" % (text, x, "is lost" if want else "is added")
            if cons == 0 and want or cons == 1 and not want:
                return "%s although the value %r %s" % (text, x, "satisfies it" if want else "does not")
            if cons not in (0, 1, 2):
                return text
        return None

    def monomial(p, rel, q, rel2, cons, text):
        """both sides have the same variable: compare by the sign of the variable, or for each small integer"""
        vs = {i for m in list(p) + list(q) for i, e in enumerate(m) if e}
        if len(vs) != 1:
            return text
        if ONEM in p or ONEM in q:
            if not isinstance(dom.w, IntWorld):
                return text
            xs = [Fraction(i) for i in range(-3, 4)]
        else:
            xs = [p_mul(Fraction(s), A("t")) for s in (-1, 0, 1)]
        for x in xs:
            a, b = ZERO, ZERO
            for m, c in p.items():
                a = p_add(a, p_mul(c, power(x, sum(m))))
            for m, c in q.items():
                b = p_add(b, p_mul(c, power(x, sum(m))))
            if holds(a, rel) != holds(b, rel2):
                return "%s: differs for x = %r" % (text, x)
            if cons == 0 and holds(a, rel) or cons == 1 and not holds(a, rel):
                return "%s: wrong for x = %r" % (text, x)
        return None

    def power(x, n):
        r = ONE
        for _ in range(n):
            r = p_mul(r, x)
        return r

    def bound(ty, rel, kind):
        def world():
            st.clear()
            return IntWorld(sess.paths, ["n"], [F] if kind == "f" else [])
        def body():
            env = st["env"] = Env(sess, ty * 3)
            b = {"n": N, "f": p_add(N, F), "0": ZERO}[kind]
            c = val(I.call_root("q_bound", env.var(0), REL[rel], Cell(b)))
            p = {X: ONE, ONEM: p_neg(b)}
            if ty == "i":
                vals = [Fraction(k) if kind != "f" else p_sub(Fraction(k), F) for k in range(-3, 4)]
            else:
                vals = [p_mul(Fraction(k), A("t")) for k in (-1, 0, 1)]
                dom.w.positive(A("t"))
            why = judge(p, rel, c, vals, ty == "i")
            return why is None, why or ""
        desc = "x %s %s for %s x" % (rel, {"n": "n", "f": "n+f with 0<f<1", "0": "0"}[kind], {"i": "integer", "r": "real"}[ty])
        yield from iv.decide(sess, world, "q_bound", body, desc, "same solutions")

    def poly(types, ms, rel, kind):
        integer = all(types[i] == "i" for m in ms for i, e in enumerate(m) if e) and any(any(m) for m in ms)
        g = {"2": Fraction(2), "a": G, "e": G, "m": G}.get(kind, ONE)
        r = {"2": ONE, "a": ONE, "e": p_sub(G, ONE), "m": R}.get(kind, ZERO)

        def world():
            st.clear()
            if not integer:
                return AlgWorld(sess.paths, ["c%d" % i for i in range(len(ms))])
            st["g"] = g
            ints = ["k", "g", "r"] + ["a%d" % i for i in range(len(ms))]
            fr, pos = [], []
            if kind in "aem":
                fr, pos = [p_inv(G), div(sess, Fraction(2), G)], [G] + [p_sub(G, Fraction(i)) for i in (1, 2)]
            if kind == "m":
                fr += [div(sess, p_add(R, Fraction(i)), G) for i in (0, 1, -1)]
                pos += [R, p_sub(R, ONE), p_sub(p_sub(G, R), ONE), p_sub(G, R), p_sub(p_add(G, ONE), R)]
            w = IntWorld(sess.paths, ints, fr, ["h"] + ["a%d" % i for i in range(len(ms))] + ["k"] * (kind == "1"), pos, [G] if kind in "aem" else ())
            for i in (0, 1, -1):     # not a multiple of g
                c = p_add(p_add(p_mul(g, K), r), Fraction(i))
                if kind not in "01" and not w.is_int(div(sess, c, g)):
                    for z in (K, p_neg(K)):
                        s, _, q = w.split(p_add(p_mul(g, z), p_add(r, Fraction(i))))
                        w.nz.add(q.key())
            return w

        def body():
            env = st["env"] = Env(sess, types)
            dom.w.facts[A("t").key()] = 1
            if not integer:
                p = {m: A("c%d" % i) for i, m in enumerate(ms)}
                vals = [p_mul(Fraction(k), A("t")) for k in (-1, 0, 1)] if any(map(any, ms)) else [p.get(ONEM, ZERO)]
            else:
                s = (1, -1)[dom.w.paths.choose(2)]
                dom.w.positive(p_mul(Fraction(s), H) if s > 0 else H)
                hi = p_inv(H) if s > 0 else p_neg(p_inv(H))
                uni = sum(1 for m in ms if any(m)) == 1
                k = p_add(p_mul(g, K), r)
                p = {m: p_mul(p_mul(g, ONE if uni else A("a%d" % i)), hi) for i, m in enumerate(ms) if any(m)}
                if uni and dom.w.paths.choose(2):
                    p = mp.pneg(p)
                if kind != "0":
                    p[ONEM] = p_mul(k, hi)
                vals = [p_mul(p_add(p_mul(g, Fraction(t)), r), hi) for t in range(-3, 4)]
            c = val(I.call_root("q_poly", Cell(env.poly([(m, p[m]) for m in ms], True)), REL[rel]))
            why = judge(p, rel, c, vals, integer)
            return why is None, why or ""
        desc = "%s %s 0, %s%s" % (" + ".join("c*" + mp.show(m) for m in ms) or "0", rel, "integer" if integer else "mixed" if "i" in types else "real",
                                  {"0": "", "1": ", coprime", "2": ", constant odd", "a": ", constant = 1 mod g", "e": ", constant = -1 mod g", "m": ", constant = r mod g", "": ""}[kind])
        yield from iv.decide(sess, world, "q_poly", body, desc, "same solutions")

    def simple(ms, rel, q):
        def body():
            env = mp.Env(sess)
            p = {m: A("c%d" % i) for i, m in enumerate(ms)}
            got = I.call_root(q, Cell(env.poly([(m, p[m]) for m in ms], True)), REL[rel])
            want = not any(map(any, ms)) and holds(p.get(ONEM, ZERO), rel) == (q == "q_simpletrue")
            return got == want, "answers %r" % (got,)
        desc = "%s %s 0" % (" + ".join("c*" + mp.show(m) for m in ms) or "0", rel)
        yield from iv.decide(sess, lambda: AlgWorld(sess.paths, ["c%d" % i for i in range(len(ms))]), q, body, desc, "trivial constraint", "simple")

    def trivial(b):
        def body():
            c = val(I.call_root("q_trivial", b))
            st["env"] = Env(sess, "rrr")
            q, rel, cons = read(c)
            ok = not any(map(any, q)) and holds(q.get(ONEM, ZERO), rel) == b and cons == int(b)
            return ok, "relation %s, consistency %r" % (rel, cons)
        yield from iv.decide(sess, lambda: AlgWorld(sess.paths), "q_trivial", body, "the constraint %s" % ("true" if b else "false"), "trivial constraint", "simple")

    def work(it):
        yield from {"bound": bound, "poly": poly, "simple": simple, "trivial": trivial}[it[0]](*it[1:])
    Y, XY = (0, 1, 0), (1, 1, 0)
    SH = [[], [ONEM], [X], [ONEM, X], [X, Y], [ONEM, X, Y], [(2, 0, 0)], [(3, 0, 0)], [(4, 0, 0)], [ONEM, (2, 0, 0)], [ONEM, (3, 0, 0)],
          [XY], [ONEM, XY], [X, (2, 0, 0)], [ONEM, X, (2, 0, 0)], [(2, 0, 0), XY, (0, 2, 0)], [ONEM, Y, (2, 0, 0)], [(2, 2, 0)], [(2, 1, 0)]]
    items = [("bound", t, r, k) for t in "ir" for r in con.TRUTH for k in "nf0"]
    items += [("trivial", b) for b in (True, False)]
    items += [("simple", ms, r, q) for ms in SH[:4] for r in con.TRUTH for q in ("q_simpletrue", "q_simplefalse")]
    for ms in SH:
        for r in con.TRUTH:
            items.append(("poly", "rrr", ms, r, ""))
            if any(any(m) for m in ms):
                for k in ("12aem" if ONEM in ms else "0"):
                    items.append(("poly", "iii", ms, r, k))
            if any(m[1] for m in ms):
                items.append(("poly", "irr", ms, r, ""))
    pmap(chk, sess, items, work)
    chk.require("obligations bound", 36)
    chk.require("obligations poly", 2000)
    chk.require("obligations simple", 50)
