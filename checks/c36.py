"""C36: structural questions about monomials, terms and polynomials are answered from the terms written out."""
from fractions import Fraction
import c16, mp
from dom import ZERO, ONE, p_sub
from mp import ONEM, Op, const, coeff, lm, v_of

N3 = range(len(mp.VARS))


def occ(*ps):
    return {i for p in ps for m in p for i in N3 if m[i]}


def degs(p, v):
    return [m[v_of(v)] for m in p if m[v_of(v)]]


def square(m):
    return all(x % 2 == 0 for x in m)


def F(x):
    return Fraction(int(x))


def vertices(ms):
    """monomials that dominate the others somewhere: not the midpoint of two others"""
    return [m for m in ms if not any(a != b and all(2 * x == y + z for x, y, z in zip(m, a, b)) for a in ms for b in ms)]


def definite(e, r, c, p):
    """a claimed sign is refuted by a dominating term that takes the other sign, a strict one by the value at zero"""
    r = mp.val(r)
    p = e.nonzero(p)
    if r == 2:
        return True
    s = 1 if r > 2 else -1
    if any(not square(m) or e.dom.cmp(p[m], ZERO) != s for m in vertices(list(p))):
        return False
    return r in (1, 3) or ONEM in p


def ops():
    o = [x for x in mp.ring_ops() if x.q in ("q_hasc", "q_tdeg", "q_deg", "q_iszero", "q_isone", "q_isconst", "q_islin", "q_isvar", "q_isuni", "q_has", "q_coeff", "q_lcoeffv", "q_cpart",
                                             "q_expm", "q_tdegm", "q_hasm", "q_noother", "q_linm", "q_squarem", "q_lcoeff", "q_lmon", "q_tt")]

    def op(*a, **k):
        o.append(Op(*a, **k))
    nz = lambda e, p, *a: p
    one = lambda e, p: len(p) == 1 and sum(x > 0 for x in lm(p)) == 1
    has = lambda e, p, v: v_of(v) in occ(p)
    # polynomials
    op("number of terms", "q_nterms", "pW", "N", lambda e, p: F(len(p)))
    op("total degree", "q_ftdeg", "pW", "N", lambda e, p: F(max(map(sum, p), default=0)))
    op("is zero", "q_fiszero", "pW", "B", lambda e, p: not p)
    op("is one", "q_fisone", "pB", "B", lambda e, p: e.same(p, const(ONE)))
    op("is constant", "q_fisconst", "pW", "B", lambda e, p: not occ(p))
    op("is linear", "q_fislin", "pW", "B", lambda e, p: all(sum(m) <= 1 for m in p), pre=lambda e, p: occ(p))
    op("is number", "q_isnum", "pW", "B", lambda e, p: not occ(p))
    op("is a multiple of a variable", "q_single", "pW", "B", lambda e, p: len(p) == 1 and sum(lm(p)) == 1, pre=nz)
    op("single variable", "q_thesingle", "pW", "V", lambda e, p: min(occ(p)), pre=one)
    op("is a sum of squares", "q_tsos", "pB", "B", lambda e, p: all(square(m) and e.dom.cmp(c, ZERO) > 0 for m, c in p.items()))
    op("definiteness", "q_definite", "pB", "Z", definite)
    # collected variables
    op("variables", "q_vhas", "pW v3", "B", lambda e, p, v: v_of(v) in occ(p))
    op("variables", "q_vsize", "pW", "N", lambda e, p: F(len(occ(p))))
    op("real variables", "q_vreal", "pV v3", "B", lambda e, p, v: v_of(v) in occ(p))
    op("arithmetic variables", "q_varith", "pV v3", "B", lambda e, p, v: v_of(v) in occ(p))
    op("variables of other types", "q_vint", "pV", "N", lambda e, p: ZERO)
    op("variables of two polynomials", "q_vsum", "pM pM v", "B", lambda e, p, r, v: v_of(v) in occ(p, r))
    op("variables of two polynomials", "q_vsumsize", "pM pM", "N", lambda e, p, r: F(len(occ(p, r))))
    op("removal of a variable", "q_verase", "pV v3 v3", "B", lambda e, p, v, w: v_of(w) in occ(p) - {v_of(v)})
    op("equal variables", "q_vsame", "pM pM", "B", lambda e, p, r: occ(p) == occ(r))
    # information per variable
    for k in "ic":
        op("maximal degree", "q_%smax" % k, "pW v3", "N", lambda e, p, v: F(max(degs(p, v), default=0)))
        op("minimal degree", "q_%smin" % k, "pW v3", "N", lambda e, p, v: F(min(degs(p, v), default=0)))
        op("number of occurrences", "q_%socc" % k, "pW v3", "N", lambda e, p, v: F(len(degs(p, v))))
    op("occurs", "q_aocc", "pW v3", "B", has)
    op("maximal degree", "q_amax", "pW v3", "N", lambda e, p, v: F(max(degs(p, v))), pre=has)
    op("minimal degree", "q_amin", "pW v3", "N", lambda e, p, v: F(min(degs(p, v))), pre=has)
    op("number of occurrences", "q_anum", "pW v3", "N", lambda e, p, v: F(len(degs(p, v))), pre=has)
    op("coefficient of a power", "q_ccoeff", "pW v3 e3", "P", lambda e, p, v, k: coeff(p, v_of(v), k))
    op("coefficient of a power", "q_acoeff", "pW v3 e3", "P", lambda e, p, v, k: coeff(p, v_of(v), k), pre=lambda e, p, v, k: k and has(e, p, v))
    # recursive polynomials
    for q in ("q_utdeg", "q_utdegm"):
        op("total degree of recursive polynomial", q, "pV v3", "N", lambda e, p, v: F(max(map(sum, p), default=0)))
    op("degree of recursive polynomial", "q_udeg", "pV v3", "N", lambda e, p, v: F(max(degs(p, v), default=0)), pre=nz)
    op("recursive polynomial has", "q_uhas", "pV v3 v3", "B", lambda e, p, v, w: v_of(w) in occ(p), pre=lambda e, p, v, w: v_of(v) != v_of(w))
    op("variables of recursive polynomial", "q_uvhas", "pV v3 v3", "B", lambda e, p, v, w: v_of(w) in occ(p))
    op("variables of recursive polynomial", "q_uvsize", "pV v3", "N", lambda e, p, v: F(len(occ(p))))
    op("recursive polynomial is number", "q_unum", "pV v3", "B", lambda e, p, v: not occ(p))
    op("recursive polynomial is univariate", "q_uuni", "pV v3", "B", lambda e, p, v: occ(p) <= {v_of(v)})
    op("recursive polynomial is linear in its variable", "q_ulin", "pV v3", "B", lambda e, p, v: max(degs(p, v), default=0) <= 1)
    op("constant part of recursive polynomial", "q_ucpart", "pV v3", "N", lambda e, p, v: p.get(ONEM, ZERO))
    # terms
    for q in ("q_tterm", "q_ftterm"):
        op("total degree of term", q, "z9", "N", lambda e, t: F(sum(lm(t))))
    for q in ("q_tconst", "q_tfconst"):
        op("term is constant", q, "z9", "B", lambda e, t: not occ(t))
    for q in ("q_tlin", "q_tfalin"):
        op("term is at most linear", q, "z9", "B", lambda e, t: sum(lm(t)) <= 1)
    for q in ("q_tflin", "q_tsingle"):
        op("term is linear", q, "z9", "B", lambda e, t: sum(lm(t)) == 1)
    op("term is one", "q_tfone", "z9", "B", lambda e, t: not occ(t) and e.zero(p_sub(t[ONEM], ONE)))
    op("number of variables of term", "q_tvars", "z9", "N", lambda e, t: F(len(occ(t))))
    for q in ("q_thas", "q_tvhas"):
        op("term has", q, "z9 v3", "B", has)
    op("term has no other variable", "q_tnoother", "z9 v3", "B", lambda e, t, v: occ(t) <= {v_of(v)})
    op("term is square", "q_tsquare", "z9", "B", lambda e, t: square(lm(t)) and e.dom.cmp(t[lm(t)], ZERO) > 0)
    op("single variable of term", "q_tthesingle", "z9", "V", lambda e, t: min(occ(t)), pre=one)
    op("definiteness of term", "q_tdefinite", "z9", "Z", definite)
    # monomials
    op("number of variables of monomial", "q_mvars", "n9", "N", lambda e, m: F(len(occ(m))))
    op("variables of monomial", "q_mvhas", "n9 v3", "B", has)
    op("total degree of monomial", "q_mftdeg", "n9", "N", lambda e, m: F(sum(lm(m))))
    op("monomial is constant", "q_mconst", "n9", "B", lambda e, m: False)
    for q in ("q_mfalin", "q_mflin"):
        op("monomial is linear", q, "n9", "B", lambda e, m: sum(lm(m)) == 1)
    op("single variable of monomial", "q_mthesingle", "n9", "V", lambda e, m: min(occ(m)), pre=one)
    return o


def run(chk):
    chk.rule("every structural query returns what the terms of the operand dictate: degrees, occurring variables, coefficients, classification")
    chk.rule("a claimed definiteness is not refuted by a dominating term or the value at zero")
    chk.rule("the variables and functions collected from bit-vector and uninterpreted terms and constraints are those that occur in them")
    chk.assume("up to three variables, up to four terms of degree at most three (monomials: exponents up to two) in every admissible storage order, opaque non-zero coefficients, default ordering and policies")
    mp.drive(chk, ops(), "structural query", lambda v: None if v.ok else "answer %s differs from the one the terms dictate" % (v.got,), "query.cpp")
    chk.require("obligations", 50000)
    c16.managers(chk, True)
    c16.vectors(chk, True)
    chk.require("obligations uninterpreted terms", 150)
    chk.require("obligations bit-vector terms", 100)
