"""Constraints, interval maps and contractors as abstract objects (C09, C35)."""
import iv, mp
from interp import Cell, Native, Ptr, Unsupported, val
from models import Smart
from dom import Sym, ZERO

TRUTH = {"EQ": {0}, "NEQ": {-1, 1}, "LESS": {-1}, "LEQ": {-1, 0}, "GREATER": {1}, "GEQ": {0, 1}}


class Tri(Native):
    """boost::tribool"""

    def __init__(self, v):
        self.value = v

    def copy(self):
        return Tri(self.value)


def setup():
    sess = mp.setup("constraint.cpp")

    def tri(I, fn, this, a):
        if fn.get("ctor"):
            v = val(a[0]) if a else False
            if type(v) in (bool, int):
                this.v = Tri(bool(v))
            elif isinstance(v, Tri):
                this.v = v.copy()
            elif "indeterminate_t" in fn["sig"]:
                this.v = Tri(None)
            else:
                raise Unsupported("tribool from %r" % (v,))
            return None
        if fn["name"] == "indeterminate":
            return val(a[0]).value is None
        if fn.get("op") == "!":
            x = val(a[0] if a else this).value
            return Tri(None if x is None else not x)
        raise Unsupported("tribool: " + fn["qn"])
    sess.models.pat(r"^boost::logic::", tri)
    return sess


def record(sess, prefix):
    rs = [r for r in sess.prog.recs.values() if r["name"].split("<")[0] == prefix and not r.get("opaque")]
    if len(rs) != 1:
        raise Unsupported("%d records %s" % (len(rs), prefix))
    return rs[0]


def slot(sess, obj, prefix):
    """the only field of obj whose type is the named class or enumeration"""
    fs = [f for f in sess.prog.allfields(obj.rec)
          if sess.prog.types[f["t"]]["name"].replace("const ", "").replace("enum ", "").split("<")[0] == prefix]
    if len(fs) != 1:
        raise Unsupported("%d fields of type %s in %s" % (len(fs), prefix, obj.rec["name"]))
    return obj.f[fs[0]["id"]]


def constraint(sess, rel, lhs, names, env=None):
    """a constraint object with the given relation, left-hand side and variables"""
    I = sess.I
    env = env or mp.Env(sess)
    k = I.default_struct(record(sess, "carl::ConstraintContent"))
    vs = Cell(val(I.call_root("q_vars")))
    for i in names:
        I.call_root("q_addvar", vs, env.var(i))
    slot(sess, k, "carl::Relation").v = rel
    slot(sess, k, "carl::MultivariatePolynomial").v = lhs
    slot(sess, k, "carl::carlVariables").v = vs.v
    c = I.default_struct(record(sess, "carl::Constraint"))
    slot(sess, c, "std::shared_ptr").v = Smart(Ptr(Cell(k)))
    return c


def make(sess, spec, p, pre=""):
    """abstract interval over the number type selected by pre ('d' for double)"""
    I = sess.I
    if spec == iv.EMPTY:
        return val(I.call_root("q_%sempty" % pre))
    lt, ut = spec
    lo = Sym.atom(p + "l") if lt != iv.INFTY else ZERO
    hi = Sym.atom(p + "u") if ut != iv.INFTY else ZERO
    return val(I.call_root("q_%smk4" % pre, lo, lt, hi, ut))


def signs(mask, line):
    """signs of the numbers in a set of segments"""
    z = line.seg(line.crank[ZERO])
    return {s for s, m in ((-1, line.below(z)), (0, 1 << z), (1, line.above(z))) if mask & m}
