"""C25: settings quantities.  The number of a quantity is one opaque integer known only by an interval; the unit tables
are interpreted exactly and the parser expressions are matched against texts of the form <number><letters>."""
from fractions import Fraction
import containers, front
from interp import Cell, Native, Unsupported, AssertFail, CppThrow, Struct, val, copyval
from models import Str, Stream, VecIt, Vec, Opaque
from dom import Dom, Sym, ZERO, p_sub
from session import Session, pmap

N = Sym.atom("n")
NUM = "\x01"      # stands for the digits of the opaque number
DUR = [("ns", 1), ("µs", 10 ** 3), ("us", 10 ** 3), ("ms", 10 ** 6), ("s", 10 ** 9), ("m", 60 * 10 ** 9), ("h", 3600 * 10 ** 9)]
BIN = [("", 1)] + [(p + s, 1 << 10 * (i + 1)) for i, p in enumerate("KMGTPE") for s in ("", "i")]
MET = [("", 1)] + [(p, 1000 ** (i + 1)) for i, p in enumerate("KMGTPE")]
KINDS = {
    "dur": ("duration", DUR, [("ns", 1), ("µs", 10 ** 3), ("ms", 10 ** 6), ("s", 10 ** 9), ("m", 60 * 10 ** 9), ("h", 3600 * 10 ** 9)], -2 ** 63, 2 ** 63 - 1),
    "bin": ("binary_quantity", BIN, [("", 1)] + [(p + "i", 1 << 10 * (i + 1)) for i, p in enumerate("KMGTPE")], 0, 2 ** 64 - 1),
    "met": ("metric_quantity", MET, MET, 0, 2 ** 64 - 1),
}
ACC = [("bin", "a_" + n, 1 << 10 * (i + 1)) for i, n in enumerate("kibi mebi gibi tebi pebi exbi".split())] + \
      [("met", "a_" + n, 1000 ** (i + 1)) for i, n in enumerate("kilo mega giga tera peta exa".split())] + \
      [("dur", "d_" + n, f) for n, f in (("us", 10 ** 3), ("ms", 10 ** 6), ("s", 10 ** 9), ("m", 60 * 10 ** 9), ("h", 3600 * 10 ** 9))]


class IvDom(Dom):
    """one opaque integer n in an interval; a comparison with a constant inside the interval splits it"""

    def __init__(self):
        super().__init__()
        self.lo = self.hi = None
        self.paths = None
        self.quots = {}

    def cmp(self, a, b):
        a, b = self.num(a), self.num(b)
        d = p_sub(a, b)
        if isinstance(d, Fraction):
            return (d > 0) - (d < 0)
        t = dict(d.t)
        c0 = t.pop((), ZERO)
        if len(t) != 1 or (("n", 1),) not in t:
            raise Unsupported("comparison of %r" % (d,))
        k = t[(("n", 1),)]
        piv = -c0 / k
        s = 1 if k > 0 else -1
        if self.lo > piv: return s
        if self.hi < piv: return -s
        opts = []
        if self.lo < piv: opts.append((self.lo, -((-piv.numerator) // piv.denominator) - 1, -1))
        if piv.denominator == 1: opts.append((int(piv), int(piv), 0))
        if self.hi > piv: opts.append((piv.numerator // piv.denominator + 1, self.hi, 1))
        if len(opts) == 1:
            return s * opts[0][2]
        self.lo, self.hi, r = opts[self.paths.choose(len(opts))]
        return s * r

    def int_op(self, op, a, b, ty):
        if op == ">>" and type(b) is int:
            op, b = "/", 1 << b
            if self.cmp(a, 0) < 0:
                raise Unsupported("shift of a negative number")
        if op == "<<" and type(b) is int:
            return self.mul(a, 1 << b)
        if op == "/" and type(b) is int:
            if b == 0:
                raise AssertFail("division by zero")
            if b == 1:
                return a
            if isinstance(a, Sym) and len(a.t) == 1:
                (m, c), = a.t.items()
                if m == (("n", 1),) and c == 1:
                    return Sym.atom("n/%d" % b)
                if c.denominator == 1 and c % b == 0:
                    return self.mul(a, Fraction(1, b))
                if m[0][0].startswith("n/") and c == 1 and len(m) == 1 and m[0][1] == 1:    # truncating divisions compose
                    return Sym.atom("n/%d" % (int(m[0][0][2:]) * b))
            raise Unsupported("quotient of %r" % (a,))
        return super().int_op(op, a, b, ty)

    def int_cast(self, v, ty):
        b, s = ty.get("bits"), ty.get("signed")
        if b and isinstance(v, Sym) and v == N:
            lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)
            if self.lo < lo or self.hi > hi:
                raise AssertFail("conversion of the value to %d bits changes it" % b)
        return v


class Gram(Native):
    """parser expression"""

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def copy(self):
        return self

    def __repr__(self):
        return "%s%r" % (self.op, self.a)


class Symbols(Native):
    def __init__(self):
        self.tab = {}

    def copy(self):
        r = Symbols()
        r.tab = self.tab
        return r

    def member(self, n):
        if n not in ("add",):
            raise Unsupported("symbol table member " + n)
        return Cell(self)


def peg(g, s, i, out):
    """ordered-choice matching of parser expression g at s[i:]; returns new position or None"""
    if isinstance(g, Symbols):
        for n in range(len(s) - i, 0, -1):
            if s[i:i + n] in g.tab:
                out.append(g.tab[s[i:i + n]])
                return i + n
        return None
    if g.op == "num":
        if i < len(s) and s[i] == NUM:
            out.append(N)
            return i + 1
        return None
    if g.op == "num32":       # rejects the larger numbers of the analysed range
        return None
    if g.op == "eoi":
        return i if i == len(s) else None
    if g.op == "eps":
        return i
    if g.op == "lit":
        return i + len(g.a[0]) if s.startswith(g.a[0], i) else None
    if g.op == ">>":
        k = len(out)
        j = peg(g.a[0], s, i, out)
        if j is None:
            return None
        j = peg(g.a[1], s, j, out)
        if j is None:
            del out[k:]
        return j
    if g.op == "-":
        k = len(out)
        j = peg(g.a[0], s, i, out)
        if j is None:
            del out[k:]
            out.append(None)
            return i
        return j
    if g.op == "|":
        j = peg(g.a[0], s, i, out)
        return j if j is not None else peg(g.a[1], s, i, out)
    raise Unsupported("parser expression %r" % (g,))


def register(m):
    m.table["boost::program_options::validators::get_single_string"] = lambda I, fn, this, a: Str(val(a[0]).cells[0].v.s)
    ATOMS = {"long_": "num", "long_long": "num", "ulong_": "num", "ulong_long": "num", "int_": "num32", "uint_": "num32", "short_": "num32", "ushort_": "num32", "eoi": "eoi", "eps": "eps"}
    old = m.global_var

    def gv(I, n):
        q = n.get("qn", "")
        if q.startswith("boost::spirit::"):
            k = ATOMS.get(q.rsplit("::", 1)[1])
            if k is None:
                raise Unsupported("parser " + q)
            return Gram(k)
        return old(I, n)
    m.global_var = gv

    def g(x):
        x = val(x)
        if isinstance(x, Str):
            return Gram("lit", x.s)
        if not isinstance(x, (Gram, Symbols)):
            raise Unsupported("parser operand %r" % (x,))
        return x

    def proto(I, fn, this, a):
        op = fn["op"]
        if len(a) == 2 and op in (">>", "|"):
            return Gram(op, g(a[0]), g(a[1]))
        if len(a) == 1 and op == "-":
            return Gram("-", g(a[0]))
        raise Unsupported("parser operator " + op)
    m.pat(r"^boost::proto::.*operator", proto)

    def symctor(I, fn, this, a):
        this.v = Symbols()
    m.pat(r"^boost::spirit::qi::symbols::symbols$", symctor)

    def adder(I, fn, this, a):
        this.v.tab[val(a[0]).s] = copyval(val(a[1]))
        return this
    m.pat(r"^boost::spirit::qi::symbols::adder::operator\(\)$", adder)

    oldrec = m.record_default

    def recdef(I, rec):
        if rec["name"].startswith("boost::spirit::qi::symbols"):
            return Symbols()
        return oldrec(I, rec)
    m.record_default = recdef

    def parse(I, fn, this, a):
        it, end, ex, attrs = val(a[0]), val(a[1]), g(a[2]), a[3:]
        s, i = it.vec.s, it.i
        out = []
        j = peg(ex, s, i, out)
        for k, o in enumerate(out):
            if o is not None and k < len(attrs):
                I.assign(attrs[k], copyval(o))
        return j is not None
    m.table["boost::spirit::qi::parse"] = parse

    def anyassign(I, fn, this, a):
        this.v = Boxed(copyval(val(a[0])))
        return this
    m.table["boost::any::operator="] = anyassign
    m.table["boost::any::any"] = lambda I, fn, this, a: None

    def anycast(I, fn, this, a):
        b = val(a[0])
        if not isinstance(b, Boxed):
            raise AssertFail("returns without a value")
        return copyval(b.v)
    m.table["boost::any_cast"] = anycast


class Boxed(Native):
    def __init__(self, v):
        self.v = v

    def copy(self):
        return Boxed(copyval(self.v))


class TextIt(Native):
    def __init__(self, vec, i):
        self.vec, self.i = vec, i

    def copy(self):
        return TextIt(self.vec, self.i)


def run(chk):
    chk.rule("a text is accepted exactly if it is a number followed by one of the documented suffixes, and the product fits the quantity, and then denotes number * factor of the suffix")
    chk.rule("a quantity is printed with the largest unit not exceeding it, as value / factor and that unit's suffix, which the parser maps back to the same factor")
    chk.rule("unit accessors and conversions return value / factor; equality and order are those of the value")
    chk.assume("the number is one opaque integer in an interval that comparisons with constants split")
    chk.assume("boost::spirit expressions are modelled by ordered-choice matching of number, symbol table, optional, sequence and end-of-input")
    dom = IvDom()
    sess = Session("settings.cpp", dom=dom, keep="^std::chrono")
    containers.register(sess.models)
    register(sess.models)
    sess.models.table["std::basic_string::begin"] = lambda I, fn, this, a: TextIt(this.v, 0)
    sess.models.table["std::basic_string::end"] = lambda I, fn, this, a: TextIt(this.v, len(this.v.s))
    I = sess.I
    dom.paths = sess.paths
    where = {k: "%s/src/carl-settings/settings_utils.cpp validate(%s)" % (front.REPO, v[0]) for k, v in KINDS.items()}
    for f in sess.prog.fns.values():
        if f["qn"] == "carl::settings::validate":
            for k, v in KINDS.items():
                if v[0] + " *" in f["sig"]:
                    where[k] = "%s:%d validate(%s)" % (f["file"], f["line"], v[0])

    GET = {"dur": "q_count", "bin": "q_bn", "met": "q_mn"}
    MAKE = {"dur": "q_mkdur", "bin": "q_mkbin", "met": "q_mkmet"}

    def explore(kind, lo, hi, body):
        def mk():
            dom.lo, dom.hi = lo, hi
            return sess.world({}, 0)
        return sess.explore(mk, body)

    letters = sorted({s for v in KINDS.values() for s, _ in v[1]})
    extra = ["k", "KB", "Kb", "MiB", "sec", "min", "x", "Kx", "nss", "msh", " s", "s ", "d", "hs", "i", "iK", "KiK", "KK", "e", "%"]

    def work(j):
        if j[0] == "parse":
            kind, text, factor, lo, hi = j[1:]
            for o in explore(kind, lo, hi, lambda: val(I.call_root(GET[kind], Cell(I.call_root("q_p" + kind, Cell(Vec([Cell(Str(text))]))))))):
                yield ("count", "obligations parsed texts", 1)
                show = text.replace(NUM, "<number>")
                if factor is None:
                    bad = o.kind != "throw"
                    det = "accepted as %r" % (o.v,) if o.kind == "ok" else repr(o)
                else:
                    bad = not (o.kind == "ok" and p_sub(dom.num(o.v), dom.mul(N, factor)) == 0)
                    det = "gives %r, expected <number> * %d" % (o.v if o.kind == "ok" else o, factor)
                if bad:
                    yield ("violation", dict(rule="a text is accepted exactly with a documented suffix and scaled by its factor", where=where[kind],
                                             instance="%s '%s' with the number in [%d, %d]" % (KINDS[kind][0], show, lo, hi), detail=det))
        elif j[0] == "print":
            kind, lo, hi, suf, fac = j[1:]

            def body():
                st = Cell(Stream())
                I.call_root("q_s" + kind, st, Cell(I.call_root(MAKE[kind], N)))
                return list(st.v.text)
            exp = [repr(N) if fac == 1 else "n/%d" % fac, suf]
            for o in explore(kind, lo, hi, body):
                yield ("count", "obligations printed value ranges", 1)
                got = [repr(x) if isinstance(x, Sym) else str(x) for x in o.v] if o.kind == "ok" else [str(o)]
                if [x for x in got if x] != [x for x in exp if x]:
                    yield ("violation", dict(rule="a quantity is printed with the largest unit not exceeding it", where=sess.target("q_s" + kind),
                                             instance="%s in [%d, %d]" % (KINDS[kind][0], dom.lo, dom.hi), detail="prints %s, expected %s%s" % ("".join(got), exp[0], exp[1])))
                    return
        elif j[0] == "acc":
            kind, q, fac = j[1:]
            for o in explore(kind, 0, KINDS[kind][4], lambda: val(I.call_root("q_" + q, Cell(I.call_root(MAKE[kind], N))))):
                yield ("count", "obligations unit accessors", 1)
                if not (o.kind == "ok" and isinstance(o.v, Sym) and o.v == Sym.atom("n/%d" % fac)):
                    yield ("violation", dict(rule="unit accessors return value / factor", where=sess.target("q_" + q), instance="%s of %s" % (q[2:], KINDS[kind][0]),
                                             detail="gives %r, expected n/%d" % (o.v if o.kind == "ok" else o, fac)))
        else:
            kind, q = j[1:]
            for c in (5, 9):
                for o in explore(kind, 0, 20, lambda: (val(I.call_root("q_%s%s" % (kind[0], q), Cell(I.call_root(MAKE[kind], N)), Cell(I.call_root(MAKE[kind], c)))), dom.lo, dom.hi)):
                    yield ("count", "obligations comparisons", 1)
                    ok = o.kind == "ok"
                    if ok:
                        r, lo, hi = o.v
                        ok = (lo == hi == c if q == "eq" else hi < c) if r else ((hi < c or lo > c) if q == "eq" else lo >= c)
                    if not ok:
                        yield ("violation", dict(rule="equality and order are those of the value", where=sess.target("q_%s%s" % (kind[0], q)), instance="%s %s" % (KINDS[kind][0], q), detail=repr(o)))

    jobs = []
    for kind, (name, table, prt, lo, hi) in KINDS.items():
        t = dict(table)
        for s in sorted(set(letters + extra)):
            f = t.get(s)
            if f is None:
                jobs.append(("parse", kind, NUM + s, None, 0, 2 ** 62))
                continue
            jobs.append(("parse", kind, NUM + s, f, -((-lo) // f), hi // f))
            if f > 1:      # the product exceeds the range of the quantity
                jobs.append(("parse", kind, NUM + s, None, hi // f + 1, hi))
                if lo < 0:
                    jobs.append(("parse", kind, NUM + s, None, lo, -((-lo) // f) - 1))
        for s in ("", "K", "s", "x" + NUM, NUM + NUM, "-", NUM + "K" + NUM):
            jobs.append(("parse", kind, s, None, 0, 2 ** 62))
        b = [f for _, f in prt[1:]] + [hi + 1]
        jobs.append(("print", kind, lo, b[0] - 1) + prt[0])
        for i in range(1, len(prt)):
            jobs.append(("print", kind, b[i - 1], b[i] - 1) + prt[i])
    jobs += [("acc",) + a for a in ACC]
    jobs += [("cmp", k, q) for k in ("bin", "met") for q in ("eq", "lt")]
    pmap(chk, sess, jobs, work, procs=4)
    chk.require("obligations parsed texts", 100)
    chk.require("obligations printed value ranges", 20)
    chk.require("obligations unit accessors", 17)
    chk.require("obligations comparisons", 8)
