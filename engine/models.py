"""Native models of library functions (standard library, gmp) used by the interpreter."""
import re
from fractions import Fraction
from interp import (Cell, Struct, Arr, Ptr, FnRef, Native, Unsupported, AssertFail, CppThrow, UNINIT,
                    val, copyval)

_strip_cache = {}


def strip_targs(s):
    r = _strip_cache.get(s)
    if r is None:
        out, d = [], 0
        for ch in s:
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
            elif d == 0:
                out.append(ch)
        r = _strip_cache[s] = "".join(out)
    return r


def fkey(fn):
    k = fn.get("_key")
    if k is None:
        name = fn["name"]
        q = fn["qn"]
        if fn.get("ctor"):
            rec = fn.get("_recname")
            k = strip_targs(q)
        elif q.endswith(name):
            k = strip_targs(q[:-len(name)]) + name
        else:
            k = strip_targs(q)
        k = re.sub(r"\bstd::(__cxx11|__1|_V2|__detail|__debug)::", "std::", k)
        fn["_key"] = k
    return k


# --- native objects -------------------------------------------------------
class Str(Native):
    fits = ('std::basic_string', 'std::string')

    def __init__(self, s):
        self.s = s

    def copy(self):
        return Str(self.s)

    def __repr__(self):
        return "Str(%r)" % self.s


class Vec(Native):
    """std::vector / list / deque / array / initializer_list with known length"""
    fits = ('std::vector', 'std::list', 'std::deque', 'std::initializer_list', 'std::forward_list', 'std::array', 'std::set', 'std::map', 'std::multiset', 'std::multimap', 'std::unordered_set', 'std::unordered_map', 'std::stack', 'std::queue', 'std::priority_queue')

    def __init__(self, cells=None):
        self.cells = cells if cells is not None else []

    def copy(self):
        return Vec([Cell(copyval(c.v)) for c in self.cells])

    def iter_cells(self):
        return list(self.cells)

    def __repr__(self):
        return "Vec%r" % ([c.v for c in self.cells],)


class VecIt(Native):
    def __init__(self, vec, i, rev=False):
        self.vec = vec
        self.i = i
        self.rev = rev

    def copy(self):
        return VecIt(self.vec, self.i, self.rev)

    def cell(self):
        if not 0 <= self.i < len(self.vec.cells):
            raise AssertFail("dereference of an end/invalid iterator")
        return self.vec.cells[self.i if not self.rev else len(self.vec.cells) - 1 - self.i]


class Pair(Native):
    fits = ('std::pair',)

    def __init__(self, a, b):
        self.first = a if type(a) is Cell else Cell(a)
        self.second = b if type(b) is Cell else Cell(b)

    def copy(self):
        return Pair(copyval(self.first.v), copyval(self.second.v))

    def member(self, n):
        return self.first if n == "first" else self.second

    def __repr__(self):
        return "(%r, %r)" % (self.first.v, self.second.v)


class Tup(Native):
    fits = ('std::tuple',)

    def __init__(self, cells, refs=None):
        self.cells = cells
        self.refs = refs or [False] * len(cells)

    def copy(self):
        return Tup([c if r else Cell(copyval(c.v)) for c, r in zip(self.cells, self.refs)], list(self.refs))

    def __repr__(self):
        return "Tup%r" % ([c.v for c in self.cells],)


class Opt(Native):
    fits = ('std::optional',)

    def __init__(self, c=None):
        self.c = c

    def copy(self):
        return Opt(Cell(copyval(self.c.v)) if self.c is not None else None)

    def cell(self):
        if self.c is None:
            raise AssertFail("access to empty optional")
        return self.c

    def __repr__(self):
        return "Opt(%r)" % (self.c.v if self.c else None,)


class Smart(Native):
    """unique_ptr / shared_ptr"""
    fits = ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr', 'std::__shared_ptr')

    def __init__(self, p=None):
        self.p = p

    def copy(self):
        return Smart(self.p)

    def __eq__(self, o):
        return isinstance(o, Smart) and o.p == self.p

    def __hash__(self):
        return hash(self.p)

    def cell(self):
        if self.p is None:
            raise AssertFail("dereference of a null pointer")
        return self.p.cell()


class Stream(Native):
    def __init__(self):
        self.text = []

    def copy(self):
        return self

    def put(self, x):
        self.text.append(x)


class Opaque(Native):
    def __init__(self, name):
        self.name = name

    def copy(self):
        return Opaque(self.name)

    def __repr__(self):
        return "<%s>" % self.name


# --------------------------------------------------------------------------
class Models:
    def __init__(self):
        self.table = {}
        self.element = Vec(), 0
        self.patterns = []
        self.register()
        self.ptr_ids = {}
        import algos
        algos.register(self)

    def string_literal(self, s):
        return Str(s)

    def init_list(self, I, v):
        if isinstance(v, Arr):
            return Vec([Cell(c.v) for c in v.cells])
        if isinstance(v, Vec):
            return v
        raise Unsupported("initializer list")

    def global_var(self, I, n):
        q = n.get("qn", "")
        if q in ("std::cout", "std::cerr", "std::clog"):
            return Stream()
        if q.startswith("std::") and n["name"] in ("ignore", "nullopt", "piecewise_construct", "in_place"):
            return Opaque(q)
        if n["name"] == "npos":
            return (1 << 64) - 1
        if q.startswith("std::placeholders"):
            return Opaque(q)
        return None

    def mutable_global_ok(self, I, v):
        return True

    def record_default(self, I, rec):
        n = rec["name"]
        if n.startswith("__gmp_expr"):
            return Fraction(0)
        return None

    def opaque_record(self, I, rec):
        n = rec.get("_base")
        if n is None:
            n = rec["_base"] = re.sub(r"\bstd::(__cxx11|__1|_V2|__detail|__debug)::", "std::", strip_targs(rec["name"]))
        if n in ("std::vector", "std::list", "std::deque", "std::initializer_list", "std::forward_list"):
            return Vec()
        if n == "std::array":
            return Vec([Cell(I.default_value(rec["targs"][0], True)) for _ in range(int(rec["targs"][1][1:]))])
        if n == "std::pair":
            return Pair(I.default_value(rec["targs"][0], True) if not I.is_ref(rec["targs"][0]) else UNINIT,
                        I.default_value(rec["targs"][1], True) if not I.is_ref(rec["targs"][1]) else UNINIT)
        if n == "std::tuple":
            ts = rec["targs"][0] if rec.get("targs") and isinstance(rec["targs"][0], list) else rec.get("targs", [])
            return Tup([Cell(UNINIT if I.is_ref(t) else I.default_value(t, True)) for t in ts], [I.is_ref(t) for t in ts])
        if n == "std::optional":
            return Opt()
        if n in ("std::basic_string", "std::string"):
            return Str("")
        if n in ("std::unique_ptr", "std::shared_ptr", "std::weak_ptr", "std::__shared_ptr"):
            return Smart()
        if n.startswith("std::basic_") and "stream" in n:
            return Stream()
        return Opaque(n)

    def on_delete(self, I, p):
        pass

    def native_truth(self, I, v):
        """branch on a natively modelled value"""
        return I.dom.truth(v)

    def native_scalar(self, I, v):
        """arithmetic use of a natively modelled value"""
        return v

    def ptr_int(self, I, v, ck):
        raise Unsupported("pointer/integer conversion")

    def ptr_less(self, I, op, x, y):
        raise Unsupported("pointer ordering")

    def catch_matches(self, I, hname, tname):
        return hname == tname or hname in ("std::exception",) and tname.startswith("std::")

    # ---- lookup
    def lookup(self, I, fn):
        k = fkey(fn)
        if k.startswith("std::") and "body" in fn and not fn["file"].startswith("/usr"):
            return None          # specialisation written in the repository
        m = self.table.get(k)
        if m is not None:
            return m
        f = fn["file"]
        if "gmpxx" in f and f.startswith("/usr") and (fn.get("op") or "rec" not in fn):
            m = self.gmp_free(fn)
            if m is not None:
                return m
        if k.startswith("__gmp_expr::"):
            m = self.gmp_method(I, fn)
            if m is not None:
                return m
        for rx, m in self.patterns:
            if rx.search(k):
                return m
        if fn.get("stopped") or "body" not in fn:
            sp = fn.get("special")
            if sp == "dtor":
                return lambda I, fn, this, a: None
            rec = I.p.recs.get(fn.get("rec"))
            if rec is not None and rec.get("opaque"):
                if sp == "defctor":
                    return lambda I, fn, this, a: None
                if sp in ("copyctor", "movector"):
                    def cp(I, fn, this, a):
                        this.v = copyval(a[0].v)
                    return cp
                if sp in ("copyassign", "moveassign"):
                    def asg(I, fn, this, a):
                        this.v = copyval(a[0].v)
                        return this
                    return asg
        return None

    def add(self, names, f):
        for n in names.split():
            self.table[n] = f

    def pat(self, rx, f):
        self.patterns.append((re.compile(rx), f))

    # ---- gmp
    def gmp_free(self, fn):
        op = fn.get("op")
        name = fn["name"]
        np = len(fn["params"])
        if op in ("+", "-", "*", "/") and np == 2:
            def f(I, fn, this, a):
                x, y = val(a[0]), val(a[1])
                isz = all("mpz" in I.strip(p["t"])["name"] or I.strip(p["t"])["c"] == "int" for p in fn["params"])
                if op == "+": return I.dom.add(x, y)
                if op == "-": return I.dom.sub(x, y)
                if op == "*": return I.dom.mul(x, y)
                if isz: return I.dom.tdiv_q(x, y)
                return I.dom.fdiv(x, y)
            return f
        if op == "%" and np == 2:
            return lambda I, fn, this, a: I.dom.tdiv_r(val(a[0]), val(a[1]))
        if op == "-" and np == 1:
            return lambda I, fn, this, a: I.dom.neg(val(a[0]))
        if op == "+" and np == 1:
            return lambda I, fn, this, a: val(a[0])
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return lambda I, fn, this, a: I.dom.cmp_op(op, val(a[0]), val(a[1]))
        if name == "abs":
            return lambda I, fn, this, a: I.dom.absval(val(a[0]))
        if name == "sgn":
            return lambda I, fn, this, a: I.dom.cmp(val(a[0]), Fraction(0))
        if name == "cmp":
            return lambda I, fn, this, a: I.dom.cmp(val(a[0]), val(a[1]))
        if name in ("floor", "ceil", "trunc"):
            return lambda I, fn, this, a: getattr(I.dom, name)(val(a[0]))
        if name == "swap":
            def sw(I, fn, this, a):
                a[0].v, a[1].v = a[1].v, a[0].v
            return sw
        if op in ("<<", ">>"):
            def sh(I, fn, this, a):
                x = val(a[0])
                if isinstance(x, Stream):
                    return a[0]
                return I.dom.shift(x, val(a[1]), op)
            return sh
        if name in ("gcd", "lcm", "sqrt"):
            return lambda I, fn, this, a: I.dom.func(name, [val(x) for x in a])
        return None

    def gmp_method(self, I, fn):
        name = fn["name"]
        isz = "mpq" not in fn["qn"]
        if fn.get("ctor"):
            np = len(fn["params"])

            def ctor(I, fn, this, a):
                if not a:
                    this.v = Fraction(0)
                    return
                if len(a) == 2:
                    x = val(a[0])
                    if isinstance(x, Str):
                        raise Unsupported("number from string")
                    this.v = I.dom.fdiv(x, val(a[1]))
                    return
                x = val(a[0])
                if isinstance(x, Str):
                    try:
                        this.v = Fraction(x.s)
                    except ValueError:
                        raise Unsupported("number from string %r" % x.s)
                    return
                x = I.dom.num(x) if not isinstance(x, Ptr) else I.dom.num(x.cell().v)
                if isz:
                    pt = I.strip(fn["params"][0]["t"])
                    if "mpq" in pt["name"] or pt["c"] == "float":
                        x = I.dom.trunc(x)
                this.v = x
            return ctor
        op = fn.get("op")
        if op == "=":
            def asg(I, fn, this, a):
                x = I.dom.num(val(a[0]))
                if isz:
                    pt = I.strip(fn["params"][0]["t"])
                    if "mpq" in pt["name"] or pt["c"] == "float":
                        x = I.dom.trunc(x)
                this.v = x
                return this
            return asg
        if op in ("+=", "-=", "*=", "/=", "%="):
            def cas(I, fn, this, a):
                y = val(a[0])
                if op == "+=": this.v = I.dom.add(this.v, y)
                elif op == "-=": this.v = I.dom.sub(this.v, y)
                elif op == "*=": this.v = I.dom.mul(this.v, y)
                elif op == "/=": this.v = I.dom.tdiv_q(this.v, y) if isz else I.dom.fdiv(this.v, y)
                else: this.v = I.dom.tdiv_r(this.v, y)
                return this
            return cas
        if op in ("<<=", ">>="):
            def shas(I, fn, this, a):
                this.v = I.dom.shift(this.v, val(a[0]), op[:2])
                return this
            return shas
        if op in ("++", "--"):
            def inc(I, fn, this, a):
                old = this.v
                this.v = I.dom.add(this.v, Fraction(1 if op == "++" else -1))
                return old if fn["params"] else this
            return inc
        if name in ("get_mpq_t", "get_mpz_t", "__get_mp"):
            return lambda I, fn, this, a: Ptr(this)
        if name == "get_num":
            return lambda I, fn, this, a: I.dom.numer(this.v)
        if name == "get_den":
            return lambda I, fn, this, a: I.dom.denom(this.v)
        if name == "get_num_mpz_t":
            return lambda I, fn, this, a: Ptr(Cell(I.dom.numer(this.v)))
        if name == "get_den_mpz_t":
            return lambda I, fn, this, a: Ptr(Cell(I.dom.denom(this.v)))
        if name == "canonicalize":
            return lambda I, fn, this, a: None
        if name in ("get_d",):
            return lambda I, fn, this, a: I.dom.to_double(this.v)
        if name in ("get_si", "get_ui"):
            return lambda I, fn, this, a: I.dom.to_int(this.v)
        if name.startswith("fits_"):
            return lambda I, fn, this, a: I.dom.fits(this.v, name)
        if name == "get_str":
            return lambda I, fn, this, a: Str("?")
        if name == "swap":
            def sw(I, fn, this, a):
                this.v, a[0].v = a[0].v, this.v
            return sw
        if name == "operator bool":
            return lambda I, fn, this, a: I.dom.cmp(this.v, Fraction(0)) != 0
        return None

    # ---- standard library
    def register(self):
        A, P = self.add, self.pat
        ident = lambda I, fn, this, a: a[0]
        A("std::move std::forward std::as_const std::addressof_ std::move_if_noexcept", ident)
        A("std::addressof std::__addressof", lambda I, fn, this, a: Ptr(a[0]))

        def swap(I, fn, this, a):
            x, y = a[0], a[1]
            xv, yv = x.v, y.v
            if isinstance(xv, Struct) and isinstance(yv, Struct):
                nx, ny = copyval(yv), copyval(xv)
                for k in list(xv.f):
                    xv.f[k].v = nx.f[k].v
                    yv.f[k].v = ny.f[k].v
            else:
                x.v, y.v = yv, xv
        A("std::swap", swap)

        def minmax(pick):
            def f(I, fn, this, a):
                if len(a) == 1:
                    cells = val(a[0]).iter_cells()
                    best = cells[0]
                    for c in cells[1:]:
                        if pick == "min" and I.less(c, best) or pick == "max" and I.less(best, c):
                            best = c
                    return best
                if len(a) == 3:
                    if pick == "min":
                        return a[1] if I.truth(I.call_value(a[2], [a[1], a[0]])) else a[0]
                    return a[1] if I.truth(I.call_value(a[2], [a[0], a[1]])) else a[0]
                if pick == "min":
                    return a[1] if I.less(a[1], a[0]) else a[0]
                return a[1] if I.less(a[0], a[1]) else a[0]
            return f
        A("std::min", minmax("min"))
        A("std::max", minmax("max"))

        def minmax2(I, fn, this, a):
            if I.less(a[1], a[0]):
                return Pair(Cell(a[1].v), Cell(a[0].v))
            return Pair(Cell(a[0].v), Cell(a[1].v))
        A("std::minmax", minmax2)

        def clamp(I, fn, this, a):
            if I.less(a[0], a[1]): return a[1]
            if I.less(a[2], a[0]): return a[2]
            return a[0]
        A("std::clamp", clamp)

        def exchange(I, fn, this, a):
            old = copyval(a[0].v)
            a[0].v = copyval(val(a[1]))
            return old
        A("std::exchange", exchange)

        # gmp C interface: results are stored through the first argument
        def store(f):
            def g(I, fn, this, a):
                val(a[0]).cell().v = f(I, *[x.cell().v if isinstance(x, Ptr) else x for x in map(val, a[1:])])
            return g
        A("__gmpq_mul __gmpz_mul __gmpz_mul_si __gmpz_mul_ui", store(lambda I, x, y: I.dom.mul(x, y)))
        A("__gmpq_add __gmpz_add __gmpz_add_ui", store(lambda I, x, y: I.dom.add(x, y)))
        A("__gmpq_sub __gmpz_sub __gmpz_sub_ui", store(lambda I, x, y: I.dom.sub(x, y)))
        A("__gmpq_div", store(lambda I, x, y: I.dom.fdiv(x, y)))
        A("__gmpq_inv", store(lambda I, x: I.dom.fdiv(Fraction(1), x)))
        A("__gmpq_neg __gmpz_neg", store(lambda I, x: I.dom.neg(x)))
        A("__gmpq_abs __gmpz_abs", store(lambda I, x: I.dom.absval(x)))
        A("__gmpq_set __gmpz_set __gmpq_set_z", store(lambda I, x: x))
        A("__gmpz_set_si __gmpz_set_ui", store(lambda I, x: I.dom.num(x)))

        def power(I, x, n):
            r = Fraction(1)
            for _ in range(n):
                r = I.dom.mul(r, x)
            return r
        A("__gmpz_pow_ui", store(power))
        for f in ("fdiv_q", "fdiv_r", "tdiv_q", "tdiv_r", "cdiv_q", "cdiv_r", "mod", "gcd", "lcm", "divexact"):
            A("__gmpz_" + f, store(lambda I, x, y, f=f: I.dom.func(f, [x, y])))

        def store2(f, g):
            def h(I, fn, this, a):
                x, y = (v.cell().v if isinstance(v, Ptr) else v for v in map(val, a[2:]))
                q, r = I.dom.func(f, [x, y]), I.dom.func(g, [x, y])
                val(a[0]).cell().v, val(a[1]).cell().v = q, r
            return h
        A("__gmpz_fdiv_qr", store2("fdiv_q", "fdiv_r"))
        A("__gmpz_tdiv_qr", store2("tdiv_q", "tdiv_r"))

        def divisible(I, fn, this, a):
            x, y = (v.cell().v if isinstance(v, Ptr) else v for v in map(val, a))
            if I.dom.cmp_op("==", y, Fraction(0)):
                return int(I.dom.cmp_op("==", x, Fraction(0)))
            return int(I.dom.is_int(I.dom.fdiv(x, y)))
        A("__gmpz_divisible_p", divisible)

        # number-ish
        A("std::abs std::fabs abs fabs", lambda I, fn, this, a: I.dom.absval(val(a[0])))
        A("std::isnan std::isinf isnan isinf", lambda I, fn, this, a: I.dom.is_special(val(a[0])))
        A("std::floor floor", lambda I, fn, this, a: I.dom.floor(val(a[0])))
        A("std::ceil ceil", lambda I, fn, this, a: I.dom.ceil(val(a[0])))
        A("std::trunc trunc", lambda I, fn, this, a: I.dom.trunc(val(a[0])))
        P(r"^std::numeric_limits::(infinity|max|min|lowest|quiet_NaN|epsilon)$", self.numlimits)

        # pair / tuple
        def mkpair(I, fn, this, a):
            return Pair(copyval(val(a[0])), copyval(val(a[1])))
        A("std::make_pair", mkpair)

        def pairctor(I, fn, this, a):
            rec = I.p.recs[fn["rec"]]
            refs = [I.is_ref(t) for t in rec["targs"][:2]]
            if len(a) == 2 and not (isinstance(val(a[0]), Opaque)):
                mk = [(a[i] if type(a[i]) is Cell else Cell(a[i])) if refs[i] else Cell(I.coerce(copyval(val(a[i])), rec["targs"][i])) for i in (0, 1)]
                this.v = Pair(mk[0], mk[1])
            elif len(a) == 1:
                o = val(a[0])
                this.v = Pair(Cell(I.coerce(copyval(o.first.v), rec["targs"][0])), Cell(I.coerce(copyval(o.second.v), rec["targs"][1])))
            elif len(a) == 0:
                pass
            else:
                raise Unsupported("pair constructor")
        A("std::pair::pair", pairctor)

        def pairassign(I, fn, this, a):
            o = val(a[0])
            f, s = (o.first.v, o.second.v) if isinstance(o, Pair) else (o.cells[0].v, o.cells[1].v)
            this.v.first.v, this.v.second.v = copyval(f), copyval(s)
            return this
        A("std::pair::operator=", pairassign)

        def tie(I, fn, this, a):
            return Tup([x if type(x) is Cell else Cell(x) for x in a], [True] * len(a))
        A("std::tie std::forward_as_tuple", tie)
        A("std::make_tuple", lambda I, fn, this, a: Tup([Cell(copyval(val(x))) for x in a]))

        def tupctor(I, fn, this, a):
            d = this.v
            if len(a) == len(d.cells) and not (len(a) == 1 and isinstance(val(a[0]), Tup) and not isinstance(d.cells[0].v, Tup)):
                rec = I.p.recs[fn["rec"]]
                ts = rec["targs"][0] if isinstance(rec["targs"][0], list) else rec["targs"]
                this.v = Tup([(x if type(x) is Cell else Cell(x)) if r else Cell(I.coerce(copyval(val(x)), t))
                              for x, r, t in zip(a, d.refs, ts)], list(d.refs))
            elif len(a) == 1:
                o = val(a[0])
                cells = o.cells if isinstance(o, Tup) else [o.first, o.second]
                this.v = Tup([c if r else Cell(copyval(c.v)) for c, r in zip(cells, d.refs)], list(d.refs))
            elif a:
                raise Unsupported("tuple constructor")
        A("std::tuple::tuple", tupctor)

        def tupassign(I, fn, this, a):
            o = val(a[0])
            cells = o.cells if isinstance(o, Tup) else [o.first, o.second]
            vs = [copyval(c.v) for c in cells]
            for c, v in zip(this.v.cells, vs):
                I.assign(c, v)
            return this
        A("std::tuple::operator=", tupassign)

        def get(I, fn, this, a):
            o = val(a[0])
            i = fn["targs"][0]
            if isinstance(i, str):
                i = int(i[1:])
                if isinstance(o, Pair):
                    return o.first if i == 0 else o.second
                if isinstance(o, (Tup, Vec)):
                    return o.cells[i]
                if hasattr(o, "get_index"):
                    return o.get_index(I, i)
            elif hasattr(o, "get_type"):
                return o.get_type(I, i)
            raise Unsupported("std::get on %r" % (o,))
        A("std::get", get)

        # comparisons of pairs/tuples/vectors/optionals/strings: generic lexicographic
        def seq(o):
            if isinstance(o, Pair): return [o.first, o.second]
            if isinstance(o, (Tup, Vec)): return o.cells
            return None

        def eq(I, fn, this, a):
            x, y = (val(a[0]), val(a[1])) if this is None else (this.v, val(a[0]))
            return I.equal(Cell(x), Cell(y))

        def ne(I, fn, this, a):
            return not eq(I, fn, this, a)

        def lt(I, fn, this, a):
            return I.less(a[0] if type(a[0]) is Cell else Cell(a[0]), a[1] if type(a[1]) is Cell else Cell(a[1]))

        def gt(I, fn, this, a):
            return I.less(a[1] if type(a[1]) is Cell else Cell(a[1]), a[0] if type(a[0]) is Cell else Cell(a[0]))
        A("std::operator==", eq)
        A("std::operator!=", ne)
        A("std::operator<", lt)
        A("std::operator>", gt)
        A("std::operator<=", lambda I, fn, this, a: not gt(I, fn, this, a))
        A("std::operator>=", lambda I, fn, this, a: not lt(I, fn, this, a))

        def functor(cmp):
            def f(I, fn, this, a):
                x, y = [z if type(z) is Cell else Cell(z) for z in a[:2]]
                if cmp == "<": return I.less(x, y)
                if cmp == ">": return I.less(y, x)
                if cmp == "==": return I.equal(x, y)
                if cmp == "!=": return not I.equal(x, y)
                if cmp == "<=": return not I.less(y, x)
                if cmp == ">=": return not I.less(x, y)
            return f
        for n, c in (("less", "<"), ("greater", ">"), ("equal_to", "=="), ("not_equal_to", "!="), ("less_equal", "<="), ("greater_equal", ">=")):
            A("std::%s::operator()" % n, functor(c))

        # optional
        def optctor(I, fn, this, a):
            if not a or isinstance(val(a[0]), Opaque):
                this.v = Opt()
            elif isinstance(val(a[0]), Opt):
                this.v = val(a[0]).copy()
            else:
                rec = I.p.recs[fn["rec"]]
                this.v = Opt(Cell(I.coerce(copyval(val(a[0])), rec["targs"][0])))
        A("std::optional::optional", optctor)

        def optassign(I, fn, this, a):
            v = val(a[0])
            if isinstance(v, Opaque): this.v = Opt()
            elif isinstance(v, Opt): this.v = v.copy()
            else:
                rec = I.p.recs[fn["rec"]]
                this.v = Opt(Cell(I.coerce(copyval(v), rec["targs"][0])))
            return this
        A("std::optional::operator=", optassign)
        A("std::optional::operator* std::optional::value", lambda I, fn, this, a: this.v.cell())
        A("std::optional::operator->", lambda I, fn, this, a: Ptr(this.v.cell()))
        A("std::optional::has_value std::optional::operator_bool", lambda I, fn, this, a: this.v.c is not None)
        self.table["std::optional::operator bool"] = lambda I, fn, this, a: this.v.c is not None
        A("std::make_optional", lambda I, fn, this, a: Opt(Cell(copyval(val(a[0])))))

        def optreset(I, fn, this, a):
            this.v = Opt()
        A("std::optional::reset", optreset)
        A("std::optional::value_or", lambda I, fn, this, a: copyval(this.v.c.v) if this.v.c is not None else copyval(val(a[0])))

        # streams
        def put(st, x):
            x = val(x)
            st = val(st)
            if isinstance(st, Stream):
                if isinstance(x, Str):
                    st.put(x.s)
                elif isinstance(x, Ptr) and isinstance(getattr(x, "s", None), str):
                    st.put(x.s)
                elif isinstance(x, FnRef) or isinstance(x, Opaque) and x.name == "manip":
                    pass
                elif isinstance(x, (int, str)) and not isinstance(x, bool):
                    st.put(str(x))
                else:
                    st.put(repr(x))

        def ins(I, fn, this, a):
            put(a[0], a[1])
            return a[0]

        def stream_m(I, fn, this, a):
            if fn.get("ctor"):
                if a and isinstance(val(a[0]), Ptr) and isinstance(val(a[0].cell()), Stream):
                    this.v = val(a[0].cell())
                elif a and isinstance(val(a[0]), Str):
                    this.v = Stream()
                    this.v.put(val(a[0]).s)
                return None
            if fn["name"] == "rdbuf" and not a:
                return Ptr(Cell(val(this)))
            if fn["name"] == "str" and not a:
                return Str("".join(val(this).text))
            if fn["name"] == "operator<<" and a:
                put(this, a[0])
            return this
        A("std::operator<<", ins)
        P(r"^std::basic_(ostream|stringstream|ostringstream|istream|ios)::", stream_m)
        P(r"^std::(setw|setfill|setprecision|resetiosflags|setiosflags|left|right|internal|dec|hex|boolalpha|noboolalpha|fixed)$", lambda I, fn, this, a: a[0] if fn["name"] in ("left", "right", "internal", "dec", "hex", "boolalpha", "noboolalpha", "fixed") else Opaque("manip"))
        A("std::endl std::flush", ident)

        # smart pointers
        def mkuniq(I, fn, this, a):
            t = fn["targs"][0]
            ty = I.strip(t)
            if ty["c"] == "array":
                n = val(a[0])
                if type(n) is not int or n > 100000:
                    raise Unsupported("dynamic array")
                arr = Arr([Cell(I.default_value(ty["to"], True)) for _ in range(n)])
                for i, c in enumerate(arr.cells):
                    I.elements[id(c)] = (arr, i)
                return Smart(Ptr(arr, 0))
            return Smart(Ptr(Cell(I.construct(t, a))))
        A("std::make_unique std::make_shared", mkuniq)

        def smartctor(I, fn, this, a):
            if not a or a[0] is None:
                this.v = Smart()
                return
            v = val(a[0])
            if isinstance(v, Smart): this.v = Smart(v.p)
            elif v is None or isinstance(v, Ptr): this.v = Smart(v)
            else: raise Unsupported("smart pointer constructor")
        for s in ("unique_ptr", "shared_ptr", "weak_ptr"):
            A("std::%s::%s" % (s, s), smartctor)

            def sassign(I, fn, this, a):
                v = val(a[0])
                this.v = Smart(v.p if isinstance(v, Smart) else v)
                return this
            A("std::%s::operator=" % s, sassign)
        for s in ("unique_ptr", "shared_ptr", "weak_ptr", "__shared_ptr", "__shared_ptr_access"):
            A("std::%s::operator*" % s, lambda I, fn, this, a: this.v.cell())
            A("std::%s::operator->" % s, lambda I, fn, this, a: this.v.p)
            A("std::%s::operator[]" % s, lambda I, fn, this, a: Ptr(this.v.p.base, this.v.p.idx + val(a[0])).cell())
            A("std::%s::get" % s, lambda I, fn, this, a: this.v.p)
            self.table["std::%s::operator bool" % s] = lambda I, fn, this, a: this.v.p is not None
            A("std::%s::lock" % s, lambda I, fn, this, a: Smart(this.v.p))

            def sreset(I, fn, this, a):
                this.v = Smart(val(a[0]) if a else None)
            A("std::%s::reset" % s, sreset)

            def srelease(I, fn, this, a):
                p = this.v.p
                this.v = Smart()
                return p
            A("std::%s::release" % s, srelease)

        # vectors of known length
        self.register_vec()
        self.register_str()

        # locks
        P(r"^std::(lock_guard|unique_lock|scoped_lock)::", lambda I, fn, this, a: None)
        P(r"^std::(recursive_)?mutex::", lambda I, fn, this, a: None)

    def numlimits(self, I, fn, this, a):
        ty = I.strip(fn["ret"])
        if ty["c"] == "int":
            b, s = ty["bits"], ty["signed"]
            if fn["name"] == "max": return (1 << (b - (1 if s else 0))) - 1
            if fn["name"] in ("min", "lowest"): return -(1 << (b - 1)) if s else 0
        raise Unsupported("numeric_limits::%s" % fn["name"])

    def register_str(self):
        A = self.add
        NPOS = (1 << 64) - 1
        # strings of known characters

        def text(x):
            x = val(x)
            if isinstance(x, Str):
                return x.s
            if type(x) is int:
                return chr(x % 256)
            raise Unsupported("text of %r" % (x,))

        def num(x, d=NPOS):
            if x is None:
                return d
            x = val(x)
            if type(x) is not int:
                raise Unsupported("string position %r" % (x,))
            return x

        def sctor(I, fn, this, a):
            a = [x for x in a if not isinstance(val(x), Opaque)]
            if not a:
                this.v = Str("")
            elif isinstance(val(a[0]), Str):
                t = text(a[0])
                if len(a) > 1:
                    k = [I.strip(p["t"])["c"] for p in fn["params"]]
                    if k[0] == "ptr":
                        t = t[:num(a[1])]
                    else:
                        if num(a[1]) > len(t):
                            raise CppThrow(None, "std::out_of_range")
                        t = t[num(a[1]):]
                        if len(a) > 2:
                            t = t[:num(a[2])]
                this.v = Str(t)
            elif len(a) == 2 and type(val(a[0])) is int:
                if num(a[0]) > 100000:
                    raise Unsupported("string of length %d" % num(a[0]))
                this.v = Str(text(a[1]) * num(a[0]))
            else:
                raise Unsupported("string constructor")
        A("std::basic_string::basic_string std::basic_string_view::basic_string_view", sctor)

        def each(names, f):
            for n in names.split():
                self.table["std::basic_string::" + n] = f
                self.table["std::basic_string_view::" + n] = f
        each("c_str data", lambda I, fn, this, a: this.v)
        each("size length", lambda I, fn, this, a: len(this.v.s))
        each("empty", lambda I, fn, this, a: len(this.v.s) == 0)

        def sassign(I, fn, this, a):
            this.v = Str(text(a[0]))
            return this
        each("operator= assign", sassign)

        def sappend(I, fn, this, a):
            if len(a) == 2 and type(val(a[0])) is int:
                this.v = Str(this.v.s + text(a[1]) * num(a[0]))
            elif len(a) == 1:
                this.v = Str(this.v.s + text(a[0]))
            else:
                raise Unsupported("string append")
            return this
        each("operator+= append push_back", sappend)

        def splus(I, fn, this, a):
            return Str(text(a[0]) + text(a[1]))
        A("std::operator+", splus)

        def sfind(how):
            def f(I, fn, this, a):
                s, x = this.v.s, text(a[0])
                if how == "find":
                    r = s.find(x, num(a[1], 0) if len(a) > 1 else 0)
                elif how == "rfind":
                    p = num(a[1]) if len(a) > 1 else NPOS
                    r = s.rfind(x, 0, min(p, len(s)) + len(x))
                else:
                    idx = range(len(s)) if "first" in how else range(len(s) - 1, -1, -1)
                    p = num(a[1]) if len(a) > 1 else (0 if "first" in how else NPOS)
                    idx = [i for i in idx if (i >= p if "first" in how else i <= p)]
                    r = next((i for i in idx if (s[i] in x) != ("not" in how)), -1)
                return NPOS if r < 0 else r
            return f
        for n in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
            each(n, sfind(n))

        def ssub(I, fn, this, a):
            p = num(a[0]) if a else 0
            if p > len(this.v.s):
                raise CppThrow(None, "std::out_of_range")
            n = num(a[1]) if len(a) > 1 else NPOS
            return Str(this.v.s[p:p + n])
        each("substr", ssub)

        def serase(I, fn, this, a):
            p = num(a[0]) if a else 0
            n = num(a[1]) if len(a) > 1 else NPOS
            if p > len(this.v.s):
                raise CppThrow(None, "std::out_of_range")
            this.v = Str(this.v.s[:p] + this.v.s[p + n:])
            return this
        each("erase", serase)

        def sresize(I, fn, this, a):
            n = num(a[0])
            this.v = Str((this.v.s + (text(a[1]) if len(a) > 1 else chr(0)) * max(0, n - len(this.v.s)))[:n])
        each("resize", sresize)

        def sclear(I, fn, this, a):
            this.v = Str("")
        each("clear", sclear)

        def spop(I, fn, this, a):
            this.v = Str(this.v.s[:-1])
        each("pop_back", spop)

        def sremove(n_front):
            def f(I, fn, this, a):
                k = num(a[0])
                this.v = Str(this.v.s[k:] if n_front else this.v.s[:len(this.v.s) - k])
            return f
        each("remove_prefix", sremove(True))
        each("remove_suffix", sremove(False))

        def sat(I, fn, this, a):
            i = num(a[0])
            if i >= len(this.v.s):
                if i == len(this.v.s) and fn["name"] != "at":
                    return Cell(0)
                raise AssertFail("string index")
            return Cell(ord(this.v.s[i]))
        each("operator[] at", sat)
        each("back", lambda I, fn, this, a: Cell(ord(this.v.s[-1])))
        each("front", lambda I, fn, this, a: Cell(ord(this.v.s[0])))

        def scompare(I, fn, this, a):
            s = this.v.s
            if len(a) == 1:
                t = text(a[0])
            elif len(a) == 3:
                s, t = s[num(a[0]):num(a[0]) + num(a[1])], text(a[2])
            else:
                raise Unsupported("string compare")
            return (s > t) - (s < t)
        each("compare", scompare)
        each("starts_with", lambda I, fn, this, a: this.v.s.startswith(text(a[0])))
        each("ends_with", lambda I, fn, this, a: this.v.s.endswith(text(a[0])))
        self.table["std::basic_string::operator basic_string_view"] = lambda I, fn, this, a: this.v
        A("std::to_string", lambda I, fn, this, a: Str(str(num(a[0]))))
        A("std::stoi std::stol std::stoul std::stoll std::stoull", lambda I, fn, this, a: int(text(a[0])))

    def register_vec(self):
        A = self.add
        names = ("vector", "list", "deque", "array", "initializer_list", "forward_list")

        def cells(o):
            return o.cells

        def each(meth, f):
            for n in names:
                self.table["std::%s::%s" % (n, meth)] = f

        def element(I, fn, c):
            if isinstance(c.v, Struct):
                return Cell(I.construct(I.p.recs[fn["rec"]]["targs"][0], [c]))
            return Cell(copyval(c.v))

        def vctor(I, fn, this, a):
            if not a:
                return
            v0 = val(a[0])
            if isinstance(v0, Vec):
                this.v = v0.copy()
            elif isinstance(v0, VecIt) and len(a) >= 2:
                vec, i, j = v0.vec, v0.i, val(a[1]).i
                this.v = Vec([element(I, fn, VecIt(vec, k, v0.rev).cell()) for k in range(i, j)])
            elif type(v0) is int:
                if v0 > 100000:
                    raise AssertFail("container of size %d" % v0)
                rec = I.p.recs[fn["rec"]]
                t = rec["targs"][0]
                if len(a) >= 2 and not isinstance(val(a[1]), Opaque):
                    this.v = Vec([Cell(I.coerce(copyval(val(a[1])), t)) for _ in range(v0)])
                else:
                    this.v = Vec([Cell(I.construct(t, [])) for _ in range(v0)])
            elif isinstance(v0, Opaque):
                return
            else:
                raise Unsupported("vector constructor %r" % (v0,))
        for n in names:
            self.table["std::%s::%s" % (n, n)] = vctor

        def vassign(I, fn, this, a):
            this.v = val(a[0]).copy()
            return this
        each("operator=", vassign)
        each("size", lambda I, fn, this, a: len(this.v.cells))
        each("empty", lambda I, fn, this, a: len(this.v.cells) == 0)
        each("begin", lambda I, fn, this, a: VecIt(this.v, 0))
        each("cbegin", lambda I, fn, this, a: VecIt(this.v, 0))
        each("end", lambda I, fn, this, a: VecIt(this.v, len(this.v.cells)))
        each("cend", lambda I, fn, this, a: VecIt(this.v, len(this.v.cells)))
        each("rbegin", lambda I, fn, this, a: VecIt(this.v, 0, True))
        each("rend", lambda I, fn, this, a: VecIt(this.v, len(this.v.cells), True))
        each("crbegin", lambda I, fn, this, a: VecIt(this.v, 0, True))
        each("crend", lambda I, fn, this, a: VecIt(this.v, len(this.v.cells), True))
        each("reserve", lambda I, fn, this, a: None)
        each("shrink_to_fit", lambda I, fn, this, a: None)

        def at(I, fn, this, a):
            i = val(a[0])
            if type(i) is not int:
                raise Unsupported("abstract index")
            if not 0 <= i < len(this.v.cells):
                raise AssertFail("index %d out of range" % i)
            self.element = this.v, i
            return this.v.cells[i]
        each("operator[]", at)
        each("at", at)

        def memset(I, fn, this, a):
            # only clearing pointers of the container whose element address was just taken
            p, v, n = val(a[0]), val(a[1]), val(a[2])
            vec, i = self.element
            if not isinstance(p, Ptr) or i >= len(vec.cells) or vec.cells[i] is not p.cell() or v != 0 or n % 8:
                raise Unsupported("memset")
            if i + n // 8 > len(vec.cells):
                raise AssertFail("memset of %d bytes beyond the end" % n)
            for c in vec.cells[i:i + n // 8]:
                if c.v is not None and not isinstance(c.v, Ptr):
                    raise Unsupported("memset of %r" % (c.v,))
                c.v = None
            return p
        for n in ("memset", "std::memset"):
            self.table[n] = memset

        def assign(I, fn, this, a):
            vctor(I, fn, this, a)
        each("assign", assign)

        def front(I, fn, this, a):
            if not this.v.cells:
                raise AssertFail("front() of empty container")
            return this.v.cells[0]

        def back(I, fn, this, a):
            if not this.v.cells:
                raise AssertFail("back() of empty container")
            return this.v.cells[-1]
        each("front", front)
        each("back", back)

        def push(I, fn, this, a):
            this.v.cells.append(Cell(copyval(val(a[0]))))
        each("push_back", push)

        def push_front(I, fn, this, a):
            this.v.cells.insert(0, Cell(copyval(val(a[0]))))
        each("push_front", push_front)

        def emplace_back(I, fn, this, a):
            t = I.p.recs[fn["rec"]]["targs"][0]
            this.v.cells.append(Cell(I.construct(t, a)))
            return this.v.cells[-1]
        each("emplace_back", emplace_back)

        def pop(I, fn, this, a):
            if not this.v.cells:
                raise AssertFail("pop_back() of empty container")
            this.v.cells.pop()
        each("pop_back", pop)

        def clear(I, fn, this, a):
            this.v.cells.clear()
        each("clear", clear)

        def resize(I, fn, this, a):
            n = val(a[0])
            t = I.p.recs[fn["rec"]]["targs"][0]
            if n > 100000:
                raise AssertFail("resize(%d)" % n)
            del this.v.cells[n:]
            while len(this.v.cells) < n:
                this.v.cells.append(Cell(copyval(val(a[1])) if len(a) > 1 else I.construct(t, [])))
        each("resize", resize)

        def erase(I, fn, this, a):
            i = val(a[0]).i
            j = val(a[1]).i if len(a) > 1 else i + 1
            del this.v.cells[i:j]
            return VecIt(this.v, i)
        each("erase", erase)

        def insert(I, fn, this, a):
            i = val(a[0]).i
            x = val(a[1])
            if len(a) == 2 and not isinstance(x, Vec):
                this.v.cells.insert(i, Cell(copyval(x)))
            elif len(a) == 3 and isinstance(x, VecIt):
                j = val(a[2]).i
                new = [element(I, fn, VecIt(x.vec, k, x.rev).cell()) for k in range(x.i, j)]
                this.v.cells[i:i] = new
            else:
                raise Unsupported("vector insert")
            return VecIt(this.v, i)
        each("insert", insert)

        def emplace(I, fn, this, a):
            i = val(a[0]).i
            this.v.cells.insert(i, Cell(I.construct(I.p.recs[fn["rec"]]["targs"][0], a[1:])))
            return VecIt(this.v, i)
        each("emplace", emplace)

        def vswap(I, fn, this, a):
            this.v, a[0].v = a[0].v, this.v
        each("swap", vswap)

        # iterators
        itn = r"^__gnu_cxx::__normal_iterator::|^std::(_List_iterator|_List_const_iterator|reverse_iterator|_Deque_iterator|_Bit_iterator|_Bit_const_iterator)::"

        def it_method(I, fn, this, a):
            op = fn.get("op")
            if fn.get("ctor"):
                if a:
                    v = val(a[0])
                    if isinstance(v, VecIt):
                        if "reverse_iterator" in fkey(fn) and not v.rev:
                            this.v = VecIt(v.vec, len(v.vec.cells) - v.i, True)
                        else:
                            this.v = v.copy()
                        return
                    raise Unsupported("iterator ctor")
                return
            it = this.v
            if op == "*": return it.cell()
            if op == "->": return Ptr(it.cell())
            if op in ("++", "--"):
                d = 1 if op == "++" else -1
                old = it.copy()
                it.i += d
                return old if fn["params"] else this
            if op in ("+", "-"):
                o = val(a[0])
                if isinstance(o, VecIt):
                    return it.i - o.i
                return VecIt(it.vec, it.i + (o if op == "+" else -o), it.rev)
            if op in ("+=", "-="):
                o = val(a[0])
                it.i += o if op == "+=" else -o
                return this
            if op == "=":
                this.v = val(a[0]).copy()
                return this
            if op == "[]":
                return VecIt(it.vec, it.i + val(a[0]), it.rev).cell()
            if op == "==": return it.i == val(a[0]).i and it.vec is val(a[0]).vec
            if op == "!=": return not (it.i == val(a[0]).i and it.vec is val(a[0]).vec)
            if fn["name"] == "base":
                return it.copy() if not it.rev else VecIt(it.vec, len(it.vec.cells) - it.i)
            raise Unsupported("iterator %s" % fn["qn"])
        self.pat(itn, it_method)

        def it_free(I, fn, this, a):
            op = fn.get("op")
            x, y = val(a[0]), val(a[1])
            if op == "==": return x.i == y.i and x.vec is y.vec
            if op == "!=": return not (x.i == y.i and x.vec is y.vec)
            if op == "<": return x.i < y.i
            if op == ">": return x.i > y.i
            if op == "<=": return x.i <= y.i
            if op == ">=": return x.i >= y.i
            if op == "-": return x.i - y.i
            if op == "+":
                if isinstance(x, VecIt): return VecIt(x.vec, x.i + y, x.rev)
                return VecIt(y.vec, y.i + x, y.rev)
            raise Unsupported("iterator op")
        self.pat(r"^__gnu_cxx::operator", it_free)

        def rangefn(name):
            def f(I, fn, this, a):
                o = val(a[0])
                if isinstance(o, Arr):
                    o = Vec(o.cells)
                if not isinstance(o, Vec):
                    raise Unsupported("std::%s" % name)
                n = len(o.cells)
                if name in ("begin", "cbegin"): return VecIt(o, 0)
                if name in ("end", "cend"): return VecIt(o, n)
                if name == "rbegin": return VecIt(o, 0, True)
                return VecIt(o, n, True)
            return f
        for n in ("begin", "end", "cbegin", "cend", "rbegin", "rend"):
            A("std::" + n, rangefn(n))
        A("std::next", lambda I, fn, this, a: VecIt(val(a[0]).vec, val(a[0]).i + (val(a[1]) if len(a) > 1 else 1), val(a[0]).rev))
        A("std::prev", lambda I, fn, this, a: VecIt(val(a[0]).vec, val(a[0]).i - (val(a[1]) if len(a) > 1 else 1), val(a[0]).rev))
        A("std::distance", lambda I, fn, this, a: val(a[1]).i - val(a[0]).i)
        A("std::size", lambda I, fn, this, a: len(val(a[0]).cells))

        def cells_of(a):
            b, e = val(a[0]), val(a[1])
            return [VecIt(b.vec, k, b.rev).cell() for k in range(b.i, e.i)]

        def quant(kind):
            def f(I, fn, this, a):
                for c in cells_of(a):
                    t = I.truth(I.call_value(a[2], [c]))
                    if kind == "all" and not t: return False
                    if kind == "any" and t: return True
                    if kind == "none" and t: return False
                return kind != "any"
            return f
        A("std::all_of", quant("all"))
        A("std::any_of", quant("any"))
        A("std::none_of", quant("none"))

        def find_if(I, fn, this, a):
            b, e = val(a[0]), val(a[1])
            for k in range(b.i, e.i):
                if I.truth(I.call_value(a[2], [VecIt(b.vec, k, b.rev).cell()])):
                    return VecIt(b.vec, k, b.rev)
            return e.copy()
        A("std::find_if", find_if)

        def find(I, fn, this, a):
            b, e = val(a[0]), val(a[1])
            for k in range(b.i, e.i):
                if I.equal(VecIt(b.vec, k, b.rev).cell(), a[2]):
                    return VecIt(b.vec, k, b.rev)
            return e.copy()
        A("std::find", find)

        def for_each(I, fn, this, a):
            for c in cells_of(a):
                I.call_value(a[2], [c])
            return a[2]
        A("std::for_each", for_each)

        def accumulate(I, fn, this, a):
            acc = copyval(val(a[2]))
            for c in cells_of(a):
                if len(a) > 3:
                    acc = copyval(val(I.call_value(a[3], [Cell(acc), c])))
                else:
                    acc = I.plus(acc, c.v)
            return acc
        A("std::accumulate", accumulate)

        def count_if(I, fn, this, a):
            return sum(1 for c in cells_of(a) if I.truth(I.call_value(a[2], [c])))
        A("std::count_if", count_if)

        def reverse(I, fn, this, a):
            b, e = val(a[0]), val(a[1])
            b.vec.cells[b.i:e.i] = b.vec.cells[b.i:e.i][::-1]
        A("std::reverse", reverse)
