"""Models of associative containers, std::variant and hash values.

Containers have known contents; ordered ones are kept sorted by the comparator the
program supplies, hashed ones find an element when the hash expressions agree and the
program's equality functor says so.  Hash values are terms over the hashed leaves: two
equal terms are equal numbers, two different ones may or may not collide."""
from interp import Native, Cell, Struct, Ptr, Unsupported, AssertFail, CppThrow, UNINIT, val, copyval
from models import Vec, VecIt, Pair, Str, Opaque, Tup, Smart, Opt, strip_targs
import re


class H(Native):
    """hash value as a term"""
    __slots__ = ("op", "args", "_k")
    integral = True

    def __init__(self, op, args):
        self.op, self.args = op, tuple(args)
        self._k = None

    def copy(self):
        return self

    def key(self):
        if self._k is None:
            self._k = (self.op,) + tuple(a.key() if isinstance(a, H) else a for a in self.args)
        return self._k

    def __eq__(self, o):
        return isinstance(o, H) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))

    def abstract_eq(self, I, o):
        return h_cmp(I, "==", self, o)

    def abstract_less(self, I, o):
        return h_cmp(I, "<", self, o)


def h_op(op, x, y):
    if op in ("+", "^", "*", "&", "|"):
        a = sorted([x, y], key=lambda v: repr(v.key() if isinstance(v, H) else v))
        return H(op, a)
    return H(op, [x, y])


def h_cmp(I, op, x, y):
    """order of two hash values: equal terms are equal; others are ordered by an arbitrary but
    consistent choice (a collision is one of the cases)"""
    if isinstance(x, H) and isinstance(y, H) and x == y:
        c = 0
    else:
        w = I.dom.w
        facts = w.__dict__.setdefault("hfacts", {})
        kx, ky = [repr(v.key() if isinstance(v, H) else v) for v in (x, y)]
        f = 1
        if kx > ky:
            kx, ky, f = ky, kx, -1
        if (kx, ky) not in facts:
            facts[(kx, ky)] = (-1, 0, 1)[w.paths.choose(3)]
        c = f * facts[(kx, ky)]
    return {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]


class Variant(Native):
    def __init__(self, i, c):
        self.i, self.c = i, c

    def copy(self):
        return Variant(self.i, Cell(copyval(self.c.v)))

    def __repr__(self):
        return "Variant<%d>(%r)" % (self.i, self.c.v)

    def abstract_eq(self, I, o):
        return self.i == o.i and I.equal(self.c, o.c)

    def abstract_less(self, I, o):
        if self.i != o.i:
            return self.i < o.i
        return I.less(self.c, o.c)

    def get_index(self, I, i):
        if i != self.i:
            raise AssertFail("std::get of an alternative that is not active")
        return self.c

    def get_type(self, I, t):
        if self.i != alternatives(I, self)[1].index(t):
            raise AssertFail("std::get of an alternative that is not active")
        return self.c


def alternatives(I, v):
    return v, v.types


class Assoc(Vec):
    """set / map; map elements are Pairs"""

    def __init__(self, kind, ismap, multi, rec, cells=None):
        Vec.__init__(self, cells)
        self.kind, self.ismap, self.multi, self.rec = kind, ismap, multi, rec

    def copy(self):
        return Assoc(self.kind, self.ismap, self.multi, self.rec, [Cell(copyval(c.v)) for c in self.cells])

    def key(self, c):
        return c.v.first if self.ismap else c


def term_key(I, v):
    """canonical key of a leaf value under the knowledge of the path"""
    dom = I.dom
    if type(v) in (int, bool):
        return int(v)
    if isinstance(v, H):
        return v.key()
    if isinstance(v, Str):
        return ("str", v.s)
    if isinstance(v, Ptr):
        return ("ptr", id(v.base), v.idx)
    if v is None:
        return ("null",)
    if dom.is_number(v):
        h = getattr(dom, "number_key", None)
        return ("num", h(v) if h else repr(v))
    h = getattr(v, "hash_key", None)
    if h is not None:
        return h(I)
    raise Unsupported("hash of %r" % (v,))


def hash_of(I, c):
    """std::hash applied to a value: the program's own specialisation if there is one"""
    v = val(c)
    if isinstance(v, H):
        return v
    if isinstance(v, Struct):
        for f in I.p.fns.values():
            if f.get("op") == "()" and "body" in f and "rec" in f and len(f["params"]) == 1:
                n = I.p.recs[f["rec"]]["name"]
                if n == "std::hash" and I.arg_fits(f["params"][0]["t"], c) and I.strip(f["params"][0]["t"]).get("rec") == v.rec["id"]:
                    a = c if I.is_ref(f["params"][0]["t"]) else copyval(v)
                    if not isinstance(a, Cell) and I.is_ref(f["params"][0]["t"]):
                        a = Cell(a)
                    return val(I.invoke(f, Cell(Opaque(n)), [a]))
        raise Unsupported("no hash function for %s" % v.rec["name"])
    if isinstance(v, Variant):
        return H("variant", (v.i, hash_of(I, v.c)))
    if isinstance(v, Vec):
        return H("seq", [hash_of(I, x) for x in v.cells])
    if isinstance(v, (Smart,)):
        return H("leaf", (term_key(I, v.p),))
    if isinstance(v, Opt):
        return H("opt", [hash_of(I, v.c)] if v.c is not None else [])
    return H("leaf", (term_key(I, v),))


def register(M):
    ot, osc = M.native_truth, M.native_scalar
    M.hash_op = h_op
    M.hash_cmp = h_cmp
    orig = M.opaque_record
    CN = {}
    for k in ("set", "map"):
        for m in ("", "multi"):
            CN["std::%s%s" % (m, k)] = ("ordered", k == "map", m == "multi")
            CN["std::unordered_%s%s" % (m, k)] = ("hashed", k == "map", m == "multi")

    def targs(rec):
        t = rec.get("targs", [])
        return t[0] if t and isinstance(t[0], list) else t

    def opaque(I, rec):
        n = re.sub(r"\bstd::(__cxx11|__1|_V2|__detail|__debug)::", "std::", strip_targs(rec["name"]))
        if n in CN:
            k, ismap, multi = CN[n]
            return Assoc(k, ismap, multi, rec)
        if n == "std::variant":
            v = Variant(0, Cell(I.default_value(targs(rec)[0], True)))
            v.types = targs(rec)
            return v
        return orig(I, rec)
    M.opaque_record = opaque

    # --- functors of the containers
    def functor(I, rec, i):
        ts = targs(rec)
        return I.p.types[ts[i]] if i < len(ts) else None

    def fobj(I, ty):
        return Cell(I.default_struct(I.p.recs[ty["rec"]], True))

    def less(I, s, a, b):
        ty = functor(I, s.rec, 2 if s.ismap else 1)
        n = I.p.recs[ty["rec"]]["name"] if ty and ty["c"] == "record" else "std::less"
        if n == "std::less":
            return I.less(a, b)
        if n == "std::greater":
            return I.less(b, a)
        return I.truth(val(I.call_value(fobj(I, ty), [a, b])))

    def heq(I, s, a, b):
        k = 2 if s.ismap else 1
        ty = functor(I, s.rec, k + 1)
        n = I.p.recs[ty["rec"]]["name"] if ty and ty["c"] == "record" else "std::equal_to"
        if n == "std::equal_to":
            return I.equal(a, b)
        return I.truth(val(I.call_value(fobj(I, ty), [a, b])))

    def hval(I, s, a):
        k = 2 if s.ismap else 1
        ty = functor(I, s.rec, k)
        n = I.p.recs[ty["rec"]]["name"] if ty and ty["c"] == "record" else "std::hash"
        if n == "std::hash":
            return hash_of(I, a)
        return val(I.call_value(fobj(I, ty), [a]))

    def cellof(x):
        return x if type(x) is Cell else Cell(x)

    def locate(I, s, key):
        """(index, found): position of an equivalent element or insertion point"""
        key = cellof(key)
        if s.kind == "hashed":
            h = hval(I, s, key) if s.cells else None
            for i, c in enumerate(s.cells):
                h2 = hval(I, s, s.key(c))
                if h2 == h and heq(I, s, s.key(c), key):
                    return i, True
            return len(s.cells), False
        for i, c in enumerate(s.cells):
            if less(I, s, key, s.key(c)):
                return i, False
            if not less(I, s, s.key(c), key):
                return i, True
        return len(s.cells), False

    def both(meth, f):
        for n in CN:
            M.table["%s::%s" % (n, meth)] = f

    def this_v(this):
        v = val(this)
        if not isinstance(v, Assoc):
            raise Unsupported("container %r" % (v,))
        return v

    def put(I, s, elem):
        key = elem.first if s.ismap else Cell(elem)
        i, found = locate(I, s, key)
        if found and not s.multi:
            return i, False
        if found:
            while i < len(s.cells) and locate(I, Assoc(s.kind, s.ismap, False, s.rec, [s.cells[i]]), key)[1]:
                i += 1
        s.cells.insert(i, Cell(elem))
        return i, True

    M.assoc_put = put

    def elem(I, s, x):
        v = copyval(val(x))
        if s.ismap and not isinstance(v, Pair):
            raise Unsupported("map element %r" % (v,))
        return v if s.ismap else I.coerce(v, targs(s.rec)[0])

    def ctor(I, fn, this, a):
        s = val(this)
        if not isinstance(s, Assoc):
            s = this.v = opaque(I, I.p.recs[fn["rec"]])
        if not a:
            return
        x = val(a[0])
        if isinstance(x, Assoc):
            this.v = x.copy()
        elif isinstance(x, Vec):
            for c in x.cells:
                put(I, s, elem(I, s, c))
        elif isinstance(x, VecIt):
            for k in range(x.i, val(a[1]).i):
                put(I, s, elem(I, s, VecIt(x.vec, k, x.rev).cell()))
        elif isinstance(x, int):
            return
        else:
            return
    for n in CN:
        M.table["%s::%s" % (n, n.split("::")[1])] = ctor

    def assign(I, fn, this, a):
        x = val(a[0])
        if isinstance(x, Assoc):
            this.v = x.copy()
        else:
            this.v.cells = []
            for c in x.cells:
                put(I, this.v, elem(I, this.v, c))
        return this
    both("operator=", assign)
    both("size", lambda I, fn, this, a: len(this_v(this).cells))
    both("empty", lambda I, fn, this, a: not this_v(this).cells)
    both("begin", lambda I, fn, this, a: VecIt(this_v(this), 0))
    both("cbegin", lambda I, fn, this, a: VecIt(this_v(this), 0))
    both("end", lambda I, fn, this, a: VecIt(this_v(this), len(this.v.cells)))
    both("cend", lambda I, fn, this, a: VecIt(this_v(this), len(this.v.cells)))
    both("rbegin", lambda I, fn, this, a: VecIt(this_v(this), 0, True))
    both("rend", lambda I, fn, this, a: VecIt(this_v(this), len(this.v.cells), True))
    both("crbegin", lambda I, fn, this, a: VecIt(this_v(this), 0, True))
    both("crend", lambda I, fn, this, a: VecIt(this_v(this), len(this.v.cells), True))
    both("reserve", lambda I, fn, this, a: None)
    both("max_load_factor", lambda I, fn, this, a: None)
    both("rehash", lambda I, fn, this, a: None)

    def clear(I, fn, this, a):
        this_v(this).cells = []
    both("clear", clear)

    def insert(I, fn, this, a):
        s = this_v(this)
        x = val(a[0])
        if len(a) == 2 and isinstance(x, VecIt):
            y = val(a[1])
            if isinstance(y, VecIt) and y.vec is x.vec and len(fn["params"]) == 2 and not s.ismap or (isinstance(y, VecIt) and y.vec is x.vec):
                for k in range(x.i, y.i):
                    put(I, s, elem(I, s, VecIt(x.vec, k, x.rev).cell()))
                return None
            i, _ = put(I, s, elem(I, s, a[1]))
            return VecIt(s, i)
        if isinstance(x, Vec) and not isinstance(x, Assoc) and s.rec.get("targs") and "initializer_list" in fn["sig"]:
            for c in x.cells:
                put(I, s, elem(I, s, c))
            return None
        i, new = put(I, s, elem(I, s, a[0]))
        if s.multi:
            return VecIt(s, i)
        return Pair(VecIt(s, i), new)
    both("insert", insert)

    def emplace(I, fn, this, a):
        s = this_v(this)
        ts = targs(s.rec)
        if s.ismap:
            if len(a) == 3 and isinstance(val(a[0]), Opaque):
                k = I.construct(ts[0], [c for c in val(a[1]).cells])
                v = I.construct(ts[1], [c for c in val(a[2]).cells])
            elif len(a) == 2:
                k, v = I.construct(ts[0], [a[0]]), I.construct(ts[1], [a[1]])
            elif len(a) == 1 and isinstance(val(a[0]), Pair):
                p = val(a[0])
                k, v = copyval(p.first.v), copyval(p.second.v)
            else:
                raise Unsupported("map emplace")
            e = Pair(k, v)
        else:
            e = I.construct(ts[0], list(a))
        i, new = put(I, s, e)
        return VecIt(s, i) if s.multi else Pair(VecIt(s, i), new)
    both("emplace", emplace)

    def try_emplace(I, fn, this, a):
        s = this_v(this)
        i, found = locate(I, s, a[0])
        if not found:
            s.cells.insert(i, Cell(Pair(copyval(val(a[0])), I.construct(targs(s.rec)[1], list(a[1:])))))
        return Pair(VecIt(s, i), not found)
    both("try_emplace", try_emplace)

    def insert_or_assign(I, fn, this, a):
        s = this_v(this)
        i, found = locate(I, s, a[0])
        if not found:
            s.cells.insert(i, Cell(Pair(copyval(val(a[0])), copyval(val(a[1])))))
        else:
            s.cells[i].v.second.v = copyval(val(a[1]))
        return Pair(VecIt(s, i), not found)
    both("insert_or_assign", insert_or_assign)

    def hinted(I, fn, this, a):
        s = this_v(this)
        r = emplace(I, fn, this, a[1:])
        return r.first.v if isinstance(r, Pair) else r
    both("emplace_hint", hinted)

    def find(I, fn, this, a):
        s = this_v(this)
        i, found = locate(I, s, a[0])
        return VecIt(s, i if found else len(s.cells))
    both("find", find)
    both("count", lambda I, fn, this, a: 1 if locate(I, this_v(this), a[0])[1] else 0)

    def at(I, fn, this, a):
        s = this_v(this)
        i, found = locate(I, s, a[0])
        if not found:
            raise CppThrow(None, "std::out_of_range")
        return s.cells[i].v.second
    both("at", at)

    def index(I, fn, this, a):
        s = this_v(this)
        i, found = locate(I, s, a[0])
        if not found:
            s.cells.insert(i, Cell(Pair(copyval(val(a[0])), I.default_value(targs(s.rec)[1], True))))
        return s.cells[i].v.second
    both("operator[]", index)

    def erase(I, fn, this, a):
        s = this_v(this)
        x = val(a[0])
        if isinstance(x, VecIt) and x.vec is s:
            j = val(a[1]).i if len(a) > 1 else x.i + 1
            if not 0 <= x.i < len(s.cells) and len(a) == 1:
                raise AssertFail("erase of an end iterator")
            del s.cells[x.i:j]
            return VecIt(s, x.i)
        i, found = locate(I, s, a[0])
        if found:
            del s.cells[i]
        return 1 if found else 0
    both("erase", erase)

    def bound(upper):
        def f(I, fn, this, a):
            s = this_v(this)
            k = cellof(a[0])
            for i, c in enumerate(s.cells):
                if less(I, s, k, s.key(c)) if upper else not less(I, s, s.key(c), k):
                    return VecIt(s, i)
            return VecIt(s, len(s.cells))
        return f
    both("lower_bound", bound(False))
    both("upper_bound", bound(True))

    def swap(I, fn, this, a):
        this.v, a[0].v = a[0].v, this.v
    both("swap", swap)
    its = r"^std::(_Rb_tree_iterator|_Rb_tree_const_iterator|_Node_iterator|_Node_const_iterator|_Node_iterator_base|__detail::_Node_iterator|__detail::_Node_const_iterator|__detail::_Node_iterator_base)::"
    base = next(f for rx, f in M.patterns if rx.pattern.startswith("^__gnu_cxx::__normal_iterator"))
    free = next(f for rx, f in M.patterns if rx.pattern == r"^__gnu_cxx::operator")
    M.pat(its, base)
    std_cmp = {op: M.table["std::operator" + op] for op in ("==", "!=")}

    def itcmp(op):
        def f(I, fn, this, a):
            x, y = (val(a[0]), val(a[1])) if this is None else (val(this), val(a[0]))
            if isinstance(x, VecIt) and isinstance(y, VecIt):
                r = x.vec is y.vec and x.i == y.i
                return r if op == "==" else not r
            return std_cmp[op](I, fn, this, a)
        return f
    for op in ("==", "!="):
        M.table["std::operator" + op] = itcmp(op)
        M.table["std::__detail::operator" + op] = itcmp(op)

    # --- variant
    def vctor(I, fn, this, a):
        ts = targs(I.p.recs[fn["rec"]])
        if not a:
            return
        x = val(a[0])
        if isinstance(x, Variant):
            v = x.copy()
            v.types = x.types
            this.v = v
            return
        if isinstance(x, Opaque) and len(a) > 1 and "in_place" in x.name:
            t = fn["targs"][0]
            i = int(t[1:]) if isinstance(t, str) else ts.index(t)
            v = Variant(i, Cell(I.construct(ts[i], list(a[1:]))))
        else:
            i = pick(I, ts, fn, a[0])
            v = Variant(i, Cell(I.coerce(copyval(x), ts[i])))
        v.types = ts
        this.v = v

    def pick(I, ts, fn, a):
        x = val(a)
        if isinstance(x, Struct):
            for i, t in enumerate(ts):
                if I.strip(t).get("rec") == x.rec["id"]:
                    return i
        pt = I.strip(fn["params"][0]["t"]) if fn["params"] else None
        for i, t in enumerate(ts):
            if pt is not None and I.strip(t)["name"].replace("const ", "") == pt["name"].replace("const ", ""):
                return i
        raise Unsupported("variant alternative for %r" % (x,))
    M.table["std::variant::variant"] = vctor

    def vassign(I, fn, this, a):
        x = val(a[0])
        ts = targs(I.p.recs[fn["rec"]])
        if isinstance(x, Variant):
            v = x.copy()
        else:
            i = pick(I, ts, fn, a[0])
            v = Variant(i, Cell(I.coerce(copyval(x), ts[i])))
        v.types = ts
        this.v = v
        return this
    M.table["std::variant::operator="] = vassign
    M.table["std::variant::index"] = lambda I, fn, this, a: this.v.i

    def vemplace(I, fn, this, a):
        ts = this.v.types
        t = fn["targs"][0]
        i = int(t[1:]) if isinstance(t, str) else ts.index(t)
        v = Variant(i, Cell(I.construct(ts[i], list(a))))
        v.types = ts
        this.v = v
        return v.c
    M.table["std::variant::emplace"] = vemplace

    def holds(I, fn, this, a):
        v = val(a[0])
        return v.types.index(fn["targs"][0]) == v.i
    M.table["std::holds_alternative"] = holds

    def get_if(I, fn, this, a):
        p = val(a[0])
        if p is None:
            return None
        v = p.cell().v
        t = fn["targs"][0]
        i = int(t[1:]) if isinstance(t, str) else v.types.index(t)
        return Ptr(v.c) if i == v.i else None
    M.table["std::get_if"] = get_if

    def visit(I, fn, this, a):
        return I.call_value(a[0], [val(x).c for x in a[1:]])
    M.table["std::visit"] = visit
    cp = Variant.copy

    def vcopy(self):
        v = cp(self)
        v.types = self.types
        return v
    if not getattr(Variant, "_patched", False):
        Variant.copy = vcopy
        Variant._patched = True

    # --- hashing
    def std_hash(I, fn, this, a):
        return hash_of(I, cellof(a[0]))
    M.table["std::hash::operator()"] = std_hash
    M.table["std::__hash_enum::operator()"] = std_hash
    M.pat(r"^std::(__hash_\w+|__poison_hash|_Hash_impl|__\w*hash\w*)::operator\(\)$", std_hash)
