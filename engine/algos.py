"""Models of standard algorithms and container adaptors on sequences of known length."""
from fractions import Fraction
from interp import Native, Cell, Ptr, Arr, Struct, Unsupported, AssertFail, UNINIT, val, copyval
from models import Vec, VecIt, Pair, Str, Opaque, strip_targs


class Inserter(Native):
    def __init__(self, vec, how, it=None):
        self.vec, self.how, self.it = vec, how, it

    def copy(self):
        return self


class Queue(Vec):
    """stack / queue / priority_queue"""

    def __init__(self, kind, rec, cells=None):
        Vec.__init__(self, cells)
        self.kind, self.rec = kind, rec

    def copy(self):
        return Queue(self.kind, self.rec, [Cell(copyval(c.v)) for c in self.cells])


def cellof(x):
    return x if type(x) is Cell else Cell(x)


def span(a, b):
    """list of cells between two iterators"""
    a, b = val(a), val(b)
    if isinstance(a, VecIt):
        if b.i < a.i:
            raise AssertFail("invalid iterator range")
        return [VecIt(a.vec, k, a.rev).cell() for k in range(a.i, b.i)]
    if isinstance(a, Ptr):
        out, p = [], a
        while not p == b:
            out.append(p.cell())
            p = Ptr(p.base, p.idx + 1)
            if len(out) > 100000:
                raise Unsupported("pointer range")
        return out
    raise Unsupported("iterator range %r" % (a,))


def advance(it, n):
    it = val(it)
    if isinstance(it, VecIt):
        return VecIt(it.vec, it.i + n, it.rev)
    if isinstance(it, Ptr):
        return Ptr(it.base, it.idx + n)
    raise Unsupported("advance %r" % (it,))


def deref(it):
    return val(it).cell()


def register(M):
    A = M.add

    def cmp_of(a, k):
        """strict order given by optional comparator argument"""
        if len(a) > k:
            return lambda I, x, y: I.truth(val(I.call_value(a[k], [x, y])))
        return lambda I, x, y: I.less(x, y)

    def eq_of(a, k):
        if len(a) > k:
            return lambda I, x, y: I.truth(val(I.call_value(a[k], [x, y])))
        return lambda I, x, y: I.equal(x, y)

    def pred_of(a, k):
        return lambda I, x: I.truth(val(I.call_value(a[k], [x])))

    def store(I, it, v):
        """*it = v; ++it"""
        it = val(it)
        if isinstance(it, Inserter):
            if it.how == "back":
                it.vec.cells.append(Cell(copyval(v)))
            elif it.how == "front":
                it.vec.cells.insert(0, Cell(copyval(v)))
            elif it.how == "assoc":
                it.put(I, copyval(v))
            else:
                it.vec.cells.insert(it.it, Cell(copyval(v)))
                it.it += 1
            return it
        I.assign(it.cell(), copyval(v))
        return advance(it, 1)

    def stable(I, cells, lt):
        out = []
        for v in cells:
            k = len(out)
            while k > 0 and lt(I, Cell(v), Cell(out[k - 1])):
                k -= 1
            out.insert(k, v)
        return out

    def sort(I, fn, this, a):
        cs = span(a[0], a[1])
        vs = stable(I, [copyval(c.v) for c in cs], cmp_of(a, 2))
        for c, v in zip(cs, vs):
            c.v = v
    A("std::sort std::stable_sort", sort)

    def psort(I, fn, this, a):
        cs = span(a[0], a[2])
        vs = stable(I, [copyval(c.v) for c in cs], cmp_of(a, 3))
        for c, v in zip(cs, vs):
            c.v = v
    A("std::partial_sort std::nth_element", psort)

    def lsort(I, fn, this, a):
        v = val(this)
        vs = stable(I, [copyval(c.v) for c in v.cells], cmp_of(a, 0))
        v.cells[:] = [Cell(x) for x in vs]
    A("std::list::sort std::forward_list::sort", lsort)

    def is_sorted(I, fn, this, a):
        cs = span(a[0], a[1])
        lt = cmp_of(a, 2)
        return not any(lt(I, cs[i + 1], cs[i]) for i in range(len(cs) - 1))
    A("std::is_sorted", is_sorted)

    def unique(I, fn, this, a):
        cs = span(a[0], a[1])
        eq = eq_of(a, 2)
        out = []
        for c in cs:
            if not out or not eq(I, Cell(out[-1]), c):
                out.append(copyval(c.v))
        for c, v in zip(cs, out):
            c.v = v
        return advance(a[0], len(out))
    A("std::unique", unique)

    def adjacent_find(I, fn, this, a):
        cs = span(a[0], a[1])
        eq = eq_of(a, 2)
        for i in range(len(cs) - 1):
            if eq(I, cs[i], cs[i + 1]):
                return advance(a[0], i)
        return copyval(val(a[1]))
    A("std::adjacent_find", adjacent_find)

    def remove(iff):
        def f(I, fn, this, a):
            cs = span(a[0], a[1])
            keep = [copyval(c.v) for c in cs if not (I.truth(val(I.call_value(a[2], [c]))) if iff else I.equal(c, cellof(a[2])))]
            for c, v in zip(cs, keep):
                c.v = v
            return advance(a[0], len(keep))
        return f
    A("std::remove", remove(False))
    A("std::remove_if", remove(True))

    def lremove(iff):
        def f(I, fn, this, a):
            v = val(this)
            v.cells[:] = [c for c in v.cells if not (I.truth(val(I.call_value(a[0], [c]))) if iff else I.equal(c, cellof(a[0])))]
        return f
    A("std::list::remove std::forward_list::remove", lremove(False))
    A("std::list::remove_if std::forward_list::remove_if", lremove(True))

    def next_perm(I, fn, this, a):
        cs = span(a[0], a[1])
        lt = cmp_of(a, 2)
        vs = [copyval(c.v) for c in cs]
        i = len(vs) - 2
        while i >= 0 and not lt(I, Cell(vs[i]), Cell(vs[i + 1])):
            i -= 1
        if i < 0:
            vs.reverse()
            r = False
        else:
            j = len(vs) - 1
            while not lt(I, Cell(vs[i]), Cell(vs[j])):
                j -= 1
            vs[i], vs[j] = vs[j], vs[i]
            vs[i + 1:] = vs[i + 1:][::-1]
            r = True
        for c, v in zip(cs, vs):
            c.v = v
        return r
    A("std::next_permutation", next_perm)

    def transform(I, fn, this, a):
        if len(a) == 4:
            cs, out = [copyval(c.v) for c in span(a[0], a[1])], a[2]
            vs = [val(I.call_value(a[3], [Cell(c)])) for c in cs]
        else:
            xs = span(a[0], a[1])
            vs = [val(I.call_value(a[4], [c, deref(advance(a[2], i))])) for i, c in enumerate(xs)]
            out = a[3]
        for v in vs:
            out = store(I, out, v)
        return out
    A("std::transform", transform)

    def copy(iff):
        def f(I, fn, this, a):
            vs = [copyval(c.v) for c in span(a[0], a[1]) if iff is None or I.truth(val(I.call_value(a[3], [c]))) == iff]
            out = a[2]
            for v in vs:
                out = store(I, out, v)
            return out
        return f
    A("std::copy std::move_", copy(None))
    A("std::copy_if", copy(True))
    A("std::remove_copy_if", copy(False))

    def copy_n(I, fn, this, a):
        out = a[2]
        for k in range(val(a[1])):
            out = store(I, out, copyval(deref(advance(a[0], k)).v))
        return out
    A("std::copy_n", copy_n)

    def fill(I, fn, this, a):
        for c in span(a[0], a[1]):
            I.assign(c, copyval(val(a[2])))
    A("std::fill", fill)

    def fill_n(I, fn, this, a):
        out = a[0]
        for _ in range(val(a[1])):
            out = store(I, out, val(a[2]))
        return out
    A("std::fill_n", fill_n)

    def generate(I, fn, this, a):
        for c in span(a[0], a[1]):
            I.assign(c, copyval(val(I.call_value(a[2], []))))
    A("std::generate", generate)

    def iota(I, fn, this, a):
        v = val(a[2])
        for c in span(a[0], a[1]):
            I.assign(c, v)
            v = v + 1
    A("std::iota", iota)

    def extreme(kind):
        def f(I, fn, this, a):
            cs = span(a[0], a[1])
            if not cs:
                return copyval(val(a[1]))
            lt = cmp_of(a, 2)
            b = 0
            for i in range(1, len(cs)):
                if lt(I, cs[i], cs[b]) if kind == "min" else lt(I, cs[b], cs[i]):
                    b = i
            return advance(a[0], b)
        return f
    A("std::min_element", extreme("min"))
    A("std::max_element", extreme("max"))

    def lower(I, fn, this, a):
        cs, lt = span(a[0], a[1]), cmp_of(a, 3)
        for i, c in enumerate(cs):
            if not lt(I, c, cellof(a[2])):
                return advance(a[0], i)
        return copyval(val(a[1]))
    A("std::lower_bound", lower)

    def upper(I, fn, this, a):
        cs, lt = span(a[0], a[1]), cmp_of(a, 3)
        for i, c in enumerate(cs):
            if lt(I, cellof(a[2]), c):
                return advance(a[0], i)
        return copyval(val(a[1]))
    A("std::upper_bound", upper)

    def bsearch(I, fn, this, a):
        lt = cmp_of(a, 3)
        for c in span(a[0], a[1]):
            if not lt(I, c, cellof(a[2])):
                return not lt(I, cellof(a[2]), c)
        return False
    A("std::binary_search", bsearch)

    def equal(I, fn, this, a):
        xs = span(a[0], a[1])
        four = len(a) >= 4 and type(val(a[3])) is type(val(a[2])) and isinstance(val(a[2]), (VecIt, Ptr))
        if four:
            ys = span(a[2], a[3])
            if len(xs) != len(ys):
                return False
            eq = eq_of(a, 4)
        else:
            ys = [deref(advance(a[2], i)) for i in range(len(xs))]
            eq = eq_of(a, 3)
        return all(eq(I, x, y) for x, y in zip(xs, ys))
    A("std::equal", equal)

    def lexi(I, fn, this, a):
        xs, ys, lt = span(a[0], a[1]), span(a[2], a[3]), cmp_of(a, 4)
        for x, y in zip(xs, ys):
            if lt(I, x, y): return True
            if lt(I, y, x): return False
        return len(xs) < len(ys)
    A("std::lexicographical_compare", lexi)

    def mismatch(I, fn, this, a):
        xs = span(a[0], a[1])
        four = len(a) >= 4 and isinstance(val(a[3]), (VecIt, Ptr))
        ys = span(a[2], a[3]) if four else [deref(advance(a[2], i)) for i in range(len(xs))]
        eq = eq_of(a, 4 if four else 3)
        k = 0
        while k < min(len(xs), len(ys)) and eq(I, xs[k], ys[k]):
            k += 1
        return Pair(advance(a[0], k), advance(a[2], k))
    A("std::mismatch", mismatch)

    def count(I, fn, this, a):
        return sum(1 for c in span(a[0], a[1]) if I.equal(c, cellof(a[2])))
    A("std::count", count)

    def find_if_not(I, fn, this, a):
        for i, c in enumerate(span(a[0], a[1])):
            if not I.truth(val(I.call_value(a[2], [c]))):
                return advance(a[0], i)
        return copyval(val(a[1]))
    A("std::find_if_not", find_if_not)

    def partition(I, fn, this, a):
        cs = span(a[0], a[1])
        p = pred_of(a, 2)
        fl = [(p(I, c), copyval(c.v)) for c in cs]
        vs = [v for t, v in fl if t] + [v for t, v in fl if not t]
        for c, v in zip(cs, vs):
            c.v = v
        return advance(a[0], sum(1 for t, _ in fl if t))
    A("std::partition std::stable_partition", partition)

    def rotate(I, fn, this, a):
        n = val(a[1]).i - val(a[0]).i
        cs = span(a[0], a[2])
        vs = [copyval(c.v) for c in cs]
        for c, v in zip(cs, vs[n:] + vs[:n]):
            c.v = v
        return advance(a[0], len(cs) - n)
    A("std::rotate", rotate)

    def iter_swap(I, fn, this, a):
        x, y = deref(a[0]), deref(a[1])
        x.v, y.v = y.v, x.v
    A("std::iter_swap", iter_swap)

    def inner(I, fn, this, a):
        acc = copyval(val(a[2 + 1]))
        for i, c in enumerate(span(a[0], a[1])):
            y = deref(advance(a[2], i))
            if len(a) > 4:
                acc = copyval(val(I.call_value(a[4], [Cell(acc), Cell(copyval(val(I.call_value(a[5], [c, y]))))])))
            else:
                raise Unsupported("inner_product")
        return acc
    A("std::inner_product", inner)

    def setop(kind):
        def f(I, fn, this, a):
            xs, ys = span(a[0], a[1]), span(a[2], a[3])
            lt = cmp_of(a, 5 if kind != "includes" else 4)
            i = j = 0
            out = []
            while i < len(xs) and j < len(ys):
                if lt(I, xs[i], ys[j]):
                    if kind in ("union", "difference", "symmetric_difference", "merge"): out.append(xs[i])
                    i += 1
                elif lt(I, ys[j], xs[i]):
                    if kind == "includes": return False
                    if kind in ("union", "symmetric_difference", "merge"): out.append(ys[j])
                    j += 1
                else:
                    if kind in ("union", "intersection"): out.append(xs[i])
                    if kind == "merge": out += [xs[i], ys[j]]
                    i += 1
                    j += 1
            if kind == "includes":
                return j == len(ys)
            if kind in ("union", "difference", "symmetric_difference", "merge"): out += xs[i:]
            if kind in ("union", "symmetric_difference", "merge"): out += ys[j:]
            it = a[4]
            for v in [copyval(c.v) for c in out]:
                it = store(I, it, v)
            return it
        return f
    for k in ("union", "intersection", "difference", "symmetric_difference"):
        A("std::set_" + k, setop(k))
    A("std::merge", setop("merge"))
    A("std::includes", setop("includes"))
    A("std::back_inserter", lambda I, fn, this, a: Inserter(val(a[0]), "back"))
    A("std::front_inserter", lambda I, fn, this, a: Inserter(val(a[0]), "front"))

    def inserter(I, fn, this, a):
        v = val(a[0])
        if hasattr(v, "ismap"):
            r = Inserter(v, "assoc")
            r.put = lambda I, x: M.assoc_put(I, v, x)
            return r
        return Inserter(v, "at", val(a[1]).i)
    A("std::inserter", inserter)

    def ins_method(I, fn, this, a):
        if fn.get("op") == "=":
            v = val(a[0])
            if isinstance(v, Inserter):
                this.v = v
            else:
                store(I, val(this), v)
            return this
        return this
    M.pat(r"^std::(back|front)?_?insert_iterator::", ins_method)

    # adaptors
    orig = M.opaque_record
    KIND = {"std::stack": "stack", "std::queue": "queue", "std::priority_queue": "prio"}

    def opaque(I, rec):
        n = strip_targs(rec["name"])
        if n in KIND:
            return Queue(KIND[n], rec)
        return orig(I, rec)
    M.opaque_record = opaque

    def best(I, q):
        """index of top()"""
        if not q.cells:
            raise AssertFail("top()/front() of an empty container")
        if q.kind == "stack":
            return len(q.cells) - 1
        if q.kind == "queue":
            return 0
        t = q.rec["targs"]
        t = t[0] if isinstance(t[0], list) else t
        ty = I.p.types[t[2]] if len(t) > 2 else None
        n = I.p.recs[ty["rec"]]["name"] if ty and ty["c"] == "record" else "std::less"

        def lt(x, y):
            if n == "std::less": return I.less(x, y)
            if n == "std::greater": return I.less(y, x)
            return I.truth(val(I.call_value(Cell(I.default_struct(I.p.recs[ty["rec"]], True)), [x, y])))
        b = 0
        for i in range(1, len(q.cells)):
            if lt(q.cells[b], q.cells[i]):
                b = i
        return b
    for n in KIND:
        def ctor(I, fn, this, a):
            if a and isinstance(val(a[0]), Queue):
                this.v = val(a[0]).copy()
            elif not isinstance(val(this), Queue):
                this.v = opaque(I, I.p.recs[fn["rec"]])
        A(n + "::" + n.split("::")[1], ctor)

        def asg(I, fn, this, a):
            this.v = val(a[0]).copy()
            return this
        A(n + "::operator=", asg)
        A(n + "::size", lambda I, fn, this, a: len(val(this).cells))
        A(n + "::empty", lambda I, fn, this, a: not val(this).cells)
        A(n + "::top " + n + "::front", lambda I, fn, this, a: val(this).cells[best(I, val(this))])

        def push(I, fn, this, a):
            t = val(this).rec["targs"]
            t = t[0] if isinstance(t[0], list) else t
            val(this).cells.append(Cell(I.construct(t[0], list(a))))
        A(n + "::push " + n + "::emplace", push)

        def pop(I, fn, this, a):
            q = val(this)
            del q.cells[best(I, q)]
        A(n + "::pop", pop)

        def swap(I, fn, this, a):
            this.v, a[0].v = a[0].v, this.v
        A(n + "::swap", swap)

    # vector<bool>
    M.table["std::_Bit_reference::operator bool"] = lambda I, fn, this, a: val(this)

    def bitset(I, fn, this, a):
        this.v = val(a[0])
        return this
    A("std::_Bit_reference::operator=", bitset)

    def bitflip(I, fn, this, a):
        this.v = not I.truth(val(this))
    A("std::_Bit_reference::flip", bitflip)
