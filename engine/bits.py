"""Bit-sequence domain: every bit is 0, 1 or an opaque atom (possibly negated).

Copying, shifting, complementing and combining with constants keeps atoms opaque; the
state is split into the two cases only when the code inspects an opaque bit.  The
decisions of a path live in the World."""
from interp import Native, Cell, Unsupported, AssertFail, UNINIT, Ptr, val, copyval
from models import Vec, VecIt, Str


class Bit(Native):
    __slots__ = ("name", "neg")

    def __init__(self, name, neg=False):
        self.name, self.neg = name, neg

    def copy(self):
        return self

    def __eq__(self, o):
        return isinstance(o, Bit) and self.name == o.name and self.neg == o.neg

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.name, self.neg))

    def __repr__(self):
        return ("!" if self.neg else "") + self.name


class BitWorld:
    """mixin state: decisions about atoms"""
    pass


def decide(dom, b):
    """truth value of a bit, splitting the state when undetermined"""
    if isinstance(b, Bit):
        w = dom.w
        bits = w.__dict__.setdefault("bits", {})
        if b.name not in bits:
            bits[b.name] = w.paths.choose(2)
        return bits[b.name] ^ (1 if b.neg else 0)
    return 1 if b else 0


def known(dom, b):
    """bit with the decisions of the path applied"""
    if isinstance(b, Bit):
        bits = dom.w.__dict__.get("bits", {})
        if b.name in bits:
            return bits[b.name] ^ (1 if b.neg else 0)
        return b
    return 1 if b else 0


def inv(b):
    return Bit(b.name, not b.neg) if isinstance(b, Bit) else 1 - b


def b_and(dom, x, y):
    x, y = known(dom, x), known(dom, y)
    if x == 0 or y == 0: return 0
    if x == 1: return y
    if y == 1: return x
    if x == y: return x
    if x == inv(y): return 0
    return decide(dom, x) & decide(dom, y)


def b_or(dom, x, y):
    return inv(b_and(dom, inv(known(dom, x)), inv(known(dom, y))))


def b_xor(dom, x, y):
    x, y = known(dom, x), known(dom, y)
    if x == 0: return y
    if y == 0: return x
    if x == 1: return inv(y)
    if y == 1: return inv(x)
    if x == y: return 0
    if x == inv(y): return 1
    return decide(dom, x) ^ decide(dom, y)


class Bits(Native):
    def __init__(self, b=()):
        self.b = list(b)

    def copy(self):
        return Bits(self.b)

    def abstract_eq(self, I, o):
        return len(self.b) == len(o.b) and compare(I.dom, self, o) == 0

    def abstract_less(self, I, o):
        return compare(I.dom, self, o) < 0

    def hash_key(self, I):
        return ("bits",) + tuple(decide(I.dom, b) for b in self.b)

    def __repr__(self):
        return "".join(str(x) if not isinstance(x, Bit) else "<%r>" % x for x in reversed(self.b)) or "(empty)"


class Ref(Native):
    """dynamic_bitset::reference"""

    def __init__(self, bits, i):
        self.bits, self.i = bits, i

    def copy(self):
        return Ref(self.bits, self.i)


class Block(Native):
    """an opaque machine word of an exported integer"""

    def __init__(self, bits):
        self.bits = bits

    def copy(self):
        return self


BLOCK = 64


def to_bit(x):
    if isinstance(x, Bit):
        return x
    if type(x) in (bool, int):
        return 1 if x else 0
    raise Unsupported("bit expected, got %r" % (x,))


def word_bits(x):
    if isinstance(x, Block):
        return list(x.bits)
    if type(x) in (int, bool):
        return [(int(x) >> i) & 1 for i in range(BLOCK)]
    raise Unsupported("machine word expected, got %r" % (x,))


def as_index(I, x):
    if type(x) is int:
        return x
    raise Unsupported("abstract bit index %r" % (x,))


def compare(dom, x, y):
    """boost semantics: numeric comparison of the values; -1/0/1"""
    a, b = x.b, y.b
    n = max(len(a), len(b))
    for i in reversed(range(n)):
        p = known(dom, a[i]) if i < len(a) else 0
        q = known(dom, b[i]) if i < len(b) else 0
        if p == q:
            continue
        p, q = decide(dom, p), decide(dom, q)
        if p != q:
            return 1 if p > q else -1
    return 0


def rng(I, first, last):
    """words between two iterators/pointers"""
    a, b = val(first), val(last)
    out = []
    if isinstance(a, VecIt):
        for i in range(a.i, b.i):
            out.append(a.vec.cells[i].v)
        return out
    if isinstance(a, Ptr):
        p = a
        while not p == b:
            out.append(p.cell().v)
            p = Ptr(p.base, p.idx + 1)
            if len(out) > 1000:
                raise Unsupported("iterator range")
        return out
    raise Unsupported("block range %r" % (a,))


def register(M):
    """install the bit-sequence models"""
    ot, os_ = M.native_truth, M.native_scalar
    M.native_truth = lambda I, v: bool(decide(I.dom, v)) if isinstance(v, Bit) else ot(I, v)
    M.native_scalar = lambda I, v: bool(decide(I.dom, v)) if isinstance(v, Bit) else os_(I, v)
    P = "boost::dynamic_bitset::"

    def bs(c):
        v = val(c)
        if not isinstance(v, Bits):
            raise Unsupported("bitset expected, got %r" % (v,))
        return v
    orig = M.opaque_record

    def opaque(I, rec):
        n = rec["name"]
        if n.startswith("boost::dynamic_bitset") and not n.endswith("reference"):
            return Bits()
        return orig(I, rec)
    M.opaque_record = opaque

    def ctor(I, fn, this, a):
        sp = fn.get("special")
        if sp == "defctor":
            this.v = Bits()
        elif sp == "copyctor":
            this.v = bs(a[0]).copy()
        elif sp == "movector":
            this.v = bs(a[0]).copy()
            a[0].v = Bits()
        else:
            x = val(a[0])
            if isinstance(x, Str):
                pos, n = val(a[1]), val(a[2])
                s = x.s[pos:] if n >= len(x.s) else x.s[pos:pos + n]
                nb = val(a[3]) if len(a) > 3 else len(s)
                bits = [to_bit(ch) if isinstance(ch, Bit) else int(ch) for ch in reversed(s)]
                this.v = Bits(bits)
            elif isinstance(x, (VecIt, Ptr)) or x is None:
                this.v = Bits([b for w in rng(I, a[0], a[1]) for b in word_bits(w)])
            else:
                n = as_index(I, x)
                v = val(a[1]) if len(a) > 1 else 0
                wb = word_bits(v)
                this.v = Bits([wb[i] if i < BLOCK else 0 for i in range(n)])
    M.add(P + "dynamic_bitset", ctor)

    def assign(I, fn, this, a):
        this.v = bs(a[0]).copy()
        return this
    M.add(P + "operator=", assign)
    M.add(P + "size", lambda I, fn, this, a: len(bs(this).b))
    M.add(P + "num_blocks", lambda I, fn, this, a: (len(bs(this).b) + BLOCK - 1) // BLOCK)
    M.add(P + "empty", lambda I, fn, this, a: not bs(this).b)
    M.add(P + "none", lambda I, fn, this, a: not any(decide(I.dom, b) for b in reversed(bs(this).b)))
    M.add(P + "any", lambda I, fn, this, a: any(decide(I.dom, b) for b in reversed(bs(this).b)))
    M.add(P + "all", lambda I, fn, this, a: all(decide(I.dom, b) for b in reversed(bs(this).b)))
    M.add(P + "count", lambda I, fn, this, a: sum(decide(I.dom, b) for b in bs(this).b))

    def resize(I, fn, this, a):
        x = bs(this)
        n = as_index(I, val(a[0]))
        if n > 4096:
            raise AssertFail("resize of a bitset to %d bits" % n)
        v = to_bit(val(a[1])) if len(a) > 1 else 0
        x.b = x.b[:n] + [v] * (n - len(x.b))
    M.add(P + "resize", resize)

    def append(I, fn, this, a):
        x = bs(this)
        ws = rng(I, a[0], a[1]) if len(a) == 2 else [val(a[0])]
        for w in ws:
            x.b.extend(word_bits(w))
    M.add(P + "append", append)

    def push(I, fn, this, a):
        bs(this).b.append(to_bit(val(a[0])))
    M.add(P + "push_back", push)

    def clear(I, fn, this, a):
        bs(this).b = []
    M.add(P + "clear", clear)

    def chk(x, i):
        if not 0 <= i < len(x.b):
            raise AssertFail("bit index %d outside a bitset of size %d" % (i, len(x.b)))

    def flip(I, fn, this, a):
        x = bs(this)
        if a:
            i = as_index(I, val(a[0]))
            chk(x, i)
            x.b[i] = inv(x.b[i])
        else:
            x.b = [inv(b) for b in x.b]
        return this
    M.add(P + "flip", flip)

    def setb(v):
        def f(I, fn, this, a):
            x = bs(this)
            if not a:
                x.b = [v] * len(x.b)
            else:
                i = as_index(I, val(a[0]))
                chk(x, i)
                x.b[i] = v if len(a) < 2 or v == 0 else to_bit(val(a[1]))
            return this
        return f
    M.add(P + "set", setb(1))
    M.add(P + "reset", setb(0))

    def shl(x, n):
        m = len(x.b)
        return Bits(([0] * min(n, m) + x.b)[:m])

    def shr(x, n):
        m = len(x.b)
        return Bits((x.b[n:] + [0] * min(n, m))[:m])

    def shift_assign(f):
        def g(I, fn, this, a):
            this.v = f(bs(this), as_index(I, val(a[0])))
            return this
        return g
    M.add(P + "operator<<=", shift_assign(shl))
    M.add(P + "operator>>=", shift_assign(shr))
    M.add(P + "operator<<", lambda I, fn, this, a: shl(bs(this), as_index(I, val(a[0]))))
    M.add(P + "operator>>", lambda I, fn, this, a: shr(bs(this), as_index(I, val(a[0]))))
    M.add(P + "operator~", lambda I, fn, this, a: Bits([inv(b) for b in bs(this).b]))

    def bitop(op):
        def h(I, x, y):
            if len(x.b) != len(y.b):
                raise AssertFail("bitwise operation on bitsets of different sizes %d and %d" % (len(x.b), len(y.b)))
            return Bits([op(I.dom, p, q) for p, q in zip(x.b, y.b)])
        return h
    b_sub = lambda d, p, q: b_and(d, p, inv(known(d, q)))
    for s, op in (("&", b_and), ("|", b_or), ("^", b_xor), ("-", b_sub)):
        h = bitop(op)
        M.add("boost::operator" + s, lambda I, fn, this, a, h=h: h(I, bs(a[0]), bs(a[1])))

        def asg(I, fn, this, a, h=h):
            this.v = h(I, bs(this), bs(a[0]))
            return this
        M.add(P + "operator%s=" % s, asg)

    def at(I, fn, this, a):
        x = bs(this)
        i = as_index(I, val(a[0]))
        chk(x, i)
        if fn.get("const"):
            return bool(known(I.dom, x.b[i])) if not isinstance(known(I.dom, x.b[i]), Bit) else x.b[i]
        return Ref(this, i)
    M.add(P + "operator[] " + P + "at", at)
    M.add(P + "test", lambda I, fn, this, a: (chk(bs(this), val(a[0])), bool(decide(I.dom, bs(this).b[val(a[0])])))[1])

    def rd(r):
        r = val(r)
        x = bs(r.bits)
        chk(x, r.i)
        return x.b[r.i]

    def ref_bool(I, fn, this, a):
        b = known(I.dom, rd(this))
        return b if isinstance(b, Bit) else bool(b)
    M.table[P + "reference::operator bool"] = ref_bool
    M.add(P + "reference::operator~", lambda I, fn, this, a: not decide(I.dom, rd(this)))

    def ref_set(I, fn, this, a):
        r = val(this)
        v = val(a[0])
        v = rd(a[0]) if isinstance(v, Ref) else to_bit(v)
        bs(r.bits).b[r.i] = v
        return this
    M.add(P + "reference::operator=", ref_set)

    def ref_op(op):
        def f(I, fn, this, a):
            r = val(this)
            bs(r.bits).b[r.i] = op(I.dom, rd(this), to_bit(val(a[0])))
            return this
        return f
    M.add(P + "reference::operator|=", ref_op(b_or))
    M.add(P + "reference::operator&=", ref_op(b_and))
    M.add(P + "reference::operator^=", ref_op(b_xor))

    def ref_flip(I, fn, this, a):
        r = val(this)
        bs(r.bits).b[r.i] = inv(bs(r.bits).b[r.i])
        return this
    M.add(P + "reference::flip", ref_flip)

    def eq(I, x, y):
        if len(x.b) != len(y.b):
            return False
        return compare(I.dom, x, y) == 0
    M.add("boost::operator==", lambda I, fn, this, a: eq(I, bs(a[0]), bs(a[1])))
    M.add("boost::operator!=", lambda I, fn, this, a: not eq(I, bs(a[0]), bs(a[1])))
    M.add("boost::operator<", lambda I, fn, this, a: compare(I.dom, bs(a[0]), bs(a[1])) < 0)
    M.add("boost::operator>", lambda I, fn, this, a: compare(I.dom, bs(a[0]), bs(a[1])) > 0)
    M.add("boost::operator<=", lambda I, fn, this, a: compare(I.dom, bs(a[0]), bs(a[1])) <= 0)
    M.add("boost::operator>=", lambda I, fn, this, a: compare(I.dom, bs(a[0]), bs(a[1])) >= 0)
    NPOS = (1 << 64) - 1

    def find_from(I, x, k):
        for i in range(k, len(x.b)):
            if decide(I.dom, x.b[i]):
                return i
        return NPOS
    M.add(P + "find_first", lambda I, fn, this, a: find_from(I, bs(this), 0))
    M.add(P + "find_next", lambda I, fn, this, a: find_from(I, bs(this), val(a[0]) + 1 if val(a[0]) < NPOS else NPOS))

    def subset(I, fn, this, a):
        x, y = bs(this), bs(a[0])
        if len(x.b) != len(y.b):
            raise AssertFail("is_subset_of on bitsets of different sizes")
        for p, q in zip(x.b, y.b):
            if decide(I.dom, p) and not decide(I.dom, q):
                return False
        return True
    M.add(P + "is_subset_of", subset)

    def to_string(I, fn, this, a):
        a[1].v = Str("".join(str(decide(I.dom, b)) for b in reversed(bs(a[0]).b)))
    M.add("boost::to_string", to_string)

    # exported integers: the value carries its magnitude as blocks of opaque bits
    def export(I, fn, this, a):
        mag = I.dom.magnitude_blocks(val(a[6]).cell().v)
        order, size, endian = val(a[2]), val(a[3]), val(a[4])
        if order != -1 or size != 8:
            raise Unsupported("mpz_export layout")
        dst = val(a[0])
        for k, blk in enumerate(mag):
            Ptr(dst.base, dst.idx + k).cell().v = blk
        if val(a[1]) is not None:
            val(a[1]).cell().v = len(mag)
        return dst
    M.add("__gmpz_export", export)
    M.add("__gmpz_sizeinbase", lambda I, fn, this, a: max(1, BLOCK * len(I.dom.magnitude_blocks(val(a[0]).cell().v))))
