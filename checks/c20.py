"""C20: bit-vector values.  Bits are opaque atoms; the state splits when the code inspects one."""
import bits, iv
from bits import Bit, Bits, Block, inv, known, decide
from interp import Cell, Struct, Ptr, Unsupported, val
from models import Str
from session import Session, pmap


def setup(driver="bv.cpp"):
    sess = Session(driver)
    bits.register(sess.models)
    sess.dom.magnitude_blocks = lambda v: v.blocks if isinstance(v, BigInt) else const_blocks(v)
    return sess


class BigInt:
    pass


def const_blocks(v):
    n, out = abs(int(v)), []
    while n:
        out.append(int(n & ((1 << 64) - 1)))
        n >>= 64
    return out


def atoms(name, w, fixed=None):
    """w opaque bits; fixed: positions with a given value"""
    return Bits([fixed[i] if fixed and i in fixed else Bit("%s%d" % (name, i)) for i in range(w)])


def bv(sess, b):
    return sess.I.call_root("q_make", Cell(b.copy()))


def raw(sess, v):
    b = sess.I.call_root("q_base", Cell(v))
    b = val(b)
    if not isinstance(b, Bits):
        raise Unsupported("bit-vector representation")
    return b


def num(dom, b):
    """integer value; decides all bits"""
    return sum(decide(dom, x) << i for i, x in enumerate(b.b))


def same(dom, b, exp):
    """pointwise comparison with the expected bits; opaque bits must be the same atom"""
    if len(b.b) != len(exp):
        return False
    for x, y in zip(b.b, exp):
        x, y = known(dom, x), known(dom, y)
        if x != y and decide(dom, x) != decide(dom, y):
            return False
    return True


def of_int(n, w):
    return [(n >> i) & 1 for i in range(w)]


def signed(n, w):
    return n - (1 << w) if n >> (w - 1) & 1 else n


# SMT-LIB semantics on integers
def sdiv(a, b, w):
    x, y = signed(a, w), signed(b, w)
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q


def srem(a, b, w):
    x, y = signed(a, w), signed(b, w)
    r = abs(x) % abs(y)
    return -r if x < 0 else r


def smod(a, b, w):
    x, y = signed(a, w), signed(b, w)
    return x % y            # sign follows the divisor


ARITH = {
    "add": lambda a, b, w: a + b, "sub": lambda a, b, w: a - b, "mul": lambda a, b, w: a * b,
    "udiv": lambda a, b, w: a // b, "urem": lambda a, b, w: a % b, "sdiv": sdiv, "srem": srem, "smod": smod,
}
DIVS = ("udiv", "urem", "sdiv", "srem", "smod")


def shifted(x, n, left, fill):
    w = len(x)
    if left:
        return [x[i - n] if i >= n else 0 for i in range(w)]
    return [x[i + n] if i + n < w else fill for i in range(w)]


def run(chk):
    chk.rule("bits are opaque atoms; an abstract path is complete for the bits the code inspects; the result must be, bit for bit, the SMT-LIB value "
             "(moves, extensions, rotations, extractions, shifts: all widths listed, all bit values)")
    chk.rule("addition, subtraction, multiplication, negation, division, remainder, modulo: every abstract path of every width up to 4, and widths 8 and 66 with six to ten free bits")
    chk.assume("widths are enumerated: 1-5, 8, 63-66, 70, 130 for moves; the code treats all bit positions uniformly (loops over positions), "
               "machine-word boundaries are inside boost::dynamic_bitset, which is modelled")
    sess = setup()
    dom = sess.dom
    jobs = []

    def job(q, desc, body, key=None):
        jobs.append((q, desc, body))

    def unary(q, w, args, exp, desc):
        def body():
            a = atoms("a", w)
            r = raw(sess, sess.I.call_root(q, Cell(bv(sess, a)), *args))
            return same(dom, r, exp(a.b)), repr(r)
        job(q, desc, body)
    W = (1, 2, 3, 4, 5, 8, 63, 64, 65, 70)
    for w in W:
        unary("q_not", w, (), lambda x: [inv(b) for b in x], "~a, width %d" % w)
        for n in sorted({0, 1, 2, w - 1, w, w + 1, 2 * w, 2 * w + 3, 64}):
            unary("q_rotl", w, (n,), lambda x, n=n: [x[(i - n) % len(x)] for i in range(len(x))], "rotateLeft(a, %d), width %d" % (n, w))
            unary("q_rotr", w, (n,), lambda x, n=n: [x[(i + n) % len(x)] for i in range(len(x))], "rotateRight(a, %d), width %d" % (n, w))
            unary("q_extu", w, (n,), lambda x, n=n: list(x) + [0] * n, "extendUnsignedBy(a, %d), width %d" % (n, w))
            unary("q_exts", w, (n,), lambda x, n=n: list(x) + [x[-1]] * n, "extendSignedBy(a, %d), width %d" % (n, w))
        for n in (1, 2, 3):
            unary("q_repeat", w, (n,), lambda x, n=n: list(x) * n, "repeat(a, %d), width %d" % (n, w))
        ps = range(w) if w <= 5 else sorted({0, 1, w // 2, w - 2, w - 1, 62, 63, 64} & set(range(w)))
        for h in ps:
            for l in ps:
                if l <= h:
                    unary("q_extract", w, (h, l), lambda x, h=h, l=l: x[l:h + 1], "extract(a, %d, %d), width %d" % (h, l, w))
        for i in ps:
            def at(w=w, i=i):
                a = atoms("a", w)
                r = sess.I.call_root("q_at", Cell(bv(sess, a)), i)
                r = r if isinstance(r, Bit) else int(r)
                return same(dom, Bits([r]), [a.b[i]]), repr(r)
            job("q_at", "a[%d], width %d" % (i, w), at)

            def put(w=w, i=i):
                a = atoms("a", w)
                r = raw(sess, sess.I.call_root("q_put", Cell(bv(sess, a)), i, Bit("v")))
                return same(dom, r, a.b[:i] + [Bit("v")] + a.b[i + 1:]), repr(r)
            job("q_put", "a[%d] = v, width %d" % (i, w), put)

        def width(w=w):
            r = sess.I.call_root("q_width", Cell(bv(sess, atoms("a", w))))
            return r == w, repr(r)
        job("q_width", "width of %d bits" % w, width)
        if w <= 5 or w == 65:
            def zero(w=w):
                a = atoms("a", w, {i: 0 for i in range(1, w - 2)})
                r = sess.I.call_root("q_isZero", Cell(bv(sess, a)))
                return sess.I.truth(r) == (num(dom, a) == 0), repr(r)
            job("q_isZero", "isZero, width %d" % w, zero)
        for v in (1, 2, 3, 64, 65):
            def cat(w=w, v=v):
                a, b = atoms("a", w), atoms("b", v)
                r = raw(sess, sess.I.call_root("q_concat", Cell(bv(sess, a)), Cell(bv(sess, b))))
                return same(dom, r, b.b + a.b), repr(r)
            job("q_concat", "concat of widths %d, %d" % (w, v), cat)
        for op, f in (("and", bits.b_and), ("or", bits.b_or), ("xor", bits.b_xor)):
            def bitw(w=w, op=op, f=f):
                # four opaque positions, the rest covers the constant combinations
                ps = {0, w - 1}
                a = atoms("a", w, {i: i & 1 for i in range(w) if i not in ps})
                b = atoms("b", w, {i: (i >> 1) & 1 for i in range(w) if i not in ps})
                r = raw(sess, sess.I.call_root("q_" + op, Cell(bv(sess, a)), Cell(bv(sess, b))))
                return same(dom, r, [f(dom, x, y) for x, y in zip(a.b, b.b)]), repr(r)
            job("q_" + op, "a %s b, width %d" % (op, w), bitw)
    # shifts: the amount is a bit vector of its own, of the same or another width
    for q, left, arith in (("q_shl", True, False), ("q_lshr", False, False), ("q_ashr", False, True)):
        for w in (1, 2, 3, 4, 5, 6, 7, 8, 9):
            for v in (1, 2, w, w + 1):
                def sh(w=w, v=v, q=q, left=left, arith=arith):
                    a, b = atoms("a", w), atoms("b", v)
                    r = raw(sess, sess.I.call_root(q, Cell(bv(sess, a)), Cell(bv(sess, b))))
                    n = num(dom, b)
                    fill = known(dom, a.b[-1]) if arith else 0
                    return same(dom, r, shifted(a.b, n, left, fill)), "%r for shift amount %d" % (r, n)
                job(q, "shift of width %d by width %d" % (w, v), sh)
        for w in (64, 65, 66, 130):
            def sh(w=w, q=q, left=left, arith=arith):
                a, b = atoms("a", w), atoms("b", w, {i: 0 for i in range(w) if i not in (0, 5, 6, 7, 8, 64, w - 1)})
                r = raw(sess, sess.I.call_root(q, Cell(bv(sess, a)), Cell(bv(sess, b))))
                n = num(dom, b)
                fill = known(dom, a.b[-1]) if arith else 0
                return same(dom, r, shifted(a.b, n, left, fill)), "%r for shift amount %d" % (r, n)
            job(q, "shift of width %d" % w, sh)
    # arithmetic
    for op, f in ARITH.items():
        for w in (1, 2, 3, 4):
            def ar(op=op, f=f, w=w):
                a, b = atoms("a", w), atoms("b", w)
                if op in DIVS and num(dom, b) == 0:
                    return True, "division by zero is outside the contract"
                r = raw(sess, sess.I.call_root("q_" + op, Cell(bv(sess, a)), Cell(bv(sess, b))))
                x, y = num(dom, a), num(dom, b)
                return same(dom, r, of_int(f(x, y, w), w)), "%r for %d %s %d" % (r, x, op, y)
            job("q_" + op, "a %s b, width %d" % (op, w), ar)
    for op in ("add", "sub"):
        def arw(op=op, w=66):
            free = {0, 62, 63, 64, 65}
            a = atoms("a", w, {i: 1 for i in range(w) if i not in free})
            b = atoms("b", w, {i: 0 for i in range(w) if i not in free})
            r = raw(sess, sess.I.call_root("q_" + op, Cell(bv(sess, a)), Cell(bv(sess, b))))
            x, y = num(dom, a), num(dom, b)
            return same(dom, r, of_int(ARITH[op](x, y, w), w)), "%r for %d %s %d" % (r, x, op, y)
        job("q_" + op, "a %s b, width 66" % op, arw)
    for op in ("mul",) + DIVS:
        for w, fa, fb in ((8, {0, 3, 7}, {0, 2, 7}), (66, {0, 63, 65}, {0, 64, 65})):
            def arw(op=op, w=w, fa=fa, fb=fb):
                a = atoms("a", w, {i: i & 1 for i in range(w) if i not in fa})
                b = atoms("b", w, {i: 0 for i in range(w) if i not in fb})
                if op in DIVS and num(dom, b) == 0:
                    return True, "division by zero is outside the contract"
                r = raw(sess, sess.I.call_root("q_" + op, Cell(bv(sess, a)), Cell(bv(sess, b))))
                x, y = num(dom, a), num(dom, b)
                return same(dom, r, of_int(ARITH[op](x, y, w), w)), "%r for %d %s %d" % (r, x, op, y)
            job("q_" + op, "a %s b, width %d" % (op, w), arw)
    for w in (1, 2, 3, 4, 6):
        def ng(w=w):
            a = atoms("a", w)
            r = raw(sess, sess.I.call_root("q_neg", Cell(bv(sess, a))))
            return same(dom, r, of_int(-num(dom, a), w)), repr(r)
        job("q_neg", "-a, width %d" % w, ng)
    for w in (1, 2, 3, 4):
        for v in (1, 2, 3, 4):
            for q in ("q_eq", "q_less"):
                if q == "q_less" and w != v:
                    continue

                def cm(w=w, v=v, q=q):
                    a, b = atoms("a", w), atoms("b", v)
                    r = sess.I.truth(sess.I.call_root(q, Cell(bv(sess, a)), Cell(bv(sess, b))))
                    x, y = num(dom, a), num(dom, b)
                    return r == ((x == y and w == v) if q == "q_eq" else x < y), "%r for %d, %d" % (r, x, y)
                job(q, "comparison of widths %d, %d" % (w, v), cm)
    # constructors
    for w in (1, 2, 3, 5, 63, 64, 65, 70):
        def cu(w=w):
            blk = Block([Bit("u%d" % i) for i in range(64)])
            r = raw(sess, sess.I.call_root("q_ctorU", w, blk))
            return same(dom, r, (blk.bits + [0] * w)[:w]), repr(r)
        job("q_ctorU", "BVValue(%d, word)" % w, cu)
    for w in (0, 1, 3, 5, 65):
        def cs(w=w):
            text = "".join("01"[(i * i) % 3 == 1] for i in range(w))
            r = raw(sess, sess.I.call_root("q_ctorS", Cell(Str(text))))
            return same(dom, r, [int(c) for c in reversed(text)]), repr(r)
        job("q_ctorS", "BVValue(string of %d digits)" % w, cs)

        def ts(w=w):
            a = Bits([(i * i) % 3 == 1 and 1 or 0 for i in range(w)])
            r = val(sess.I.call_root("q_str", Cell(bv(sess, a))))
            return r.s == "#b" + "".join(str(x) for x in reversed(a.b)), repr(r)
        job("q_str", "toString, width %d" % w, ts)
    for w in (1, 2, 3, 8, 63, 64, 65, 130):
        for k in range(0, 3):
            for sg in (1, -1):
                def cz(w=w, k=k, sg=sg):
                    v = MpzAtom(sg, k)
                    r = raw(sess, sess.I.call_root("q_ctorZ", w, Cell(v)))
                    return same(dom, r, v.twos(w)), repr(r)
                job("q_ctorZ", "BVValue(%d, %s integer of %d words)" % (w, "negative" if sg < 0 else "non-negative", k), cz)

    def work(i):
        q, desc, body = jobs[i]
        yield from iv.decide(sess, lambda: sess.world({}, 0), q, body, desc, "SMT-LIB meaning")
    install_mpz(sess)
    pmap(chk, sess, range(len(jobs)), work)
    for q, n in (("udiv", 200), ("smod", 200), ("shl", 100), ("ashr", 100), ("ctorZ", 40), ("concat", 40), ("extract", 100), ("add", 100)):
        chk.require("obligations " + q, n)


class MpzAtom:
    """integer with opaque magnitude: negative values n are given by the bits of -n-1
    (so that n+1 has magnitude -n-1), non-negative ones by their own bits"""

    def __init__(self, sign, words, plus=0):
        self.sign, self.words, self.plus = sign, words, plus
        self.bits = [Bit("m%d" % i) for i in range(64 * words)]

    def twos(self, w):
        x = (self.bits + [0] * w)[:w]
        return x if self.sign > 0 else [inv(b) for b in x]


def install_mpz(sess):
    M, dom = sess.models, sess.dom
    isnum, cp = dom.is_number, dom.cmp
    dom.is_number = lambda x: isinstance(x, MpzAtom) or isnum(x)

    def cmp_(a, b):
        if isinstance(a, MpzAtom) and b == 0:
            if a.sign < 0 and not a.plus:
                return -1
            # non-negative magnitude (or negative value plus one): zero exactly if all its bits are zero
            z = any(decide(dom, b_) for b_ in a.bits)
            return (1 if a.sign > 0 else -1) if z else 0
        return cp(a, b)
    dom.cmp = cmp_

    def blocks(v):
        if isinstance(v, MpzAtom):
            if v.sign < 0 and not v.plus:
                raise Unsupported("magnitude of a negative value")
            return [Block(v.bits[64 * k:64 * k + 64]) for k in range(v.words)]
        return const_blocks(v)
    dom.magnitude_blocks = blocks

    def init(I, fn, this, a):
        val(a[0]).cell().v = dom.const(0)

    def setz(I, fn, this, a):
        val(a[0]).cell().v = val(a[1]).cell().v

    def add_ui(I, fn, this, a):
        v = val(a[1]).cell().v
        if isinstance(v, MpzAtom):
            if v.sign < 0 and not v.plus and val(a[2]) == 1:
                v = MpzAtom(v.sign, v.words, 1)
            else:
                raise Unsupported("mpz_add_ui")
        else:
            v = dom.add(v, val(a[2]))
        val(a[0]).cell().v = v
    M.add("__gmpz_init", init)
    M.add("__gmpz_clear", lambda I, fn, this, a: None)
    M.add("__gmpz_set", setz)
    M.add("__gmpz_add_ui", add_ui)
