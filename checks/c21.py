"""C21: bit-vector term and constraint construction, folding, classification."""
import itertools
import bits, containers, iv
from bits import Bit, Bits, decide, known
from c20 import setup, atoms, bv, raw, num, same, of_int, signed, sdiv, srem, smod, shifted
from interp import Cell, Struct, Ptr, Unsupported, val, copyval
from models import Vec, Pair
from session import pmap

UN = {  # name -> (needs index, value on integers, width)
    "NOT": (False, lambda x, w, i: ~x, lambda w, i: w), "NEG": (False, lambda x, w, i: -x, lambda w, i: w),
    "LROTATE": (True, lambda x, w, i: sum(((x >> ((k - i) % w)) & 1) << k for k in range(w)), lambda w, i: w),
    "RROTATE": (True, lambda x, w, i: sum(((x >> ((k + i) % w)) & 1) << k for k in range(w)), lambda w, i: w),
    "REPEAT": (True, lambda x, w, i: sum(x << (w * k) for k in range(i)), lambda w, i: w * i),
    "EXT_U": (True, lambda x, w, i: x, lambda w, i: w + i), "EXT_S": (True, lambda x, w, i: signed(x, w), lambda w, i: w + i),
}


def ashr(a, b, w):
    return signed(a, w) >> min(b, w)


BIN = {
    "CONCAT": lambda a, b, w: None, "AND": lambda a, b, w: a & b, "OR": lambda a, b, w: a | b, "XOR": lambda a, b, w: a ^ b,
    "NAND": lambda a, b, w: ~(a & b), "NOR": lambda a, b, w: ~(a | b), "XNOR": lambda a, b, w: ~(a ^ b),
    "ADD": lambda a, b, w: a + b, "SUB": lambda a, b, w: a - b, "MUL": lambda a, b, w: a * b,
    # SMT-LIB 2.6: bvudiv by zero is all ones, bvurem by zero the dividend; the signed ones follow by definition
    "DIV_U": lambda a, b, w: a // b if b else -1, "MOD_U": lambda a, b, w: a % b if b else a,
    "DIV_S": lambda a, b, w: sdiv(a, b, w) if b else (1 if signed(a, w) < 0 else -1),
    "MOD_S1": lambda a, b, w: srem(a, b, w) if b else a, "MOD_S2": lambda a, b, w: smod(a, b, w) if b else a,
    "EQ": lambda a, b, w: int(a == b), "LSHIFT": lambda a, b, w: a << min(b, w), "RSHIFT_LOGIC": lambda a, b, w: a >> min(b, w),
    "RSHIFT_ARITH": ashr,
}
REL = {"EQ": lambda a, b, w: a == b, "NEQ": lambda a, b, w: a != b, "ULT": lambda a, b, w: a < b, "ULE": lambda a, b, w: a <= b,
       "UGT": lambda a, b, w: a > b, "UGE": lambda a, b, w: a >= b,
       "SLT": lambda a, b, w: signed(a, w) < signed(b, w), "SLE": lambda a, b, w: signed(a, w) <= signed(b, w),
       "SGT": lambda a, b, w: signed(a, w) > signed(b, w), "SGE": lambda a, b, w: signed(a, w) >= signed(b, w)}


def bvwidth(op, w, v):
    return w + v if op == "CONCAT" else 1 if op == "EQ" else w


def session():
    sess = setup("bvterm.cpp")
    containers.register(sess.models)
    I = sess.I
    I.override("carl::SortManager::getType", lambda I, fn, this, a: sess.prog.enum_by_name["carl::VariableType"]["VT_BITVECTOR"])
    I.override("carl::SortManager::getIndices", lambda I, fn, this, a: Ptr(Cell(Vec([Cell(only(val(a[0])).v)]))))
    for f in sess.prog.fns.values():
        if f["qn"] == "carl::Singleton::getInstance" and "SortManager" in f["sig"]:
            f["_model"] = lambda I, fn, this, a: Cell(None)
    return sess


def only(s):
    """the single data member"""
    if len(s.f) != 1:
        raise Unsupported("representation of %s" % s.rec["name"])
    return next(iter(s.f.values()))


def record(sess, name):
    for r in sess.prog.recs.values():
        if r["name"] == name and "fields" in r:
            return r
    raise Unsupported("record %s not found" % name)


def variable(sess, n, w):
    v = sess.I.default_struct(record(sess, "carl::Variable"), True)
    only(v).v = n * 8 + 4
    s = sess.I.default_struct(record(sess, "carl::Sort"), True)
    only(s).v = w
    return sess.I.call_root("q_bvvar", Cell(v), Cell(s))


def run(chk):
    chk.rule("every operator over constants folds to the SMT-LIB value of the prescribed width, including division by zero (all operand values, widths 1 to 3)")
    chk.rule("terms with a non-constant operand either keep operator, operands and indices or are an equal term; width is that of the sort; "
             "substituting constants for the variables gives the folded value")
    chk.rule("every operator is exactly one of constant/variable, unary, binary, extraction; constructing it with its own arity never fails an assertion")
    chk.rule("a constraint over constants folds to its truth value; otherwise relation and sides are kept; equal constructions are identical objects")
    chk.assume("operand widths 1 to 3 (the folding code selects an operation by operator and zero-ness; the operations themselves are decided for larger widths by C20)")
    sess = session()
    I, dom = sess.I, sess.dom
    E = sess.prog.enum_by_name
    K, R = E["carl::BVTermType"], E["carl::BVCompareRelation"]
    expect = set(UN) | set(BIN) | {"CONSTANT", "VARIABLE", "EXTRACT"}
    if set(K) != expect or set(R) != set(REL):
        chk.error("operators changed: %s" % sorted(set(K) ^ expect))
        return
    jobs = []

    def job(q, desc, body):
        jobs.append((q, desc, body))

    def call(q, *a):
        return I.call_root(q, *[Cell(x) if isinstance(x, (Struct, Bits, Vec)) else x for x in a])

    def const(b):
        return call("q_const", bv(sess, b))

    def value(t):
        return raw(sess, call("q_value", t))

    def var(n, w):
        return call("q_var", variable(sess, n, w))

    def is_value(t, n, w):
        """t is the constant n of width w"""
        if call("q_type", t) != K["CONSTANT"] or call("q_width", t) != w:
            return False, "type %s width %s" % (call("q_type", t), call("q_width", t))
        r = value(t)
        return same(dom, r, of_int(n, w)), repr(r)
    # classification
    for k in K:
        for q, cls in (("q_isUnary", UN), ("q_isBinary", BIN)):
            job(q, "%s(%s)" % (q[2:], k), lambda k=k, q=q, cls=cls: ((bool(call(q, K[k])) == (k in cls)), str(call(q, K[k]))))
    W = (1, 2, 3)
    for op, (idx, f, wf) in UN.items():
        for w in W:
            for i in ((1, 2, 3, 5) if op == "REPEAT" else (0, 1, 2, 3, 5) if idx else (0,)):
                def fold(op=op, f=f, wf=wf, w=w, i=i):
                    a = atoms("a", w)
                    t = call("q_un", K[op], const(a), i)
                    return is_value(t, f(num(dom, a), w, i), wf(w, i))
                job("q_un", "%s(constant, %d), width %d" % (op, i, w), fold)

                def keep(op=op, f=f, wf=wf, w=w, i=i):
                    x = var(1, w)
                    t = call("q_un", K[op], x, i)
                    if call("q_width", t) != wf(w, i):
                        return False, "width %s" % call("q_width", t)
                    a = atoms("a", w)
                    s = call("q_subst", t, mapping([(variable(sess, 1, w), const(a))]))
                    ok, txt = is_value(s, f(num(dom, a), w, i), wf(w, i))
                    if not ok:
                        return False, "after substitution " + txt
                    return call("q_type", t) == K[op] and I.truth(call("q_teq", call("q_operand", t), x)) and call("q_index", t) == i, "operator or operand lost"
                job("q_un", "%s(variable, %d), width %d" % (op, i, w), keep)

    def mapping(ps):
        m = sess.models.opaque_record(I, maprec)
        for k, v in ps:
            m.cells.append(Cell(Pair(k, v)))
        return m
    maprec = sess.prog.recs[I.strip(sess.prog.roots["q_subst"]["params"][1]["t"])["rec"]]
    for op, f in BIN.items():
        for w in W:
            for v in (W if op == "CONCAT" else (w,)):
                fv = (lambda a, b, w, v=v: (a << v) | b) if op == "CONCAT" else f
                rw = bvwidth(op, w, v)

                def fold(op=op, fv=fv, w=w, v=v, rw=rw):
                    a, b = atoms("a", w), atoms("b", v)
                    t = call("q_bin", K[op], const(a), const(b))
                    x, y = num(dom, a), num(dom, b)
                    ok, txt = is_value(t, fv(x, y, w), rw)
                    return ok, "%s for %d, %d" % (txt, x, y)
                job("q_bin", "%s(constants), widths %d, %d" % (op, w, v), fold)
                for left, right in (("v", "v"), ("v", "c"), ("c", "v")):
                    if v > 2 or w > 2:
                        continue

                    def keep(op=op, fv=fv, w=w, v=v, rw=rw, left=left, right=right):
                        a, b = atoms("a", w), atoms("b", v)
                        x = var(1, w) if left == "v" else const(a)
                        y = var(2, v) if right == "v" else const(b)
                        t = call("q_bin", K[op], x, y)
                        if call("q_width", t) != rw:
                            return False, "width %s" % call("q_width", t)
                        s = call("q_subst", t, mapping([(variable(sess, 1, w), const(a)), (variable(sess, 2, v), const(b))]))
                        n, m = num(dom, a), num(dom, b)
                        ok, txt = is_value(s, fv(n, m, w), rw)
                        if not ok:
                            return False, "after substituting %d, %d: %s" % (n, m, txt)
                        if call("q_type", t) == K[op]:
                            return I.truth(call("q_teq", call("q_first", t), x)) and I.truth(call("q_teq", call("q_second", t), y)), "operands lost"
                        return True, ""
                    job("q_bin", "%s(%s, %s), widths %d, %d" % (op, left, right, w, v), keep)
    for w in W:
        for h in range(w):
            for l in range(h + 1):
                def fold(w=w, h=h, l=l):
                    a = atoms("a", w)
                    t = call("q_ext", K["EXTRACT"], const(a), h, l)
                    return is_value(t, num(dom, a) >> l, h - l + 1)
                job("q_ext", "EXTRACT(constant, %d, %d), width %d" % (h, l, w), fold)

                def keep(w=w, h=h, l=l):
                    x = var(1, w)
                    t = call("q_ext", K["EXTRACT"], x, h, l)
                    a = atoms("a", w)
                    s = call("q_subst", t, mapping([(variable(sess, 1, w), const(a))]))
                    ok, txt = is_value(s, num(dom, a) >> l, h - l + 1)
                    if not ok or call("q_width", t) != h - l + 1:
                        return False, "after substitution " + txt
                    return (call("q_type", t) == K["EXTRACT"] and I.truth(call("q_teq", call("q_operand", t), x))
                            and call("q_highest", t) == h and call("q_lowest", t) == l), "operand or range lost"
                job("q_ext", "EXTRACT(variable, %d, %d), width %d" % (h, l, w), keep)
    # variables occurring in a term
    for op in BIN:
        def gather(op=op):
            t = call("q_bin", K[op], var(1, 2), call("q_ext", K["EXTRACT"], call("q_un", K["NOT"], var(2, 3), 0), 1, 0))
            s = val(call("q_vars", t))
            got = sorted(only(c.v.f[next(iter(c.v.f))].v).v for c in s.cells)
            return got == [1 * 8 + 4, 2 * 8 + 4], repr(got)
        job("q_vars", "variables of %s term" % op, gather)
    # interning
    def intern():
        a = atoms("a", 2)
        ts = [const(a), const(a), var(1, 2), var(1, 2), var(2, 2)]
        eq = lambda i, j: I.truth(call("q_teq", ts[i], ts[j]))
        return eq(0, 1) and eq(2, 3) and not eq(0, 2) and not eq(2, 4), "identity of equal constants / variables"
    job("q_const", "equal constants and variables are one object", intern)
    for o1, o2 in itertools.product(BIN, BIN):
        def intern2(o1=o1, o2=o2):
            x, y = var(1, 2), var(2, 2)
            t1, t2, t3 = call("q_bin", K[o1], x, y), call("q_bin", K[o2], x, y), call("q_bin", K[o1], y, x)
            e = I.truth(call("q_teq", t1, t2))
            return e == (o1 == o2) and not I.truth(call("q_teq", t1, t3)), "%s and %s interned as %s" % (o1, o2, "one" if e else "two")
        job("q_bin", "interning of %s and %s" % (o1, o2), intern2)
    # constraints
    for r, f in REL.items():
        for w in W:
            def cfold(r=r, f=f, w=w):
                a, b = atoms("a", w), atoms("b", w)
                c = call("q_constr", R[r], const(a), const(b))
                t, n = I.truth(call("q_cTrue", c)), I.truth(call("q_cFalse", c))
                x, y = num(dom, a), num(dom, b)
                return (t, n) == (f(x, y, w), not f(x, y, w)), "true=%s false=%s for %d %s %d" % (t, n, x, r, y)
            job("q_constr", "%s(constants), width %d" % (r, w), cfold)
        for left, right in (("v", "v"), ("v", "c"), ("c", "v")):
            def ckeep(r=r, left=left, right=right):
                a = atoms("a", 2)
                x = var(1, 2) if left == "v" else const(a)
                y = var(2, 2) if right == "v" else const(a)
                c = call("q_constr", R[r], x, y)
                d = call("q_constr", R[r], x, y)
                ok = (not I.truth(call("q_cConst", c)) and call("q_crel", c) == R[r] and I.truth(call("q_teq", call("q_cl", c), x))
                      and I.truth(call("q_teq", call("q_cr", c), y)) and call("q_cid", c) == call("q_cid", d) != 0)
                return ok, "relation, sides or identity lost"
            job("q_constr", "%s(%s, %s)" % (r, left, right), ckeep)
    for b in (True, False):
        def tv(b=b):
            c = call("q_truth", b)
            return (I.truth(call("q_cTrue", c)), I.truth(call("q_cFalse", c))) == (b, not b), ""
        job("q_truth", "create(%s)" % b, tv)

    def work(i):
        q, desc, body = jobs[i]
        yield from iv.decide(sess, lambda: sess.world({}, 0), q, body, desc, "SMT-LIB meaning")
    pmap(chk, sess, range(len(jobs)), work)
    for q, n in (("un", 100), ("bin", 1000), ("constr", 500), ("isUnary", 25), ("ext", 20)):
        chk.require("obligations " + q, n)
