"""Abstract interpreter over the resolved AST exported by carlx.

The interpreter evaluates function bodies over whatever value domain the caller
supplies for numbers (see dom.py).  C integers, enums and booleans are tracked as
constants; numbers (gmp, floating point) are domain values.  Where a comparison is
not determined by the abstract state the domain splits the state (Paths.choose),
so that every abstract path is visited.  Anything not understood raises
Unsupported, which callers turn into an analysis error - never into a verdict.
"""
import json, re, sys
from fractions import Fraction

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class AssertFail(Exception):
    """an assert() of the analysed code fails on this abstract path"""


class CppThrow(Exception):
    def __init__(self, val, tname):
        self.val = val
        self.tname = tname


class Infeasible(Exception):
    """abstract path contradicts the assumptions of the partition"""


class Cell:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v

    def __repr__(self):
        return "&%r" % (self.v,)


class _Uninit:
    def __repr__(self):
        return "<uninit>"


UNINIT = _Uninit()


class Struct:
    __slots__ = ("rec", "f", "extra")

    def __init__(self, rec, f=None):
        self.rec = rec
        self.f = f if f is not None else {}
        self.extra = None

    def __repr__(self):
        return "%s{%s}" % (self.rec["name"].split("::")[-1], ", ".join(
            "%s=%r" % (k if isinstance(k, str) else "f%s" % k, c.v) for k, c in self.f.items()))

    def get(self, name):
        return self.f[self.rec["_byname"][name]].v

    def set(self, name, v):
        self.f[self.rec["_byname"][name]].v = v


class Arr:
    __slots__ = ("cells",)

    def __init__(self, cells):
        self.cells = cells


class Ptr:
    """pointer to a cell, or into an array"""
    __slots__ = ("base", "idx")

    def __init__(self, base, idx=0):
        self.base = base
        self.idx = idx

    def cell(self):
        if isinstance(self.base, Arr):
            if not 0 <= self.idx < len(self.base.cells):
                raise AssertFail("array index out of range")
            return self.base.cells[self.idx]
        if self.idx:
            raise Unsupported("pointer arithmetic on single object")
        return self.base

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.base is self.base and o.idx == self.idx

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((id(self.base), self.idx))


class FnRef:
    __slots__ = ("fn", "this")

    def __init__(self, fn, this=None):
        self.fn = fn
        self.this = this


class Native:
    """base class of natively modelled library objects (value semantics)"""

    def copy(self):
        raise Unsupported("copy of %s" % type(self).__name__)


def val(x):
    return x.v if type(x) is Cell else x


def copyval(v):
    if isinstance(v, Struct):
        s = Struct(v.rec)
        s.extra = v.extra
        refs = v.rec.get("_reffields", ())
        for k, c in v.f.items():
            s.f[k] = c if k in refs else Cell(copyval(c.v))
        return s
    if isinstance(v, Native):
        return v.copy()
    if isinstance(v, Arr):
        return Arr([Cell(copyval(c.v)) for c in v.cells])
    return v


# ---------------------------------------------------------------------------
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns, self.recs, self.types, self.vars, self.enums = {}, {}, {}, {}, {}
        for e in d["functions"] + d["more"]:
            k = e["kind"]
            if k == "fn":
                self.fns[e["id"]] = e
            elif k == "record":
                self.recs[e["id"]] = e
            elif k == "type":
                self.types[e["id"]] = e
            elif k == "var":
                self.vars[e["id"]] = e
            elif k == "enum":
                self.enums[e["id"]] = e
        self.roots = {self.fns[i]["name"]: self.fns[i] for i in d["roots"]}
        for r in self.recs.values():
            r["_byname"] = {}
            r["_reffields"] = set()
        for r in self.recs.values():
            for f in self.allfields(r):
                r["_byname"].setdefault(f["name"], f["id"])
                if self.types[f["t"]]["c"] in ("ref", "rref"):
                    r["_reffields"].add(f["id"])
        self.enum_by_name = {e["name"]: dict(e["consts"]) for e in self.enums.values()}
        # virtual dispatch tables
        self.overriders = {}
        for r in self.recs.values():
            for m in r.get("methods", ()):
                for o in m["overrides"]:
                    self.overriders.setdefault(o, []).append((r["id"], m["fn"]))

    def allfields(self, r):
        out = []
        for b in r.get("bases", ()):
            br = self.recs.get(b)
            if br:
                out += self.allfields(br)
        out += r.get("fields", ())
        return out

    def is_base(self, rid, base):
        if rid == base:
            return True
        return any(self.is_base(b, base) for b in self.recs.get(rid, {}).get("bases", ()))

    def enum_name(self, enum, v):
        for n, x in self.enum_by_name[enum].items():
            if x == v:
                return n
        return str(v)


# control flow signals
BREAK, CONTINUE = object(), object()


class Ret:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Env:
    __slots__ = ("vars", "this", "fn", "bind")

    def __init__(self, this, fn):
        self.vars = {}
        self.this = this
        self.fn = fn
        self.bind = None


class Interp:
    MAX_ITER = 3000

    def __init__(self, prog, dom, models):
        self.p = prog
        self.dom = dom
        self.models = models
        self.overrides = {}          # qualified name (exact) -> model
        self.compiled = {}
        self._ctors = self._ops = None
        self.globals = {}
        self.depth = 0
        self.stats = {"calls": 0}
        self.visited = set()
        self.trace_lines = None
        self.cur = None
        self.trace = None

    def reset(self):
        self.globals = {}
        self.depth = 0
        self.elements = {}           # cells of dynamic arrays -> (array, index)

    # ---- generic helpers for library models
    def coerce(self, v, t):
        """implicit conversion performed inside library templates"""
        ty = self.p.types[t]
        if ty["c"] == "float" and type(v) in (int, bool):
            return self.dom.const(int(v))
        if ty["c"] == "record" and self.p.recs[ty["rec"]]["name"].startswith("__gmp_expr") and type(v) in (int, bool):
            return self.dom.const(int(v))
        return v

    def construct(self, t, args):
        """construct an object of type t from already evaluated arguments"""
        ty = self.p.types[t]
        if ty["c"] != "record":
            if not args:
                return self.default_value(t, True)
            return self.coerce(copyval(val(args[0])), t)
        rec = self.p.recs[ty["rec"]]
        if len(args) == 1:
            v = val(args[0])
            if isinstance(v, Struct) and v.rec is rec:
                fn = self.own_copy(rec)
                if fn is None:
                    return copyval(v)
                c = Cell(self.default_struct(rec))
                self.invoke(fn, c, [args[0] if type(args[0]) is Cell else Cell(v)])
                return c.v
        c = Cell(self.default_struct(rec))
        fn = self.find_ctor(rec, args)
        if fn is None and len(args) == 2 and rec["name"].split("<")[0] == "std::pair":
            for i, x in enumerate((c.v.first, c.v.second)):
                x.v = self.construct(rec["targs"][i], [args[i]])
            return c.v
        if fn is None:
            if not args:
                return c.v
            v = self.coerce(copyval(val(args[0])), t)
            if len(args) == 1 and not isinstance(c.v, Struct):
                return v
            raise Unsupported("constructor of %s from %d arguments" % (rec["name"], len(args)))
        a = []
        for p, x in zip(fn["params"], args):
            if self.is_ref(p["t"]):
                a.append(x if type(x) is Cell else Cell(x))
            else:
                a.append(copyval(val(x)))
        for p in fn["params"][len(args):]:
            x = self.rv(p["d"])(Env(None, fn))
            if self.is_ref(p["t"]):
                a.append(x if type(x) is Cell else Cell(x))
            else:
                a.append(copyval(val(x)))
        self.invoke(fn, c, a)
        return c.v

    def ctors_of(self, rid):
        if self._ctors is None:
            self._ctors = {}
            for f in self.p.fns.values():
                if f.get("ctor"):
                    self._ctors.setdefault(f.get("rec"), []).append(f)
        return self._ctors.get(rid, ())

    def own_copy(self, rec):
        """the copy constructor the program itself defines, if any"""
        if "_copy" not in rec:
            rec["_copy"] = None
            for f in self.ctors_of(rec["id"]):
                if len(f["params"]) == 1 and "body" in f and not f.get("defaulted") and self.is_const_ref(f["params"][0]["t"], rec):
                    rec["_copy"] = f
        return rec["_copy"]

    def is_const_ref(self, t, rec):
        if not self.is_ref(t):
            return False
        ty = self.p.types[t]
        to = self.p.types[ty["to"]]
        return bool(to.get("const")) and to["c"] == "record" and to.get("rec") == rec["id"]

    def ops_of(self, op):
        if self._ops is None:
            self._ops = {}
            for f in self.p.fns.values():
                if f.get("op"):
                    self._ops.setdefault(f["op"], []).append(f)
        return self._ops.get(op, ())

    def find_ctor(self, rec, args):
        best = None
        for f in self.ctors_of(rec["id"]):
            if len(f["params"]) >= len(args) and all("d" in p for p in f["params"][len(args):]):
                if all(self.arg_fits(p["t"], x) for p, x in zip(f["params"], args)):
                    if best is None or "body" in f:
                        best = f
        return best

    def arg_fits(self, t, x):
        ty = self.strip(t)
        v = val(x)
        if ty["c"] == "record":
            rec = self.p.recs[ty["rec"]]
            if isinstance(v, Struct):
                return self.p.is_base(v.rec["id"], rec["id"])
            if rec["name"].startswith("__gmp_expr"):
                return self.dom.is_number(v)
            if not isinstance(v, Native):
                return False
            fits = getattr(v, "fits", None)
            if fits is None:
                return True
            n = rec.get("_plain")
            if n is None:
                n = rec["_plain"] = re.sub(r"\bstd::(__cxx11|__1|_V2|__detail|__debug)::", "std::", rec["name"].split("<")[0])
            if n not in fits:
                return False
            # a pointer to an object fits if the pointee type does
            p = getattr(v, "p", None)
            if isinstance(p, Ptr) and rec.get("targs") and isinstance(rec["targs"][0], int):
                o, to = p.cell().v, self.strip(rec["targs"][0])
                if isinstance(o, Struct) and to["c"] == "record":
                    return self.p.is_base(o.rec["id"], to["rec"])
            return True
        if ty["c"] in ("int", "enum", "bool"):
            return type(v) in (int, bool) or self.dom.is_number(v) or getattr(v, "integral", False)
        if ty["c"] == "float":
            return self.dom.is_number(v)
        if ty["c"] == "ptr":
            return v is None or isinstance(v, (Ptr, FnRef)) or isinstance(v, Native)
        return False

    def find_op(self, op, x, y):
        """operator visible in the exported program for two struct operands"""
        for f in self.ops_of(op):
            ps = [p["t"] for p in f["params"]]
            if "rec" in f and not f.get("static"):
                if len(ps) == 1 and isinstance(x, Struct) and self.p.is_base(x.rec["id"], f["rec"]) and self.arg_fits(ps[0], y):
                    return f, True
            elif len(ps) == 2 and self.arg_fits(ps[0], x) and self.arg_fits(ps[1], y):
                return f, False
        return None, False

    def call_op(self, op, cx, cy):
        f, member = self.find_op(op, cx.v, cy.v)
        if f is None:
            raise Unsupported("operator%s on %r, %r not found" % (op, cx.v, cy.v))
        def prep(p, c):
            return c if self.is_ref(p["t"]) else copyval(c.v)
        if member:
            return self.truth(val(self.invoke(f, cx, [prep(f["params"][0], cy)])))
        return self.truth(val(self.invoke(f, None, [prep(f["params"][0], cx), prep(f["params"][1], cy)])))

    def is_basic(self, v):
        return type(v) in (int, bool) or v is None or isinstance(v, (Ptr, FnRef)) or self.dom.is_number(v)

    def seq(self, v):
        from models import Pair, Tup, Vec
        if isinstance(v, Pair):
            return [v.first, v.second]
        if isinstance(v, (Tup, Vec)):
            return v.cells
        return None

    def equal(self, a, b):
        from models import Opt, Str, Smart, VecIt, Opaque
        x, y = val(a), val(b)
        if self.is_basic(x) and self.is_basic(y):
            if type(x) in (int, bool) and type(y) in (int, bool):
                return x == y
            return self.compare("==", x, y)
        sx, sy = self.seq(x), self.seq(y)
        if sx is not None and sy is not None:
            if len(sx) != len(sy):
                return False
            for p, q in zip(sx, sy):
                if not self.equal(p, q):
                    return False
            return True
        if isinstance(x, Opt) or isinstance(y, Opt):
            px = x.c if isinstance(x, Opt) else (None if isinstance(x, Opaque) else Cell(x))
            py = y.c if isinstance(y, Opt) else (None if isinstance(y, Opaque) else Cell(y))
            if px is None or py is None:
                return px is None and py is None
            return self.equal(px, py)
        if isinstance(x, Str) and isinstance(y, Str):
            return x.s == y.s
        if isinstance(x, Smart) or isinstance(y, Smart):
            px = x.p if isinstance(x, Smart) else x
            py = y.p if isinstance(y, Smart) else y
            return self.compare("==", px, py)
        if isinstance(x, VecIt) and isinstance(y, VecIt):
            return x.vec is y.vec and x.i == y.i
        e = getattr(x, "abstract_eq", None)
        if e is not None:
            return e(self, y)
        return self.call_op("==", a if type(a) is Cell else Cell(a), b if type(b) is Cell else Cell(b))

    def less(self, a, b):
        from models import Str, Opt
        x, y = val(a), val(b)
        if self.is_basic(x) and self.is_basic(y):
            if type(x) in (int, bool) and type(y) in (int, bool):
                return x < y
            return self.compare("<", x, y)
        sx, sy = self.seq(x), self.seq(y)
        if sx is not None and sy is not None:
            for p, q in zip(sx, sy):
                if self.less(p, q):
                    return True
                if self.less(q, p):
                    return False
            return len(sx) < len(sy)
        if isinstance(x, Str) and isinstance(y, Str):
            return x.s < y.s
        if isinstance(x, Opt) and isinstance(y, Opt):
            if y.c is None: return False
            if x.c is None: return True
            return self.less(x.c, y.c)
        e = getattr(x, "abstract_less", None)
        if e is not None:
            return e(self, y)
        return self.call_op("<", a if type(a) is Cell else Cell(a), b if type(b) is Cell else Cell(b))

    def assign(self, c, v):
        if isinstance(c.v, Struct) and isinstance(v, Struct):
            for k, d in c.v.f.items():
                if k in v.f:
                    d.v = v.f[k].v
            c.v.extra = v.extra
        else:
            c.v = v

    def plus(self, x, y):
        if type(x) is int and type(y) is int:
            return x + y
        if self.dom.is_number(x) or self.dom.is_number(y):
            return self.dom.add(x, y)
        raise Unsupported("accumulate on objects")

    def call_value(self, f, args):
        """call a function object / closure / function pointer with cells"""
        v = val(f)
        if isinstance(v, Ptr):
            v = v.cell().v
        if isinstance(v, FnRef):
            fn, this = v.fn, v.this
        elif isinstance(v, Struct):
            fn = None
            if isinstance(v.extra, list):
                return self.call_overloaded(v.extra, args)
            for g in self.ops_of("()"):
                if g.get("rec") == v.rec["id"] and len(g["params"]) == len(args) and ("body" in g or self.model_for(g)):
                    if all(self.arg_fits(p["t"], x) for p, x in zip(g["params"], args)):
                        fn = g
                        break
            if fn is None:
                raise Unsupported("call operator of %s" % v.rec["name"])
            this = f if type(f) is Cell else Cell(v)
        else:
            h = getattr(v, "call", None)
            if h is None:
                raise Unsupported("call of %r" % (v,))
            return h(self, args)
        a = []
        for p, x in zip(fn["params"], args):
            if self.is_ref(p["t"]):
                a.append(x if type(x) is Cell else Cell(x))
            else:
                a.append(copyval(val(x)))
        return self.invoke(fn, this, a)

    def call_overloaded(self, closures, args):
        """overload set built from closures: the non-template closure taking exactly this type, else the generic one"""
        best = None
        for cl in closures:
            for g in self.ops_of("()"):
                if g.get("rec") == cl.rec["id"] and len(g["params"]) == len(args) and "body" in g:
                    if all(self.arg_fits(p["t"], x) for p, x in zip(g["params"], args)):
                        exact = all(not isinstance(val(x), Struct) or self.strip(p["t"]).get("rec") == val(x).rec["id"] for p, x in zip(g["params"], args))
                        if not exact:
                            continue
                        rank = 0 if g.get("targs") else 1
                        if best is None or rank > best[0]:
                            best = (rank, g, cl)
        if best is None:
            raise Unsupported("no overload for %r" % (args,))
        _, g, cl = best
        a = [(x if type(x) is Cell else Cell(x)) if self.is_ref(p["t"]) else copyval(val(x)) for p, x in zip(g["params"], args)]
        return self.invoke(g, Cell(cl), a)

    # ---- types
    def T(self, t):
        return self.p.types[t]

    def is_ref(self, t):
        return self.p.types[t]["c"] in ("ref", "rref")

    def strip(self, t):
        ty = self.p.types[t]
        while ty["c"] in ("ref", "rref"):
            ty = self.p.types[ty["to"]]
        return ty

    def default_value(self, t, zero=False):
        ty = self.p.types[t]
        c = ty["c"]
        if c == "record":
            return self.default_struct(self.p.recs[ty["rec"]], zero)
        if c == "array":
            return Arr([Cell(self.default_value(ty["to"], zero)) for _ in range(ty.get("n", 0))])
        if not zero:
            return UNINIT
        if c in ("int", "enum"):
            return 0
        if c == "bool":
            return False
        if c == "float":
            return self.dom.const(0)
        if c in ("ptr", "nullptr"):
            return None
        return UNINIT

    def default_struct(self, rec, zero=False):
        m = self.models.record_default(self, rec)
        if m is not None:
            return m
        if rec.get("opaque"):
            return self.models.opaque_record(self, rec)
        s = Struct(rec)
        for f in self.p.allfields(rec):
            s.f[f["id"]] = Cell(self.default_value(f["t"], zero))
        return s

    # ---- calls
    def call_root(self, name, *args):
        self.depth = 0
        fn = self.p.roots.get(name)
        if fn is None:
            raise Unsupported("query %s missing" % name)
        a = []
        for p, x in zip(fn["params"], args):
            if self.is_ref(p["t"]) and type(x) is not Cell:
                x = Cell(x)
            a.append(x)
        r = self.invoke(fn, None, a)
        return r.v if type(r) is Cell else r

    def model_for(self, fn):
        m = fn.get("_model", 0)
        if m == 0:
            m = self.overrides.get(fn["qn"])
            if m is None:
                m = self.models.lookup(self, fn)
            fn["_model"] = m
        return m

    def override(self, qn, model):
        self.overrides[qn] = model
        for f in self.p.fns.values():
            if f["qn"] == qn:
                f["_model"] = model

    def invoke(self, fn, this, args):
        """this: Cell or None; args: Cell for reference params, plain values otherwise"""
        m = self.model_for(fn)
        if m is not None:
            return m(self, fn, this, args)
        if "body" not in fn:
            sp = fn.get("special")
            if sp in ("copyctor", "movector"):
                this.v = copyval(args[0].v)
                return None
            if sp in ("copyassign", "moveassign"):
                src = args[0].v
                if isinstance(this.v, Struct) and isinstance(src, Struct):
                    new = copyval(src)
                    for k, c in this.v.f.items():
                        if k in new.f:
                            c.v = new.f[k].v
                    this.v.extra = new.extra
                else:
                    this.v = copyval(src)
                return this
            if sp in ("defctor", "dtor"):
                return None
            raise Unsupported("no body and no model: %s %s" % (fn["qn"], fn["sig"]))
        c = self.compiled.get(fn["id"])
        if c is None:
            c = self.compile_fn(fn)
            self.compiled[fn["id"]] = c
        self.visited.add(fn["id"])
        self.stats["calls"] += 1
        self.depth += 1
        if self.depth > 400:
            raise Unsupported("call depth (recursion) in %s" % fn["qn"])
        try:
            return c(this, args)
        finally:
            self.depth -= 1

    def dispatch(self, fn, this):
        """virtual dispatch"""
        if not fn.get("virtual") or this is None or not isinstance(this.v, Struct):
            return fn
        rid = this.v.rec["id"]
        best, todo = fn, [fn["id"]]
        seen = set()
        while todo:
            o = todo.pop()
            for r, f in self.p.overriders.get(o, ()):
                if f in seen:
                    continue
                seen.add(f)
                todo.append(f)
                if self.p.is_base(rid, r):
                    b = self.p.fns[f]
                    if best is fn or self.p.is_base(b["rec"], best["rec"]):
                        best = b
        return best

    def compile_fn(self, fn):
        params = [(p["id"], self.is_ref(p["t"])) for p in fn["params"]]
        body = self.stmt(fn["body"])
        inits = None
        if fn.get("ctor"):
            inits = self.compile_inits(fn)
        isref = self.is_ref(fn["ret"])
        lam = fn.get("constexprLambdaCall") and "rec" in fn
        seterr = self

        def run(this, args):
            env = Env(this, fn)
            prev, seterr.cur = seterr.cur, fn
            v = env.vars
            if lam and this is not None and isinstance(this.v, Struct) and this.v.extra:
                v.update(this.v.extra[0])
                env.bind = this.v.extra[2]
                env.this = this.v.extra[1]
            for (pid, ref), a in zip(params, args):
                v[pid] = a if ref and type(a) is Cell else Cell(a.v if type(a) is Cell else a)
            if inits is not None:
                for i in inits:
                    i(env)
            r = body(env)
            seterr.cur = prev
            if type(r) is Ret:
                return r.v
            return None
        return run

    def compile_inits(self, fn):
        out = []
        for i in fn.get("inits", ()):
            if "field" in i:
                fid, ft = i["field"], i["ft"]
                if i.get("indirect"):
                    out.append(self._unsup("indirect member init"))
                    continue
                if self.is_ref(ft):
                    e = self.ref_arg(i["e"])

                    def f(env, fid=fid, e=e):
                        env.this.v.f[fid] = e(env)
                else:
                    if i["e"] is None:
                        continue
                    init = self.init_into(i["e"], ft)

                    def f(env, fid=fid, init=init):
                        init(env, env.this.v.f[fid])
                out.append(f)
            elif "base" in i:
                init = self.ctor_on_this(i["e"])
                out.append(init)
            elif i.get("delegating"):
                out.append(self.ctor_on_this(i["e"]))
        return out

    def ctor_on_this(self, e):
        k = e["k"]
        if k == "Ctor":
            args = self.args(e)
            fn = self.p.fns[e["fn"]]

            def f(env):
                rec = self.p.recs.get(fn["rec"])
                if rec is not None and rec.get("opaque") and self.model_for(fn) is None and not e["a"]:
                    return          # default construction of an opaque base
                a = args(env)
                if rec is not None and env.this.v.rec is not rec and "body" not in fn and fn.get("special") in ("copyctor", "movector"):
                    src = copyval(a[0].v)
                    for fl in self.p.allfields(rec):
                        env.this.v.f[fl["id"]] = src.f[fl["id"]]
                    return
                self.invoke(fn, env.this, a)
            return f
        if k == "InitList" and not e["a"]:
            return lambda env: None
        if k == "Zero":
            return lambda env: None
        return self._unsup("base init %s" % k)

    def init_into(self, e, t):
        """compile initialisation of an existing cell"""
        k = e["k"]
        ty = self.p.types[t]
        if k == "Ctor" and ty["c"] == "record":
            fn = self.p.fns[e["fn"]]
            if not (e.get("elidable") and fn.get("special") in ("copyctor", "movector")):
                rv = self.rv(e)

                def f(env, cell):
                    cell.v = rv(env)
                return f
        if k == "Ctor" and ty["c"] == "array":
            args = self.args(e)
            fn = self.p.fns[e["fn"]]

            def f(env, cell):
                for c in cell.v.cells:
                    self.invoke(fn, c, args(env))
            return f
        rv = self.rv(e)

        def f(env, cell):
            cell.v = rv(env)
        return f

    def _unsup(self, msg):
        def f(*a):
            raise Unsupported(msg)
        return f

    # ---- arguments
    def ref_arg(self, node):
        """expression bound to a reference: returns cell"""
        if node.get("lv"):
            return self.lv(node)
        rv = self.rv(node)
        return lambda env: Cell(rv(env))

    def args(self, node, skip=0, params=None):
        if params is None:
            params = self.p.fns[node["fn"]]["params"]
        al = node["a"][skip:]
        fs = []
        for i, a in enumerate(al):
            if i < len(params) and self.is_ref(params[i]["t"]):
                fs.append(self.ref_arg(a))
            elif i < len(params):
                fs.append(self.rv(a))
            else:
                fs.append(self.ref_arg(a) if a.get("lv") else self.rv(a))
        if not fs:
            return lambda env: []
        return lambda env: [f(env) for f in fs]

    # ---- expressions: lvalues (return Cell)
    def lv(self, n):
        m = getattr(self, "lv_" + n["k"], None)
        if m is None:
            # prvalue used as object: temporary
            rv = self.rv(n)
            return lambda env: Cell(rv(env))
        return m(n)

    def lv_Ref(self, n):
        d = n["d"]
        i = n.get("id")
        if d == "fn":
            fn = self.p.fns[n["fn"]]
            return lambda env: Cell(FnRef(fn))
        if d == "binding":
            def f(env):
                b = env.bind and env.bind.get(i)
                if b is None:
                    c = env.vars.get(i)
                    if c is None:
                        raise Unsupported("binding")
                    return c
                return b(env)
            return f
        if d == "enumc":
            v = int(n["v"])
            return lambda env: Cell(v)
        if d in ("global", "slocal"):
            return lambda env: self.global_cell(n, env)

        def f(env):
            try:
                return env.vars[i]
            except KeyError:
                raise Unsupported("unbound variable %s in %s" % (n["name"], env.fn["qn"]))
        return f

    def global_cell(self, n, env):
        i = n["id"]
        c = self.globals.get(i)
        if c is not None:
            return c
        if "const" in n:
            v = int(n["const"])
            if self.strip(n["t"])["c"] == "bool":
                v = bool(v)
            c = self.globals[i] = Cell(v)
            return c
        m = self.models.global_var(self, n)
        if m is not None:
            c = self.globals[i] = Cell(m)
            return c
        v = self.p.vars.get(i)
        if v is None:
            raise Unsupported("global %s" % n.get("qn", n["name"]))
        if "init" not in v:
            raise Unsupported("global without initialiser %s" % v["name"])
        if not self.strip(v["t"]).get("const") and not self.models.mutable_global_ok(self, v):
            pass
        if self.is_ref(v["t"]):
            c = self.ref_arg(v["init"])(Env(None, {"qn": v["name"]}))
            self.globals[i] = c
            return c
        c = Cell(self.default_value(v["t"], True))
        self.globals[i] = c
        c.v = self.rv(v["init"])(Env(None, {"qn": v["name"]}))
        return c

    def lv_Member(self, n):
        if n["d"] == "global":
            return lambda env: self.global_cell(n, env)
        if n["d"] == "enumc":
            v = int(n["v"])
            return lambda env: Cell(v)
        if n["d"] != "field":
            raise Unsupported("member " + n["name"])
        fid = n["id"]
        name = n["name"]
        if n["arrow"]:
            b = self.rv(n["b"])

            def f(env):
                p = b(env)
                if p is None:
                    raise AssertFail("null dereference ->%s" % name)
                o = p.cell().v
                return self.member_cell(o, fid, name)
            return f
        b = self.lv(n["b"])
        return lambda env: self.member_cell(b(env).v, fid, name)

    def member_cell(self, o, fid, name):
        if isinstance(o, Struct):
            c = o.f.get(fid)
            if c is not None:
                return c
            raise Unsupported("no field %s in %s" % (name, o.rec["name"]))
        m = getattr(o, "member", None)
        if m is not None:
            return m(name)
        if name in ("_mp_size", "_mp_num") and self.dom.is_number(o):
            # sign macros of the C interface look at the stored size
            return Cell(self.dom.cmp(o, self.dom.const(0)) if name == "_mp_size" else o)
        raise Unsupported("field %s of %r" % (name, o))

    def lv_This(self, n):
        rv = self.rv(n)
        return lambda env: Cell(rv(env))

    def lv_Cast(self, n):
        ck = n["ck"]
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion",
                  "UserDefinedConversion", "Dynamic", "LValueBitCast"):
            if ck == "Dynamic":
                raise Unsupported("dynamic_cast to reference")
            return self.lv(n["e"])
        rv = self.rv(n)
        return lambda env: Cell(rv(env))

    def lv_Un(self, n):
        op = n["op"]
        if op == "*":
            e = self.rv(n["e"])

            def f(env):
                p = e(env)
                if p is None:
                    raise AssertFail("null dereference")
                if isinstance(p, FnRef):
                    return Cell(p)
                return p.cell()
            return f
        if op in ("++", "--") and not n.get("post"):
            c = self.lv(n["e"])
            d = 1 if op == "++" else -1
            ty = self.strip(n["t"])

            def f(env):
                x = c(env)
                x.v = self.incr(x.v, d, ty)
                return x
            return f
        if op == "__extension__":
            return self.lv(n["e"])
        raise Unsupported("lvalue unary " + op)

    def incr(self, v, d, ty):
        if isinstance(v, Ptr):
            return Ptr(v.base, v.idx + d)
        if type(v) is int:
            return self.wrap(v + d, ty)
        if v is UNINIT:
            raise Unsupported("use of uninitialised value")
        if ty["c"] in ("int",):
            return self.dom.int_op("+", v, d, ty)
        return self.dom.add(v, self.dom.const(d))

    def lv_Bin(self, n):
        op = n["op"]
        if op == "=":
            a, b = self.lv(n["a"]), self.rv(n["b"])

            def f(env):
                x = b(env)
                c = a(env)
                c.v = x
                return c
            return f
        if op == ",":
            a, b = self.rv_discard(n["a"]), self.lv(n["b"])

            def f(env):
                a(env)
                return b(env)
            return f
        raise Unsupported("lvalue binary " + op)

    def lv_CAssign(self, n):
        a, b = self.lv(n["a"]), self.rv(n["b"])
        op = n["op"][:-1]
        ct = self.strip(n["ct"])
        lt = self.strip(n["a"]["t"])

        def f(env):
            y = b(env)
            c = a(env)
            x = c.v
            if isinstance(x, Ptr):
                c.v = Ptr(x.base, x.idx + (y if op == "+" else -y))
                return c
            r = self.binop(op, x, y, ct)
            c.v = self.convert_arith(r, ct, lt)
            return c
        return f

    def lv_Cond(self, n):
        c, a, b = self.cond(n["c"]), self.lv(n["a"]), self.lv(n["b"])
        return lambda env: a(env) if c(env) else b(env)

    def lv_Sub(self, n):
        a, b = self.rv(n["a"]), self.rv(n["b"])

        def f(env):
            p, i = a(env), b(env)
            if not isinstance(p, Ptr):
                p, i = i, p
            if not isinstance(p, Ptr) or type(i) is not int:
                raise Unsupported("array subscript")
            return Ptr(p.base, p.idx + i).cell()
        return f

    def lv_Call(self, n):
        c = self.callexpr(n)

        def f(env):
            r = c(env)
            return r if type(r) is Cell else Cell(r)
        return f
    lv_MCall = lv_OCall = lv_ICall = lv_Call

    def lv_Str(self, n):
        v = n["v"]
        return lambda env: Cell(self.models.string_literal(v))

    def lv_Wrap(self, n):
        return self.lv(n["e"])

    def lv_InitList(self, n):
        if len(n["a"]) == 1 and n["a"][0].get("lv"):
            return self.lv(n["a"][0])
        rv = self.rv(n)
        return lambda env: Cell(rv(env))

    # ---- expressions: rvalues
    def rv(self, n):
        m = getattr(self, "rv_" + n["k"], None)
        if m is None:
            return self._unsup("expression %s%s" % (n["k"], " " + n.get("cls", "")))
        return m(n)

    def rv_discard(self, n):
        if n.get("lv"):
            return self.lv(n)
        return self.rv(n)

    def rv_Int(self, n):
        v = int(n["v"])
        if self.T(n["t"])["c"] == "bool":
            v = bool(v)
        return lambda env: v

    def rv_Bool(self, n):
        v = n["v"]
        return lambda env: v

    def rv_Float(self, n):
        v = self.dom.const(Fraction(n["v"]))
        return lambda env: v

    def rv_Str(self, n):
        v = n["v"]
        return lambda env: self.models.string_literal(v)

    def rv_Null(self, n):
        return lambda env: None

    def rv_This(self, n):
        def f(env):
            return Ptr(env.this)
        return f

    def rv_Wrap(self, n):
        return self.rv(n["e"])

    def rv_Zero(self, n):
        t = n["t"]
        return lambda env: self.default_value(t, True)

    def rv_Ref(self, n):
        if n["d"] == "enumc":
            v = int(n["v"])
            return lambda env: v
        c = self.lv_Ref(n)
        return lambda env: c(env).v

    def rv_Member(self, n):
        if n["d"] == "enumc":
            v = int(n["v"])
            return lambda env: v
        c = self.lv_Member(n)
        return lambda env: c(env).v

    def rv_Sub(self, n):
        c = self.lv_Sub(n)
        return lambda env: c(env).v

    def rv_Cast(self, n):
        ck = n["ck"]
        e = n["e"]
        if ck == "LValueToRValue":
            c = self.lv(e)

            def f(env):
                v = c(env).v
                if v is UNINIT:
                    raise Unsupported("read of uninitialised variable in %s (line %d)" % (env.fn["qn"], n["l"]))
                return v
            if self.strip(n["t"])["c"] == "record":
                return lambda env: copyval(c(env).v)
            return f
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase",
                  "BaseToDerived", "NullToPointer", "NonAtomicToAtomic", "AtomicToNonAtomic"):
            if ck == "NullToPointer":
                return lambda env: None
            if e.get("lv") and self.strip(n["t"])["c"] == "record":
                c = self.lv(e)
                return lambda env: c(env).v
            return self.rv(e)
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            c = self.lv(e)
            return lambda env: c(env).v
        if ck == "ArrayToPointerDecay":
            c = self.lv(e)

            def f(env):
                v = c(env).v
                return Ptr(v) if isinstance(v, Arr) else v
            return f
        if ck == "ToVoid":
            d = self.rv_discard(e)

            def f(env):
                d(env)
            return f
        src, dst = self.strip(e["t"]), self.strip(n["t"])
        r = self.rv(e)
        if ck in ("IntegralCast", "FloatingCast", "IntegralToFloating", "FloatingToIntegral", "IntegralToBoolean",
                  "FloatingToBoolean", "BooleanToSignedIntegral"):
            return lambda env: self.convert_arith(r(env), src, dst)
        if ck == "PointerToBoolean":
            return lambda env: r(env) is not None
        if ck == "BitCast" or ck == "PointerToIntegral" or ck == "IntegralToPointer":
            if ck == "BitCast":
                return r
            return lambda env: self.models.ptr_int(self, r(env), ck)
        if ck == "Dynamic":
            to = self.p.types[self.strip(n["t"])["to"]] if self.strip(n["t"])["c"] == "ptr" else None

            def f(env):
                p = r(env)
                if p is None or to is None:
                    return None
                o = p.cell().v
                if isinstance(o, Struct) and self.p.is_base(o.rec["id"], to["rec"]):
                    return p
                return None
            return f
        if ck == "MemberPointerToBoolean":
            return lambda env: r(env) is not None
        return self._unsup("cast " + ck)

    def wrap(self, v, ty):
        b = ty.get("bits")
        if not b:
            return v
        if ty.get("signed"):
            if -(1 << (b - 1)) <= v < (1 << (b - 1)):
                return v
            v &= (1 << b) - 1
            return v - (1 << b) if v >= (1 << (b - 1)) else v
        return v & ((1 << b) - 1)

    def convert_arith(self, v, src, dst):
        c = dst["c"]
        if v is UNINIT:
            raise Unsupported("use of uninitialised value")
        if isinstance(v, Native) and not self.dom.is_number(v):
            if c == "bool" and src["c"] == "bool":
                return v
            v = self.models.native_scalar(self, v)
            if type(v).__name__ == "H":
                return v
        if c == "bool":
            if type(v) is bool:
                return v
            if type(v) is int:
                return v != 0
            return self.dom.cmp(v, self.dom.const(0)) != 0
        if c in ("int", "enum"):
            if type(v) is bool:
                return int(v)
            if type(v) is int:
                return self.wrap(v, dst)
            if src["c"] == "float":
                return self.dom.float_to_int(v, dst)
            return self.dom.int_cast(v, dst)
        if c == "float":
            if type(v) in (int, bool):
                return self.dom.const(int(v))
            return v
        return v

    def cond(self, n):
        r = self.rv(n)

        def f(env):
            v = r(env)
            if v is True or v is False:
                return v
            return self.truth(v)
        return f

    def truth(self, v):
        if type(v) is bool:
            return v
        if type(v) is int:
            return v != 0
        if v is None:
            return False
        if v is UNINIT:
            raise Unsupported("branch on uninitialised value")
        if isinstance(v, (Ptr, FnRef)):
            return True
        if isinstance(v, Native):
            return self.models.native_truth(self, v)
        return self.dom.truth(v)

    def rv_Un(self, n):
        op = n["op"]
        if op in ("++", "--"):
            c = self.lv(n["e"])
            d = 1 if op == "++" else -1
            ty = self.strip(n["t"])
            if n.get("post"):
                def f(env):
                    x = c(env)
                    old = x.v
                    x.v = self.incr(old, d, ty)
                    return old
            else:
                def f(env):
                    x = c(env)
                    x.v = self.incr(x.v, d, ty)
                    return x.v
            return f
        if op == "&":
            if n["e"]["k"] == "Ref" and n["e"]["d"] == "fn":
                return self.rv(n["e"])
            if n["e"]["k"] == "Member" and n["e"]["d"] == "fn":
                return self._unsup("member function pointer")
            c = self.lv(n["e"])

            def addr(env):
                x = c(env)
                o = self.elements.get(id(x))
                return Ptr(x) if o is None else Ptr(*o)
            return addr
        if op == "*":
            c = self.lv_Un(n)
            return lambda env: c(env).v
        if op == "!":
            r = self.cond(n["e"])
            return lambda env: not r(env)
        if op in ("+", "__extension__"):
            return self.rv(n["e"])
        ty = self.strip(n["t"])
        r = self.rv(n["e"])
        if op == "-":
            def f(env):
                v = r(env)
                if type(v) is int:
                    return self.wrap(-v, ty)
                if type(v) is bool:
                    return -int(v)
                return self.dom.neg(v) if ty["c"] == "float" else self.dom.int_op("neg", v, None, ty)
            return f
        if op == "~":
            def f(env):
                v = r(env)
                if type(v) in (int, bool):
                    return self.wrap(~int(v), ty)
                return self.dom.int_op("~", v, None, ty)
            return f
        return self._unsup("unary " + op)

    def rv_Bin(self, n):
        op = n["op"]
        if op == "&&":
            a, b = self.cond(n["a"]), self.cond(n["b"])
            return lambda env: a(env) and b(env)
        if op == "||":
            a, b = self.cond(n["a"]), self.cond(n["b"])
            return lambda env: a(env) or b(env)
        if op in ("=", ","):
            if op == "," and not n["b"].get("lv"):
                a, b = self.rv_discard(n["a"]), self.rv_discard(n["b"])

                def f(env):
                    a(env)
                    return val(b(env))
                return f
            c = self.lv_Bin(n)
            return lambda env: c(env).v
        a, b = self.rv(n["a"]), self.rv(n["b"])
        ty = self.strip(n["t"])
        at = self.strip(n["a"]["t"])
        if op in ("<", ">", "<=", ">=", "==", "!="):
            def f(env):
                x, y = a(env), b(env)
                tx, ty_ = type(x), type(y)
                if (tx is int or tx is bool) and (ty_ is int or ty_ is bool):
                    if op == "<": return x < y
                    if op == ">": return x > y
                    if op == "<=": return x <= y
                    if op == ">=": return x >= y
                    if op == "==": return x == y
                    return x != y
                return self.compare(op, x, y, at)
            return f
        return lambda env: self.binop(op, a(env), b(env), ty)

    def compare(self, op, x, y, at=None):
        if x is UNINIT or y is UNINIT:
            raise Unsupported("comparison of uninitialised value")
        if x is None or y is None or isinstance(x, (Ptr, FnRef)) or isinstance(y, (Ptr, FnRef)):
            if op == "==":
                return (x is None and y is None) or (x is not None and y is not None and x == y)
            if op == "!=":
                return not self.compare("==", x, y)
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.base is y.base:
                return {"<": x.idx < y.idx, ">": x.idx > y.idx, "<=": x.idx <= y.idx, ">=": x.idx >= y.idx}[op]
            return self.models.ptr_less(self, op, x, y)
        if isinstance(x, Native) or isinstance(y, Native):
            x = self.models.native_scalar(self, x) if isinstance(x, Native) else x
            y = self.models.native_scalar(self, y) if isinstance(y, Native) else y
            h = getattr(self.models, "hash_cmp", None)
            if h is not None and "H" in (type(x).__name__, type(y).__name__):
                return h(self, op, x, y)
            if type(x) in (int, bool) and type(y) in (int, bool):
                return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        if at is not None and at["c"] in ("int", "enum", "bool", "ptr"):
            return self.dom.int_cmp(op, x, y)
        c = self.dom.cmp_op(op, x, y)
        return c

    def binop(self, op, x, y, ty):
        if isinstance(x, Native):
            x = self.models.native_scalar(self, x)
        if isinstance(y, Native):
            y = self.models.native_scalar(self, y)
        if "H" in (type(x).__name__, type(y).__name__):
            return self.models.hash_op(op, x, y)
        if type(x) is bool:
            x = int(x)
        if type(y) is bool:
            y = int(y)
        if type(x) is int and type(y) is int and ty["c"] != "float":
            if op == "+": return self.wrap(x + y, ty)
            if op == "-": return self.wrap(x - y, ty)
            if op == "*": return self.wrap(x * y, ty)
            if op == "/":
                if y == 0: raise AssertFail("division by zero")
                q = abs(x) // abs(y)
                return self.wrap(q if (x >= 0) == (y >= 0) else -q, ty)
            if op == "%":
                if y == 0: raise AssertFail("modulo by zero")
                r = abs(x) % abs(y)
                return r if x >= 0 else -r
            if op == "<<": return self.wrap(x << y, ty)
            if op == ">>": return x >> y
            if op == "&": r = x & y
            elif op == "|": r = x | y
            elif op == "^": r = x ^ y
            else: raise Unsupported("binary " + op)
            return bool(r) if ty["c"] == "bool" else self.wrap(r, ty)
        if x is UNINIT or y is UNINIT:
            raise Unsupported("use of uninitialised value")
        if isinstance(x, Ptr) and isinstance(y, Ptr) and op == "-":
            if x.base is not y.base:
                raise Unsupported("pointer difference")
            return x.idx - y.idx
        if isinstance(x, Ptr):
            return Ptr(x.base, x.idx + (y if op == "+" else -y))
        if isinstance(y, Ptr) and op == "+":
            return Ptr(y.base, y.idx + x)
        if ty["c"] == "float":
            if type(x) is int: x = self.dom.const(x)
            if type(y) is int: y = self.dom.const(y)
            if op == "+": return self.dom.add(x, y)
            if op == "-": return self.dom.sub(x, y)
            if op == "*": return self.dom.mul(x, y)
            if op == "/": return self.dom.fdiv(x, y)
            raise Unsupported("binary " + op)
        return self.dom.int_op(op, x, y, ty)

    def rv_CAssign(self, n):
        c = self.lv_CAssign(n)
        return lambda env: c(env).v

    def rv_Cond(self, n):
        c = self.cond(n["c"])
        a, b = self.rv_discard(n["a"]) if self.T(n["t"])["c"] == "void" else self.rv(n["a"]), \
            self.rv_discard(n["b"]) if self.T(n["t"])["c"] == "void" else self.rv(n["b"])
        return lambda env: a(env) if c(env) else b(env)

    def rv_InitList(self, n):
        ty = self.strip(n["t"])
        els = n["a"]
        if ty["c"] == "array":
            fs = [self.rv(e) for e in els]
            et = ty["to"]
            cnt = ty.get("n", len(els))

            def f(env):
                cells = [Cell(x(env)) for x in fs]
                while len(cells) < cnt:
                    cells.append(Cell(self.default_value(et, True)))
                return Arr(cells)
            return f
        if ty["c"] == "record":
            if n.get("transparent") or (len(els) == 1 and not els[0].get("lv") and els[0]["t"] == n["t"] and els[0]["k"] != "InitList"):
                return self.rv(els[0])
            rec = self.p.recs[ty["rec"]]
            if rec.get("union"):
                return self._unsup("union init")
            if "fields" not in rec and rec["name"].startswith("std::array"):
                inner = [self.rv(e) for e in els]

                def fa(env):
                    a = self.default_struct(rec, True)
                    for x in inner:
                        v = x(env)
                        for c, d in zip(a.cells, v.cells if isinstance(v, (Arr,)) else [Cell(v)]):
                            c.v = d.v
                    return a
                return fa
            if "fields" not in rec:
                return self._unsup("init list of opaque " + rec["name"])
            bases = [self.p.recs[b] for b in rec.get("bases", ())]
            parts = []
            for i, e in enumerate(els):
                if i < len(bases):
                    parts.append(("base", bases[i], self.rv(e)))
                else:
                    fl = rec["fields"][i - len(bases)]
                    if self.is_ref(fl["t"]):
                        parts.append(("ref", fl, self.ref_arg(e)))
                    else:
                        parts.append(("field", fl, self.rv(e)))

            def f(env):
                s = self.default_struct(rec, True)
                for kind, fl, x in parts:
                    if kind == "base":
                        v = x(env)
                        if isinstance(v, Struct):
                            s.f.update(v.f)
                            if v.extra is not None:
                                # closures inherited by an overload set
                                s.extra = (s.extra or []) + [v]
                    elif kind == "ref":
                        s.f[fl["id"]] = x(env)
                    else:
                        s.f[fl["id"]].v = x(env)
                return s
            return f
        if len(els) == 1:
            return self.rv(els[0])
        if not els:
            return lambda env: self.default_value(n["t"], True)
        return self._unsup("init list")

    def rv_StdIL(self, n):
        r = self.rv(n["e"])
        return lambda env: self.models.init_list(self, r(env))

    def rv_Ctor(self, n):
        fn = self.p.fns[n["fn"]]
        rec = self.p.recs[n["rec"]]
        sp = fn.get("special")
        if rec["name"].startswith("(lambda") and sp in ("copyctor", "movector"):
            return self.rv(n["a"][0])
        if n.get("elidable") and sp in ("copyctor", "movector") and not n["a"][0].get("lv"):
            return self.rv(n["a"][0])
        args = self.args(n)
        line = n["l"]
        zero = n.get("zeroinit")

        def f(env):
            a = args(env)
            m = self.model_for(fn)
            if m is None and "body" not in fn and sp in ("copyctor", "movector"):
                return copyval(a[0].v)
            c = Cell(self.default_struct(rec, bool(zero)))
            self.invoke(fn, c, a)
            return c.v
        return f

    def rv_InhCtor(self, n):
        return self._unsup("inheriting ctor")

    def callexpr(self, n):
        """compiled call returning raw result (Cell for reference results)"""
        k = n["k"]
        if "builtin" in n:
            b = n["builtin"]
            if b == "__builtin_expect":
                return self.rv(n["a"][0])
            if b in ("__builtin_constant_p", "__builtin_is_constant_evaluated"):
                return lambda env: 0
        if k == "ICall":
            c = self.rv(n["c"])
            afs = [(self.ref_arg(a) if a.get("lv") else self.rv(a)) for a in n["a"]]

            def f(env):
                t = c(env)
                if isinstance(t, Ptr):
                    t = t.cell().v
                if not isinstance(t, FnRef):
                    raise Unsupported("indirect call of %r" % (t,))
                args = []
                for p, a in zip(t.fn["params"], afs):
                    x = a(env)
                    if self.is_ref(p["t"]):
                        args.append(x if type(x) is Cell else Cell(x))
                    else:
                        args.append(copyval(x.v) if type(x) is Cell else x)
                return self.invoke(t.fn, t.this, args)
            return f
        if "fn" not in n:
            return self._unsup("unresolved call")
        fn = self.p.fns[n["fn"]]
        if fn["qn"] == "__assert_fail" or fn["name"] == "__assert_fail":
            s = n["a"][0]
            while s["k"] == "Cast":
                s = s["e"]
            text = s.get("v", "")
            line = n["l"]

            def f(env):
                raise AssertFail("%s:%d: assert(%s)" % (env.fn.get("file", "?"), line, text))
            return f
        if k == "MCall":
            if fn.get("static"):
                o = self.rv_discard(n["o"])
            elif n["arrow"]:
                o = self.rv(n["o"])
            else:
                o = self.lv(n["o"])
            args = self.args(n, params=fn["params"])
            arrow = n["arrow"]
            virt = fn.get("virtual") and not n.get("qual")
            line = n["l"]

            def f(env):
                t = o(env)
                if arrow and not fn.get("static"):
                    if t is None:
                        raise AssertFail("null object in call to %s" % fn["qn"])
                    t = t.cell() if isinstance(t, Ptr) else t
                a = args(env)
                g = self.dispatch(fn, t) if virt else fn
                return self.invoke(g, t, a)
            return f
        if k == "OCall" and n.get("member"):
            o = self.ref_arg(n["a"][0])
            rest = self.args(n, skip=1, params=fn["params"])
            if n["op"] in ("=", "+=", "-=", "*=", "/="):
                def f(env):
                    a = rest(env)
                    t = o(env)
                    return self.invoke(fn, t, a)
                return f

            def f(env):
                t = o(env)
                a = rest(env)
                return self.invoke(fn, t, a)
            return f
        args = self.args(n, params=fn["params"])
        return lambda env: self.invoke(fn, None, args(env))

    def rv_Call(self, n):
        c = self.callexpr(n)
        isrec = self.strip(n["t"])["c"] == "record"

        def f(env):
            r = c(env)
            return r.v if type(r) is Cell else r
        return f
    rv_MCall = rv_OCall = rv_ICall = rv_Call

    def rv_Lambda(self, n):
        rec = self.p.recs[n["rec"]]
        caps = []
        for c in n["caps"]:
            if c.get("this"):
                caps.append(("this", None, None))
            elif "id" in c:
                e = c["e"]
                if c["byref"]:
                    caps.append(("ref", c["id"], self.lv(e)))
                else:
                    caps.append(("val", c["id"], self.rv(e) if e["k"] != "Ref" else self.rv(e)))
            else:
                caps.append(("unsup", None, None))

        def f(env):
            s = Struct(rec)
            vs = {}
            this = None
            for kind, i, e in caps:
                if kind == "this":
                    this = env.this
                elif kind == "ref":
                    vs[i] = e(env)
                elif kind == "val":
                    vs[i] = Cell(copyval(e(env)))
                else:
                    raise Unsupported("lambda capture")
            s.extra = (vs, this, dict(env.bind) if env.bind else None)
            # bindings captured implicitly keep working through their cells
            return s
        return f

    def rv_New(self, n):
        if n.get("array"):
            nn = self.rv(n["n"]) if "n" in n else None
            at = n["at"]

            def f(env):
                k = nn(env)
                if type(k) is not int or k > 4096:
                    raise Unsupported("array new")
                return Ptr(Arr([Cell(self.default_value(at)) for _ in range(k)]))
            return f
        init = n["init"]
        at = n["at"]
        if n["placement"]:
            return self._unsup("placement new")
        if init is None:
            return lambda env: Ptr(Cell(self.default_value(at)))
        r = self.rv(init)
        return lambda env: Ptr(Cell(r(env)))

    def rv_Delete(self, n):
        r = self.rv(n["e"])

        def f(env):
            self.models.on_delete(self, r(env))
        return f

    def rv_Throw(self, n):
        if n["e"] is None:
            def g(env):
                raise CppThrow(None, "rethrow")
            return g
        r = self.rv(n["e"])
        tn = self.strip(n["e"]["t"])["name"]

        def f(env):
            try:
                v = r(env)
            except Unsupported:
                v = None
            raise CppThrow(v, tn)
        return f

    def rv_TypeId(self, n):
        return self._unsup("typeid")

    def rv_ArrayCopy(self, n):
        c = self.lv(n["e"])
        return lambda env: copyval(c(env).v)

    # ---- statements
    def stmt(self, n):
        if n is None:
            return lambda env: None
        m = getattr(self, "st_" + n["k"], None)
        if m is None:
            return self._unsup("statement %s%s" % (n["k"], " " + n.get("cls", "")))
        return m(n)

    def st_Block(self, n):
        ss = [self.stmt(s) for s in n["b"]]
        if len(ss) == 1:
            return ss[0]

        def f(env):
            for s in ss:
                r = s(env)
                if r is not None:
                    return r
        return f

    def st_Null(self, n):
        return lambda env: None

    def st_Expr(self, n):
        e = self.rv_discard(n["e"])

        def f(env):
            e(env)
        return f

    def st_Decl(self, n):
        fs = [self.vardecl(d) for d in n["d"]]

        def f(env):
            for x in fs:
                x(env)
        return f

    def vardecl(self, d):
        i = d["id"]
        t = d["t"]
        if d.get("static"):
            if "const" in d:
                v = int(d["const"])
                if self.strip(t)["c"] == "bool":
                    v = bool(v)

                def f(env):
                    self.globals.setdefault(i, Cell(v))
                return f
            init = d.get("init")
            e = None
            if init is not None:
                e = self.ref_arg(init) if self.is_ref(t) else self.rv(init)

            def f(env):
                if i not in self.globals:
                    if self.is_ref(t):
                        self.globals[i] = e(env)
                    else:
                        c = Cell(self.default_value(t, True))
                        self.globals[i] = c
                        if e is not None:
                            c.v = e(env)
            return f
        binds = d.get("bindings")
        if self.is_ref(t):
            e = self.ref_arg(d["init"]) if "init" in d else self._unsup("reference without init")

            def f(env):
                env.vars[i] = e(env)
        elif "init" in d:
            if self.T(t)["c"] == "array" and d["init"]["k"] == "Ctor":
                init = self.init_into(d["init"], t)

                def f(env):
                    c = Cell(self.default_value(t))
                    init(env, c)
                    env.vars[i] = c
            else:
                e = self.rv(d["init"])

                def f(env):
                    env.vars[i] = Cell(e(env))
        else:
            def f(env):
                env.vars[i] = Cell(self.default_value(t))
        if not binds:
            return f
        bs = []
        for b in binds:
            if "holding" in b:
                hv = self.vardecl(b["holding"])
                hid = b["holding"]["id"]
                bs.append((b["id"], ("hold", hv, hid)))
            else:
                bs.append((b["id"], ("expr", self.lv(b["e"]) if "e" in b else None, None)))

        def g(env):
            f(env)
            for bid, (kind, x, hid) in bs:
                if kind == "hold":
                    x(env)
                    env.vars[bid] = env.vars[hid]
                else:
                    env.vars[bid] = x(env)
        return g

    def st_If(self, n):
        init = self.stmt(n["init"]) if "init" in n else None
        cv = self.vardecl(n["cv"]) if "cv" in n else None
        if n.get("constexpr"):
            pass
        c, t, f_ = self.cond(n["c"]), self.stmt(n["t"]), self.stmt(n["f"])
        line = n["l"]
        if init is None and cv is None:
            def f(env):
                b = c(env)
                if self.trace is not None:
                    self.trace.append((env.fn, line, b))
                if b:
                    return t(env)
                return f_(env)
            return f

        def f(env):
            if init: init(env)
            if cv: cv(env)
            if c(env):
                return t(env)
            return f_(env)
        return f

    def snapshot(self, env):
        """everything the rest of the execution can depend on, up to renaming of objects"""
        seen, out = {}, []
        w = getattr(self.dom, "w", None)
        if w is not None:
            out.append((w.splits, w.paths.pos if w.paths is not None else 0))

        def walk(x):
            if x is None or isinstance(x, (int, str, bytes, float, Fraction)):
                out.append(x)
                return
            if isinstance(x, dict) and ("body" in x or "qn" in x):
                out.append(id(x))
                return
            k = id(x)
            if k in seen:
                out.append(("ref", seen[k]))
                return
            seen[k] = len(seen)
            keep.append(x)
            out.append(type(x).__name__)
            if isinstance(x, dict):
                for a, b in x.items():
                    walk(a)
                    walk(b)
            elif isinstance(x, (list, tuple)):
                out.append(len(x))
                for a in x:
                    walk(a)
            elif isinstance(x, (set, frozenset)):
                out.append(repr(sorted(map(repr, x))))
            elif callable(x):
                hidden.append(x)
            else:
                for c in type(x).__mro__:
                    for a in getattr(c, "__slots__", ()):
                        if hasattr(x, a):
                            walk(getattr(x, a))
                for a, b in getattr(x, "__dict__", {}).items():
                    out.append(a)
                    walk(b)
        keep, hidden = [], []
        walk(env.vars)
        walk(env.this)
        walk(self.globals)
        return None if hidden else out

    def loop(self, n, env, c, body, inc):
        it = 0
        while c is None or c(env):
            it += 1
            if it >= 40:
                if it in (40, 200, 1000):
                    first, left = self.snapshot(env), 16
                elif left:
                    left -= 1
                    if first is not None and self.snapshot(env) == first:
                        raise AssertFail("the loop at %s:%d never ends: its state repeats" % (env.fn.get("file", "?"), n["l"]))
                if it > self.MAX_ITER:
                    raise Unsupported("loop at %s:%d does not terminate in the abstract domain" % (env.fn.get("file", "?"), n["l"]))
            r = body(env)
            if r is not None:
                if r is BREAK:
                    break
                if r is not CONTINUE:
                    return r
            if inc is not None:
                inc(env)
        return None

    def st_While(self, n):
        cv = self.vardecl(n["cv"]) if "cv" in n else None
        c0, body = self.cond(n["c"]), self.stmt(n["b"])
        if cv:
            def c(env):
                cv(env)
                return c0(env)
        else:
            c = c0
        h = self.loop_handler(n)
        if h:
            return lambda env: h(self, n, env, c, body, None, False)
        return lambda env: self.loop(n, env, c, body, None)

    def loop_handler(self, n):
        return None

    def st_Do(self, n):
        c, body = self.cond(n["c"]), self.stmt(n["b"])
        h = self.loop_handler(n)
        if h:
            return lambda env: h(self, n, env, c, body, None, True)

        def f(env):
            r = body(env)
            if r is not None:
                if r is BREAK:
                    return None
                if r is not CONTINUE:
                    return r
            return self.loop(n, env, c, body, None)
        return f

    def st_For(self, n):
        init = self.stmt(n["init"])
        c = self.cond(n["c"]) if n["c"] is not None else None
        inc = self.rv_discard(n["inc"]) if n["inc"] is not None else None
        body = self.stmt(n["b"])
        h = self.loop_handler(n)

        def f(env):
            r = init(env)
            if h:
                return h(self, n, env, c, body, inc, False)
            return self.loop(n, env, c, body, inc)
        return f

    def st_ForRange(self, n):
        rng = self.stmt(n["range"])
        rid = n["range"]["d"][0]["id"]
        var = self.vardecl(n["var"]["d"][0])
        vd = n["var"]["d"][0]
        isref = self.is_ref(vd["t"])
        body = self.stmt(n["b"])
        beg, end = self.stmt(n["begin"]), self.stmt(n["end"])
        c = self.cond(n["c"])
        inc = self.rv_discard(n["inc"])
        vid = vd["id"]
        simple = not vd.get("bindings")
        h = self.loop_handler(n)

        def f(env):
            rng(env)
            o = env.vars[rid].v
            if h:
                r = h(self, n, env, o, body, (vid, isref, var), None)
                if r is not NotImplemented:
                    return r
            it = getattr(o, "iter_cells", None)
            if isinstance(o, Arr):
                def it():
                    return list(o.cells)
            if it is not None and simple:
                for cell in it():
                    env.vars[vid] = cell if isref else Cell(copyval(cell.v))
                    r = body(env)
                    if r is not None:
                        if r is BREAK:
                            break
                        if r is not CONTINUE:
                            return r
                return None
            beg(env)
            end(env)

            def b2(env):
                var(env)
                return body(env)
            return self.loop(n, env, c, b2, inc)
        return f

    def st_Return(self, n):
        e = n["e"]
        if e is None:
            r0 = Ret(None)
            return lambda env: r0
        # reference-returning functions: decided at run time by env.fn
        lv = self.lv(e) if e.get("lv") else None
        rv = self.rv(e)
        line = n["l"]
        if lv is None:
            def f(env):
                if self.trace is not None:
                    self.trace.append((env.fn, line, None))
                return Ret(rv(env))
            return f

        def f(env):
            if self.trace is not None:
                self.trace.append((env.fn, line, None))
            rt = env.fn.get("ret")
            if rt is not None and self.is_ref(rt):
                return Ret(lv(env))
            return Ret(rv(env))
        return f

    def st_Break(self, n):
        return lambda env: BREAK

    def st_Continue(self, n):
        return lambda env: CONTINUE

    def st_Switch(self, n):
        init = self.stmt(n["init"]) if "init" in n else None
        c = self.rv(n["c"])
        body = n["b"]
        flat = []          # list of (labels, stmt)

        def addstmt(s):
            labels = []
            while s is not None and s["k"] in ("Case", "Default"):
                labels.append(("d",) if s["k"] == "Default" else ("v", int(s["v"]), int(s.get("v2", s["v"]))))
                s = s["b"]
            flat.append((labels, self.stmt(s)))
        if body["k"] == "Block":
            for s in body["b"]:
                addstmt(s)
        else:
            addstmt(body)

        def f(env):
            if init: init(env)
            v = c(env)
            if type(v) is bool:
                v = int(v)
            start = None
            if type(v) is not int:
                v = self.dom.concretize_int(v, sorted({l[1] for ls, _ in flat for l in ls if l[0] == "v"}))
            for i, (ls, s) in enumerate(flat):
                if v is not None and any(l[0] == "v" and l[1] <= v <= l[2] for l in ls):
                    start = i
                    break
            if start is None:
                for i, (ls, s) in enumerate(flat):
                    if any(l[0] == "d" for l in ls):
                        start = i
                        break
            if start is None:
                return None
            for _, s in flat[start:]:
                r = s(env)
                if r is not None:
                    if r is BREAK:
                        return None
                    return r
            return None
        return f

    def st_Try(self, n):
        body = self.stmt(n["b"])
        hs = []
        for h in n["handlers"]:
            v = h.get("var")
            hs.append((v, self.stmt(h["b"])))

        def f(env):
            try:
                return body(env)
            except CppThrow as ex:
                for v, b in hs:
                    if v is None or self.models.catch_matches(self, self.strip(v["t"])["name"], ex.tname):
                        if v is not None:
                            env.vars[v["id"]] = Cell(ex.val)
                        return b(env)
                raise
        return f

    def st_Unsupported(self, n):
        return self._unsup("statement " + n.get("cls", "?"))
    def rv_Unsupported(self, n):
        return self._unsup("expression " + n.get("cls", "?"))
    def rv_PseudoDtor(self, n):
        return lambda env: None


# ---------------------------------------------------------------------------
class Paths:
    """systematic exploration of abstract splits: the body is re-evaluated once per
    combination of split outcomes"""

    def __init__(self, limit=20000):
        self.limit = limit
        self.reset()

    def reset(self):
        self.prefix = []
        self.pos = 0
        self.count = 0

    def choose(self, n):
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos][0]
        else:
            self.prefix.append([0, n])
            c = 0
        self.pos += 1
        return c

    def explore(self, body):
        self.prefix = []
        while True:
            self.pos = 0
            self.count += 1
            if self.count > self.limit:
                raise Unsupported("too many abstract paths")
            r = body()
            del self.prefix[self.pos:]
            mine, n = self.prefix, self.count
            self.last = [list(x) for x in mine]
            yield r
            self.prefix, self.count = mine, n        # the consumer may have replayed paths
            while self.prefix and self.prefix[-1][0] + 1 >= self.prefix[-1][1]:
                self.prefix.pop()
            if not self.prefix:
                return
            self.prefix[-1][0] += 1
