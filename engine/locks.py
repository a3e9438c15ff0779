"""Lock-set, lock-order and re-acquisition analysis over the exported program.

Locks are identified by an access path of the owning object ("this", a parameter, a local, a process-wide
singleton) plus the mutex member.  The walk is flow sensitive over the structured statements: guard objects
hold their mutex to the end of their scope, explicit lock()/unlock() calls act immediately, branches join by
intersection.  Contexts of non-public functions are the intersection of the lock sets at their call sites."""
import re

MUTEX = {"std::mutex": False, "std::recursive_mutex": True, "std::shared_mutex": False, "std::timed_mutex": False,
         "std::recursive_timed_mutex": True, "std::shared_timed_mutex": False}
GUARD = {"std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock"}
TOP = None      # "all locks": the object is not shared yet


class Locks:
    def __init__(self, prog, repo, owner=lambda r: True):
        self.p, self.repo = prog, repo
        self.owner = {}         # field id -> record
        self.fname = {}
        self.mutexes = {}       # field id -> recursive?
        self.classes = {}       # record id -> record, for records that own a mutex
        for r in prog.recs.values():
            for f in r.get("fields", ()):
                self.owner[f["id"]] = r
                self.fname[f["id"]] = f["name"]
                n = self.recname(f["t"])
                if n in MUTEX:
                    self.mutexes[f["id"]] = MUTEX[n]
                    if owner(r):
                        self.classes[r["id"]] = r
        self.single = {i for i in self.classes if self.is_single(i)}
        self.dtors = {f["rec"]: f for f in prog.fns.values() if f.get("special") == "dtor" and "rec" in f}
        self.fns = [f for f in prog.fns.values() if f.get("body") and f["file"].startswith(repo)]
        self.lambdas = {f["id"] for f in self.fns if f.get("constexprLambdaCall")}
        self.sum = {}
        for f in self.fns:
            if f["id"] not in self.lambdas:
                self.sum[f["id"]] = self.walk_fn(f)
        self.contexts()

    # --- types
    def strip(self, t):
        t = self.p.types[t]
        while t["c"] in ("ref", "rref"):
            t = self.p.types[t["to"]]
        return t

    def recname(self, t):
        t = self.p.types[t]
        while t["c"] in ("ref", "rref", "ptr"):
            t = self.p.types[t["to"]]
        return self.p.recs[t["rec"]]["name"] if t["c"] == "record" and t["rec"] in self.p.recs else None

    def bases(self, i):
        out, todo = set(), [i]
        while todo:
            j = todo.pop()
            if j in out or j not in self.p.recs:
                continue
            out.add(j)
            todo += self.p.recs[j].get("bases", ())
        return out

    def is_single(self, i):
        ders = [r["id"] for r in self.p.recs.values() if i in self.bases(r["id"])]
        leaf = [d for d in ders if d != i] or [i]
        return all(any(self.p.recs[b]["name"] == "carl::Singleton" for b in self.bases(d)) for d in leaf)

    # --- access paths
    def path(self, e, env):
        k = e.get("k")
        if k == "This":
            return env.get("this", ("this",))
        if k == "Ref":
            if e.get("d") in ("var", "parm"):
                return env.get(("alias", e["id"]), (("parm" if e["d"] == "parm" else "var", e["id"]),))
            if e.get("d") == "global":
                return (("global", e["id"]),)
            return None
        if k == "Member":
            if e.get("d") == "field":
                b = self.path(e["b"], env)
                return None if b is None else b + (e["id"],)
            return None
        if k in ("Cast", "Wrap"):
            return self.path(e["e"], env)
        if k == "Un" and e["op"] in ("*", "&"):
            return self.path(e["e"], env)
        if k == "Call":
            f = self.p.fns.get(e["fn"])
            if f and f["name"] == "getInstance":
                t = self.strip(f["ret"])
                if t["c"] == "record":
                    return (("single", t["rec"]),)
            if f and f["qn"] in ("std::move", "std::forward", "std::as_const") and e["a"]:
                return self.path(e["a"][0], env)
        return None

    def lockkey(self, e, env):
        """lock denoted by an expression of mutex type"""
        while e.get("k") in ("Cast", "Wrap"):
            e = e["e"]
        if e.get("k") == "Member" and e.get("d") == "field" and e["id"] in self.mutexes:
            b = self.path(e["b"], env)
            return self.norm(b, e["id"])
        if e.get("k") == "Ref" and self.recname(e["t"]) in MUTEX:
            return (("global", e["id"]), ("m", e["id"]))
        return None

    def norm(self, base, m):
        r = self.owner[m]["id"]
        if r in self.single:
            base = ("single", r)
        return (base if base is not None else ("?", r), m)

    # --- function summaries
    def walk_fn(self, f):
        s = {"fn": f, "acc": [], "calls": [], "acq": []}
        env = {}
        if f.get("ctor") or f.get("special") == "dtor":
            s["exempt"] = f["rec"]
        for i in f.get("inits", ()):
            self.ex(i["e"], frozenset(), env, s)
        self.st(f["body"], frozenset(), env, s)
        return s

    def block(self, stmts, held, env, s):
        scope = []
        for x in stmts:
            if x is None:
                continue
            if x["k"] == "Decl":
                for d in x["d"]:
                    held = self.decl(d, held, env, s, scope)
            else:
                held = self.st(x, held, env, s)
                if held == "exit":
                    return "exit"
        return held - frozenset(scope)

    def decl(self, d, held, env, s, scope):
        n = self.recname(d["t"])
        init = d.get("init")
        if n in GUARD and init is not None:
            args = init.get("a", []) if init.get("k") in ("Ctor", "InitList") else []
            keys, defer, adopt = [], False, False
            for a in args:
                k = self.lockkey(a, env)
                if k is not None:
                    keys.append(k)
                t = self.recname(a["t"]) or ""
                defer |= t in ("std::defer_lock_t", "std::try_to_lock_t")
                adopt |= t == "std::adopt_lock_t"
            env[("guard", d["id"])] = keys
            scope += keys
            if not defer:
                if not adopt:
                    for k in keys:
                        s["acq"].append((k, held, d["l"]))
                held = held | frozenset(keys)
            return held
        if init is not None:
            held = self.ex(init, held, env, s)
            t = self.p.types[d["t"]]
            if t["c"] in ("ref", "rref"):
                p = self.path(init, env)
                if p is not None:
                    env[("alias", d["id"])] = p
            if t["c"] in ("ref", "rref") or re.search(r"iterator", t.get("name", "")):
                src = self.touched(init, env)
                if src:
                    env[("derived", d["id"])] = src
        for b in d.get("bindings", ()):
            if "holding" in b:
                held = self.decl(b["holding"], held, env, s, scope)
        return held

    def touched(self, e, env):
        """guarded fields an expression reads or refers to"""
        out = set()

        def go(n):
            if isinstance(n, dict):
                if n.get("k") == "Member" and n.get("d") == "field" and n["id"] in self.owner and self.owner[n["id"]]["id"] in self.classes and n["id"] not in self.mutexes:
                    out.add((self.path(n["b"], env), n["id"]))
                if n.get("k") == "Ref" and "id" in n:
                    out.update(env.get(("derived", n["id"]), ()))
                if n.get("k") == "MCall":       # a helper that hands out a reference into the object
                    f = self.p.fns.get(n.get("fn"))
                    if f and f.get("body") and f.get("access", 0) and self.p.types[f["ret"]]["c"] == "ref":
                        for b, fld in self.touched(f["body"], {}):
                            r = self.path(n["o"], env)
                            if b == ("this",) and r is not None:
                                out.add((r, fld))
                for v in n.values():
                    go(v)
            elif isinstance(n, list):
                for v in n:
                    go(v)
        go(e)
        return out

    def join(self, hs):
        hs = [h for h in hs if h != "exit"]
        if not hs:
            return "exit"
        r = hs[0]
        for h in hs[1:]:
            r = r & h
        return r

    def st(self, x, held, env, s):
        if x is None:
            return held
        k = x["k"]
        if k == "Block":
            return self.block(x["b"], held, env, s)
        if k == "Decl":
            return self.block([x], held, env, s)
        if k == "Expr":
            return self.ex(x["e"], held, env, s)
        if k == "Return":
            if x.get("e"):
                self.ex(x["e"], held, env, s)
            return "exit"
        if k in ("Break", "Continue"):
            return "exit"
        if k == "Null":
            return held
        if k in ("If", "Switch"):
            scope = []
            if x.get("init"):
                if x["init"]["k"] == "Decl":
                    for d in x["init"]["d"]:
                        held = self.decl(d, held, env, s, scope)
                else:
                    held = self.st(x["init"], held, env, s)
            if x.get("cv"):
                held = self.decl(x["cv"], held, env, s, scope)
            held = self.ex(x["c"], held, env, s)
            if k == "If":
                r = self.join([self.st(x["t"], held, env, s), self.st(x.get("f"), held, env, s)])
            else:
                r = self.join([self.st(x["b"], held, env, s), held])
            return r if r == "exit" else r - frozenset(scope)
        if k in ("Case", "Default"):
            return self.st(x["b"], held, env, s)
        if k in ("While", "Do", "For", "ForRange"):
            scope = []
            for part in ("init", "range", "begin", "end"):
                if x.get(part):
                    if x[part]["k"] == "Decl":
                        for d in x[part]["d"]:
                            held = self.decl(d, held, env, s, scope)
                    else:
                        held = self.st(x[part], held, env, s)
            if x.get("cv"):
                held = self.decl(x["cv"], held, env, s, scope)
            h = held
            for _ in range(2):
                n = len(s["acc"]), len(s["calls"]), len(s["acq"])
                inner = h
                if x.get("c"):
                    inner = self.ex(x["c"], inner, env, s)
                sc = []
                if x.get("var"):
                    for d in x["var"]["d"]:
                        inner = self.decl(d, inner, env, s, sc)
                b = self.st(x["b"], inner, env, s)
                if b != "exit" and x.get("inc"):
                    b = self.ex(x["inc"], b, env, s)
                h2 = self.join([h, b])
                if h2 == h:
                    break
                h = h2
                del s["acc"][n[0]:], s["calls"][n[1]:], s["acq"][n[2]:]
            return h - frozenset(scope)
        if k == "Try":
            r = [self.st(x["b"], held, env, s)]
            for hd in x["handlers"]:
                r.append(self.st(hd["b"], held, env, s))
            return self.join(r)
        return held

    def ex(self, e, held, env, s):
        if e is None or not isinstance(e, dict):
            return held
        k = e.get("k")
        if k == "Member" and e.get("d") == "field":
            held = self.ex(e["b"], held, env, s)
            o = self.owner.get(e["id"])
            if o is not None and o["id"] in self.classes and e["id"] not in self.mutexes:
                s["acc"].append((self.path(e["b"], env), e["id"], held, e["l"], e))
            return held
        if k == "Ref":
            for p, f in env.get(("derived", e.get("id")), ()):
                s["acc"].append((p, f, held, e["l"], e))
            return held
        if k == "Lambda":
            for c in e.get("caps", ()):
                held = self.ex(c.get("e"), held, env, s)
            f = self.p.fns.get(e.get("fn"))
            if f and f.get("body"):
                self.st(f["body"], held, env, s)
            return held
        if k in ("Call", "MCall", "OCall", "Ctor"):
            o = e.get("o")
            f = self.p.fns.get(e.get("fn"))
            nm = f["name"] if f else ""
            if o is not None:
                held = self.ex(o, held, env, s)
            for a in e.get("a", ()):
                held = self.ex(a, held, env, s)
            if o is not None and nm in ("lock", "unlock", "try_lock", "lock_shared", "unlock_shared"):
                keys = []
                lk = self.lockkey(o, env)
                if lk is not None:
                    keys = [lk]
                else:
                    oo = o
                    while oo.get("k") in ("Cast", "Wrap"):
                        oo = oo["e"]
                    keys = env.get(("guard", oo.get("id")), [])
                for q in keys:
                    if nm.startswith("unlock"):
                        held = held - {q}
                    else:
                        s["acq"].append((q, held, e["l"]))
                        held = held | {q}
                return held
            if f and f["qn"] == "std::lock":
                for a in e["a"]:
                    q = self.lockkey(a, env)
                    if q is not None:
                        s["acq"].append((q, held, e["l"]))
                        held = held | {q}
                return held
            if f is not None:
                args = list(e.get("a", ()))
                if o is None and k == "OCall" and e.get("member") and args:
                    o, args = args[0], args[1:]
                s["calls"].append((f["id"], self.path(o, env) if o is not None else None, [self.path(a, env) for a in args], held, e["l"], k == "MCall" and not e.get("qual")))
            return held
        if k == "Delete":
            held = self.ex(e["e"], held, env, s)
            t = self.p.types[e["e"]["t"]]
            if t["c"] == "ptr":
                u = self.p.types[t["to"]]
                d = self.dtors.get(u.get("rec"))
                if d:
                    s["calls"].append((d["id"], None, [], held, e["l"], False))
            return held
        for key, v in e.items():
            if isinstance(v, dict):
                held = self.ex(v, held, env, s)
            elif isinstance(v, list):
                for y in v:
                    held = self.ex(y, held, env, s)
        return held

    # --- interprocedural part
    def targets(self, fid, virt):
        out = [fid]
        if virt:
            todo = [fid]
            while todo:
                for _, m in self.p.overriders.get(todo.pop(), ()):
                    if m not in out:
                        out.append(m)
                        todo.append(m)
        return out

    def to_callee(self, key, recv, args, callee):
        """lock key of the caller expressed in the callee's terms"""
        base, m = key
        if isinstance(base, tuple) and base and base[0] in ("single", "?", "global"):
            return key
        outs = []
        if recv is not None and base[:len(recv)] == recv:
            outs.append((("this",) + base[len(recv):], m))
        for p, a in zip(callee.get("params", ()), args):
            if a is not None and base[:len(a)] == a:
                outs.append(((("parm", p["id"]),) + base[len(a):], m))
        return outs[0] if outs else None

    def to_caller(self, key, recv, args, callee):
        base, m = key
        if isinstance(base, tuple) and base and base[0] in ("single", "?", "global"):
            return key
        if base[0] == "this":
            return None if recv is None else self.norm(recv + base[1:], m)
        if isinstance(base[0], tuple) and base[0][0] == "parm":
            for p, a in zip(callee.get("params", ()), args):
                if p["id"] == base[0][1] and a is not None:
                    return self.norm(a + base[1:], m)
        if isinstance(base[0], tuple) and base[0][0] == "single":
            return key
        return None

    def contexts(self):
        """lock sets that hold at every call of a non-public function"""
        callers = {}
        for i, s in self.sum.items():
            for c in s["calls"]:
                for t in self.targets(c[0], c[5]):
                    if t in self.sum:
                        callers.setdefault(t, []).append((i, c))
        self.callers = callers
        self.ctx = {}
        for i, s in self.sum.items():
            f = s["fn"]
            if "exempt" in s:
                self.ctx[i] = TOP
            elif f.get("access", 0) in (1, 2) and f.get("rec") is not None and callers.get(i):
                self.ctx[i] = TOP
            elif f.get("access", 0) in (1, 2) and f.get("rec") is not None and not f.get("virtual"):
                self.ctx[i] = TOP       # never called: no execution reaches it
            else:
                self.ctx[i] = frozenset()
        changed = True
        while changed:
            changed = False
            for i, s in self.sum.items():
                f = s["fn"]
                if self.ctx[i] == frozenset() or "exempt" in s or not callers.get(i):
                    continue
                new = TOP
                for j, c in callers[i]:
                    cj = self.ctx[j]
                    if cj is TOP:
                        if "exempt" in self.sum[j] and c[1] == ("this",):
                            continue            # construction of the object itself
                        if "exempt" not in self.sum[j]:
                            continue
                        cj = frozenset()
                    h = set()
                    for q in (c[3] | cj):
                        r = self.to_callee(q, c[1], c[2], f)
                        if r is not None:
                            h.add(r)
                    new = frozenset(h) if new is TOP else new & frozenset(h)
                if new is not TOP and (self.ctx[i] is TOP or new != self.ctx[i]):
                    self.ctx[i] = new if self.ctx[i] is TOP else new & self.ctx[i]
                    changed = True

    def accesses(self):
        """(field id, lock members held on the same object, function, line, node) for every relevant access"""
        for i, s in self.sum.items():
            f = s["fn"]
            ctx = self.ctx[i]
            for base, fld, held, line, node in s["acc"]:
                r = self.owner[fld]["id"]
                if base == ("this",) and s.get("exempt") is not None and r in self.bases(s["exempt"]):
                    continue
                if ctx is TOP and "exempt" not in s:
                    continue
                h = held | (ctx or frozenset())
                ms = set()
                for b, m in h:
                    if m in self.mutexes and self.owner[m]["id"] == r and (b == base or b == ("single", r)):
                        ms.add(m)
                yield fld, frozenset(ms), f, line, node

    def may_acquire(self):
        acq = {i: {q for q, _, _ in s["acq"]} for i, s in self.sum.items()}
        changed = True
        while changed:
            changed = False
            for i, s in self.sum.items():
                for c in s["calls"]:
                    for t in self.targets(c[0], c[5]):
                        if t not in acq:
                            continue
                        for q in list(acq[t]):
                            r = self.to_caller(q, c[1], c[2], self.p.fns[t])
                            if r is None:
                                r = (("?", self.owner[q[1]]["id"]), q[1]) if q[1] in self.owner else q
                            if r not in acq[i]:
                                acq[i].add(r)
                                changed = True
        return acq

    def orders(self):
        """(held key, acquired key, function, line, via) for every acquisition under a lock"""
        acq = self.may_acquire()
        for i, s in self.sum.items():
            for q, held, line in s["acq"]:
                for h in held:
                    yield h, q, s["fn"], line, None
            for c in s["calls"]:
                if not c[3]:
                    continue
                for t in self.targets(c[0], c[5]):
                    for q in acq.get(t, ()):
                        r = self.to_caller(q, c[1], c[2], self.p.fns[t])
                        if r is None:
                            r = (("?", self.owner[q[1]]["id"]), q[1]) if q[1] in self.owner else q
                        for h in c[3]:
                            yield h, r, s["fn"], c[4], self.p.fns[t]["qn"]
