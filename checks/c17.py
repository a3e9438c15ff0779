"""C17: lock discipline of the pools in the thread-safe configuration."""
import front
from locks import Locks

# classes whose lock discipline is part of the property (read and confirmed); a missing one is an analysis error
POOLS = ["carl::VariablePool", "carl::MonomialPool", "carl::Pool", "carl::ConstraintPool", "carl::IDPool", "carl::IDGenerator", "carl::TermAdditionManager"]
# members that are not shared mutable state, one reason each
EXCEPT = {
    ("carl::VariablePool", "mVariablePrefix"): "configuration set before use",
}
SELF_SYNC = {"carl::IDPool", "carl::IDGenerator"}


def run(chk):
    chk.rule("lock sets: for every member of a pool that is written after construction some mutex of the same object is held at every access (contexts of private functions from all call sites, locals referring into the member count as accesses)")
    chk.rule("lock order: no non-recursive mutex is acquired while it is held, and the order in which different mutexes are taken is acyclic")
    chk.assume("guards are the standard lock objects or explicit lock/unlock; callbacks invoked by library templates (hashing, equality) take no pool lock")
    prog = front.load("locks.cpp", defines=("THREAD_SAFE",), root=r"^carl::(%s)(<.*>)?::|^carl::operator<<$" % "|".join(n.split("::")[1] for n in POOLS))
    L = Locks(prog, front.REPO, lambda r: r["name"] in POOLS)
    names = {r["name"] for r in L.classes.values()}
    for n in POOLS:
        if n not in names:
            chk.error("no mutex-owning class %s in the thread-safe configuration" % n)
    for f in L.fns:
        if f["id"] in L.sum and any(L.owner[a[1]]["name"] in POOLS for a in L.sum[f["id"]]["acc"]):
            chk.analysed(f)
    by = {}
    for fld, ms, f, line, node in L.accesses():
        by.setdefault(fld, []).append((ms, f, line))
    mut = mutated(L, prog)
    for fld, acc in sorted(by.items()):
        r = L.owner[fld]
        name = (r["name"], L.fname[fld])
        ft = L.recname(next(x["t"] for x in r["fields"] if x["id"] == fld))
        if ft in SELF_SYNC or name in EXCEPT or fld not in mut:
            continue
        chk.count("obligations member accesses", len(acc))
        chk.count("guarded members")
        cands = {}
        for ms, f, line in acc:
            for m in ms:
                cands[m] = cands.get(m, 0) + 1
        best = max(cands, key=cands.get) if cands else None
        for ms, f, line in acc:
            if best is None or best not in ms:
                chk.violation("every access of %s::%s holds the mutex that guards it" % name, "%s:%d %s" % (f["file"], line, f["qn"]),
                              "%s::%s accessed in %s" % (name + (f["qn"],)),
                              "lock set %s, the other accesses hold %s" % (sorted(L.fname[m] for m in ms), L.fname[best] if best else "no common mutex"),
                              key="%s::%s@%s" % (name + (f["qn"],)))
    edges = {}
    for h, q, f, line, via in L.orders():
        chk.count("obligations acquisitions under a lock")
        a = key(L, h), key(L, q)
        if same(h, q) and not L.mutexes.get(q[1], True):
            chk.violation("a held non-recursive mutex is not acquired again", "%s:%d %s" % (f["file"], line, f["qn"]),
                          "%s acquired again%s" % (a[1], " through " + via if via else ""), "", key="reacquire:%s@%s" % (a[1], f["qn"]))
        if a[0] != a[1]:
            edges.setdefault(a, (f, line, via))
    graph = {}
    for (a, b) in edges:
        graph.setdefault(a, set()).add(b)
    for (a, b), (f, line, via) in sorted(edges.items(), key=str):
        chk.count("lock order edges")
        if reach(graph, b, a):
            chk.violation("mutexes are taken in one order", "%s:%d %s" % (f["file"], line, f["qn"]), "%s taken while %s is held, and the other way round elsewhere" % (b, a), "", key="order:%s<%s" % (a, b))
    chk.count("functions walked", len(L.sum))
    chk.require("obligations member accesses", 40)
    chk.require("guarded members", 11)
    chk.require("obligations acquisitions under a lock", 3)


def key(L, q):
    return "%s::%s" % (L.owner[q[1]]["name"], L.fname[q[1]]) if q[1] in L.owner else str(q)


def same(h, q):
    return h[1] == q[1] and (h[0] == q[0] or (isinstance(q[0], tuple) and q[0][:1] == ("?",)) and False)


def reach(g, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += g.get(x, ())
    return False


def mutated(L, prog):
    """fields written (or bound to something non-const) outside constructors and destructors"""
    out = set()

    def visit(n, parent, chain, skip):
        if isinstance(n, dict):
            if n.get("k") == "Member" and n.get("d") == "field" and n["id"] in L.owner:
                if not prog.types[n["t"]].get("const") and not readonly(chain + [n], prog) and not (skip and L.owner[n["id"]]["id"] in skip):
                    out.add(n["id"])
            for v in n.values():
                if isinstance(v, (dict, list)):
                    visit(v, n, chain + [n], skip)
        elif isinstance(n, list):
            for v in n:
                visit(v, parent, chain, skip)
    for i, s in L.sum.items():
        f = s["fn"]
        skip = L.bases(f["rec"]) if "exempt" in s else None
        visit(f.get("body"), None, [], skip)
    return out


def readonly(chain, prog):
    """the context of a member expression only reads it"""
    child = None
    for p in reversed(chain):
        k = p.get("k")
        if k in ("Member", "Wrap", "Sub", "Cond"):
            if prog.types[p["t"]].get("const"):
                return True
        elif k == "Cast":
            if p["ck"] == "LValueToRValue" or prog.types[p["t"]].get("const"):
                return True
        elif k in ("Call", "MCall", "OCall", "Ctor"):
            f = prog.fns.get(p.get("fn"))
            if f is None:
                return False
            args = list(p.get("a", ()))
            if k == "MCall" and (child is None or child is p.get("o")):
                return bool(f.get("const"))
            if k == "OCall" and p.get("member") and args and child is args[0]:
                return bool(f.get("const"))
            if k == "OCall" and p.get("member"):
                args = args[1:]
            for x, q in zip(args, f.get("params", ())):
                if x is child:
                    t = prog.types[q["t"]]
                    return t["c"] not in ("ref", "rref", "ptr") or bool(prog.types[t["to"]].get("const"))
            return False
        else:
            return False
        child = p
    return False
