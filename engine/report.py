"""Result collection, evidence and exit codes shared by all checks."""
import json, os, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known-findings.txt")


class AnalysisError(Exception):
    pass


def known_findings(prop):
    """{key: text} of unfixed findings of this property (lines 'finding: property=ID key=KEY text')"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: "):
                parts = line[len("finding: "):].strip().split(" ", 2)
                if parts[0] == "property=" + prop:
                    out[parts[1][len("key="):]] = parts[2] if len(parts) > 2 else ""
    return out


class Check:
    def __init__(self, prop, level="other"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.counts = {}
        self.minimum = {}
        self.violations = []
        self.known = known_findings(prop)
        self.known_hit = {}
        self.functions = set()
        self.rules = []
        self.assumptions = []
        self.errors = []
        self.extra = {}

    # --- recording
    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def require(self, what, n):
        """fail the analysis when fewer than n instances of `what` were analysed"""
        self.minimum[what] = n

    def analysed(self, fn):
        self.functions.add("%s:%s %s" % (fn["file"], fn.get("line", "?"), fn["qn"]))

    def violation(self, rule, where, instance, detail="", key=None):
        """key: stable identification used by the known-findings file"""
        k = key or instance
        if k in self.known:
            self.known_hit.setdefault(k, []).append(detail)
            return
        self.violations.append({"rule": rule, "where": where, "instance": instance, "detail": detail, "key": k})

    def error(self, msg):
        self.errors.append(msg)

    # --- finish
    def finish(self):
        for w, n in self.minimum.items():
            if self.counts.get(w, 0) < n:
                self.errors.append("only %d instances of '%s' analysed, at least %d expected (anchor vanished?)" % (self.counts.get(w, 0), w, n))
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        total = sum(v for k, v in self.counts.items() if k.startswith("obligations"))
        data = {
            "property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
            "coverage": {
                "explanation": "static analysis of the resolved program; " + " | ".join(self.rules),
                "obligations": total, "discharged": total - len(self.violations) - sum(len(v) for v in self.known_hit.values()),
                "counts": self.counts, "functions_analysed": len(self.functions),
                "functions": sorted(self.functions)[:400]},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": [dict(v) for v in self.violations[:50]],
        }
        data["coverage"].update(self.extra)
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump(data, f, indent=1)
        print("%s: analysed %s; %d functions; %.1f s" % (self.prop, ", ".join("%s=%d" % kv for kv in sorted(self.counts.items())), len(self.functions), time.time() - self.t0))
        for r in self.rules:
            print("  rule:", r)
        for k, d in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s: %s (%d instances)" % (self.prop, k, self.known[k], len(d)))
        if self.violations:
            rp = os.path.join(ev, self.prop + ".violations.txt")
            with open(rp, "w") as f:
                for v in self.violations:
                    f.write("%s: rule [%s] instance [%s]\n    %s\n" % (v["where"], v["rule"], v["instance"], v["detail"]))
            shown = {}
            for v in self.violations:
                k = (v["rule"], v["where"])
                shown[k] = shown.get(k, 0) + 1
                if shown[k] <= 3:
                    print("  %s: rule [%s] instance [%s]\n      %s" % (v["where"], v["rule"], v["instance"], v["detail"]))
            print("  %d violating instances, full list in %s" % (len(self.violations), rp))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            for e in self.errors[:10]:
                print("  (analysis incomplete: %s)" % e)
            return 1
        if self.errors:
            for e in self.errors[:20]:
                print("ANALYSIS-ERROR: %s" % e)
            return 2
        return 0
