#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md: the not-applicable list (from MANIFEST.json) and the table of planted bugs."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
title = {p["id"]: p["title"] for p in map(json.loads, open(os.path.join(ROOT, "properties.jsonl")))}
na = "\n".join("* **%s** (%s): %s." % (n["property"], title[n["property"]], n["reason"]) for n in m["not_applicable"])
rows = ["| planted bug | caught by | breaks |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["what_it_breaks"].replace("|", "/")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
for tag, text in (("NA", na), ("SEEDS", "\n".join(rows))):
    block = "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, text, tag)
    s = s.replace("@@%s@@" % tag, block)
    s = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (tag, tag), lambda _: block, s, flags=re.S)
open(p, "w").write(s)
