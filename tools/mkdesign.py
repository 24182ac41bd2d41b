#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md: the table of planted bugs (from
seeded/*/meta.json) and, with --cost, the table of costs (from evidence/*.json
of a run on the unchanged tree)."""
import glob, json, os, re, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def put(text, name, body):
    a, b = "<!-- %s:begin -->" % name, "<!-- %s:end -->" % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + body + text[j:]


p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()
rows = "| planted bug | property | needs |\n|---|---|---|\n"
n = 0
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    n += 1
    rows += "| `%s` | %s | %s |\n" % (os.path.basename(os.path.dirname(f)),
                                     m["property"], m["needs"].rstrip("."))
t = put(t, "seeds", rows)
if "--cost" in sys.argv:
    rows = ("| check | runs in the quick tier | runs per hour | distinct |\n"
            "|---|---|---|---|\n")
    for f in sorted(glob.glob(os.path.join(ROOT, "evidence", "*.json"))):
        d = json.load(open(f))
        c = d["coverage"]
        if d["tier"] != "quick" or d["violations"]:
            sys.exit("%s is not of a quiet quick run" % f)
        rows += "| %s | %d | %d | %d |\n" % (d["property"], c["evaluations"],
                                            c["runs_per_hour"],
                                            c["distinct_nontrivial"])
    t = put(t, "cost", rows)
open(p, "w").write(t)
print("%d planted bugs" % n)
