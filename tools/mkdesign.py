#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (template DESIGN.in.md) from props.py and seeded/."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); sys.path.insert(0, HERE)
from props import PROPS
def desc(p):
    q = PROPS[p]["suites"](False)
    d = {}
    for s in q: d.setdefault(s["kind"] + (" faults" if s.get("fault") else "") + (" [" + ",".join("%s=%s" % kv for kv in sorted(s["cfg"].items())) + "]" if s.get("cfg") else ""), set()).add(s["c"])
    t = "; ".join("%s ×%d containers" % (k, len(v)) for k, v in d.items())
    m = PROPS[p].get("modules")
    return t + ("; modules " + ", ".join(x[0] for x in m(False)) if m else "")
rows = "\n".join("| %s | %s | %s |" % (p, ", ".join(PROPS[p]["clauses"]), desc(p)) for p in sorted(PROPS))
sd = os.path.join(ROOT, "seeded"); L = []
for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    f = os.path.join(sd, n, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f)); L.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/"), m.get("caught", "")))
seed = "| id | property | what it breaks | quick checks that catch it |\n|---|---|---|---|\n" + "\n".join(L)
s = open(os.path.join(ROOT, "DESIGN.in.md")).read().replace("@@TABLE@@", rows).replace("@@SEEDED@@", seed)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
