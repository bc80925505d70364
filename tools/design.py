#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs and what catches them"
t = open(os.path.join(R, "DESIGN.md")).read()
t = t[:t.index(MARK)] if MARK in t else t.rstrip() + "\n\n"
missed = set(l.split()[0] for l in open(os.path.join(R, "tools", "missed.txt"))) if os.path.exists(os.path.join(R, "tools", "missed.txt")) else set()
t += MARK + "\n\nEvery one is in `seeded/`; each was confirmed in a copy of the repository (builds, the tests pass, its demo fails).\n\n| bug | what it breaks | caught by |\n|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(R, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    n = os.path.basename(d)
    t += "| %s | %s | %s |\n" % (n, m["what_it_breaks"].replace("|", "/").replace("\n", " "), "missed" if n in missed else m["property"])
open(os.path.join(R, "DESIGN.md"), "w").write(t)
