#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the property table, the harness directives, known_findings.txt and seeded results."""
import os, sys, re, json, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = open(R + "/bin/design_head.md").read()
o += "## Properties\n\n"
for p in PROPS:
    o += "### %s — %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if p["id"] in NA: o += "Not applicable: %s\n\n" % NA[p["id"]]; continue
    for h in sorted(glob.glob(R + "/harness/%s_*.cpp" % p["id"])):
        t = open(h).read(); g = lambda k: re.findall(r"^//@%s (.*)$" % k, t, re.M)
        cs = g("case"); q = [c.split()[0] for c in cs if "thorough" not in c.split()]; th = [c.split()[0] for c in cs if "thorough" in c.split()]
        o += "* harness `%s`; cases on every run: %s%s\n" % (os.path.relpath(h, R), ", ".join(q), "; thorough only: " + ", ".join(th) if th else "")
        for b in g("bound"): o += "* bounds: %s\n" % b
        for b in g("assume"): o += "* assumed: %s\n" % b
    o += "* oracle: %s; code: %s\n* why tests cannot settle it: %s\n" % (p.get("oracle", "the asserted model in the harness, written from the statement"), ", ".join("`%s`" % f for f in p["files"].split()), p["why"])
    c = os.path.join(R, "bin", "costs.json")
    if os.path.exists(c):
        d = json.load(open(c)).get(p["id"])
        if d: o += "* cost (8 cores, quick): %s s, %s paths, %s queries, solver %s s\n" % tuple(d)
    o += "\n"
if NA:
    o += "## Not applicable\n\n"
    for k, v in NA.items(): o += "* %s: %s\n" % (k, v)
o += "\n## Genuine defects found\n\nRepaired (each one `fix:` commit in /repo; the check reports the defect again if it returns) or recorded as known findings:\n\n"
for l in open(R + "/known_findings.txt"):
    if l.startswith(("fixed:", "finding:")): o += "* " + l
o += "\n" + open(R + "/bin/design_tail.md").read()
o += "\n## Planted bugs and which checks catch them\n\n| change | property | needs | caught by |\n|---|---|---|---|\n"
res = json.load(open(R + "/bin/seeded_results.json")) if os.path.exists(R + "/bin/seeded_results.json") else {}
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); o += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], res.get(i, "?"))
open(R + "/DESIGN.md", "w").write(o)
