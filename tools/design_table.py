#!/usr/bin/env python3
"""Rewrites DESIGN.md's table of planted bugs from seeded/*/meta.json, and its numbers of cases from the harness."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
one = lambda s: " ".join(s.split()).replace("|", "/")
rows = ["| planted bug | caught by | what it breaks | needs |", "|----|----|----|----|"]
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], one(m["what_it_breaks"]), one(m["needs"])))
d = os.path.join(here, "DESIGN.md")
s = open(d).read()
s = re.sub(r"(<!-- table -->\n).*(<!-- end -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
def short(n):
    return "%gM" % (n / 1e6) if n >= 1e6 else "%gk" % (n / 1e3) if n >= 1000 else str(n)
for p, q, t in re.findall(r'"(C\d+)" [\w:]+, (\d+), (\d+),', open(os.path.join(here, "harness/src/props/mod.rs")).read()):
    s, n = re.subn(r"(?m)^(\| %s \|.*\| )[\d.]+[kM]? / [\d.]+[kM]?" % p, lambda m: m.group(1) + short(int(q)) + " / " + short(int(t)), s)
    assert n == 1, (p, n)
open(d, "w").write(s)
