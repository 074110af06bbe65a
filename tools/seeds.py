#!/usr/bin/env python3
"""Rewrites the list of planted changes at the end of DESIGN.md."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(os.path.join(root, "tools", "missed.txt")).read().split())
by = {}
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    by.setdefault(m["property"], []).append((d, m["needs"]))
head = "## Planted changes and the checks that catch them\n"
p = os.path.join(root, "DESIGN.md")
s = open(p).read().split(head)[0].rstrip("\n") + "\n\n" + head + """
Each is in seeded/<id>, and is caught by the quick check of its property (other
checks may report it, too). Those marked * were missed when they were planted;
the check was then strengthened in general (more ways to build, read or change
the objects), not for the change itself.

"""
for prop in sorted(by):
    s += "* %s: %s\n" % (prop, "; ".join("`%s`%s (%s)" % (d, " *" if d in missed else "", n) for d, n in by[prop]))
open(p, "w").write(s)
