#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
d = collections.defaultdict(list)
for b in sorted(os.listdir(os.path.join(here, "seeded"))):
    d[json.load(open(os.path.join(here, "seeded", b, "meta.json")))["property"]].append(b)
head = "<!-- table -->\n"
tail = "<!-- end of table -->\n"
t = "| check | planted bugs it catches |\n|---|---|\n"
t += "".join("| %s | %s |\n" % (k, ", ".join(d[k])) for k in sorted(d))
t += "\n%d in all.\n" % sum(map(len, d.values()))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
i, j = s.index(head) + len(head), s.index(tail)
open(p, "w").write(s[:i] + t + s[j:])
