#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(root, "DESIGN.md")
s = open(d).read()
head = s[:s.index("CATCHTABLE")] if "CATCHTABLE" in s else s[:s.index("| planted bug |")]
rows = []
for b in os.listdir(os.path.join(root, "seeded")):
    m = json.load(open(os.path.join(root, "seeded", b, "meta.json")))
    rows.append((m["property"], b, m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")))
t = "| planted bug | caught by | what it breaks | needs |\n|---|---|---|---|\n"
t += "".join("| %s | %s | %s | %s |\n" % (b, p, w.replace("|", "/"), n.replace("|", "/")) for p, b, w, n in sorted(rows))
open(d, "w").write(head + t)
