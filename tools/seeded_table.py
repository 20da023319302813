#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (run by hand)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# checks other than the property's own that were seen to catch it too
ALSO = {"c09-russia-working": "C15", "c09-holiday-weekend": "C10", "c22-last-knot-upper": "C27",
        "c32-penultimate-exclusive": "C35", "c34-swallow-error": "C35, C36", "c35-rate-precision": "C32",
        "c22-index-u16": "C23", "c30-cache-evict": "C29", "c34-zero-coupon": "C35", "c35-id-cache": "C32, C34"}
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    cell = lambda s: s.replace("|", "/").replace("\n", " ")
    by = m["property"] + (", " + ALSO[d] if d in ALSO else "")
    rows.append(f"| {d} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {by} |")
p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()
a, b = "<!-- seeded table -->\n", "<!-- end -->"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
