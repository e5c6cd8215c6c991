#!/usr/bin/env python3
"""Rewrites the list of planted bugs at the end of DESIGN.md from seeded/ and seeded_tcc/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in ("seeded", "seeded_tcc"):
    for k in sorted(os.listdir(V + "/" + d)):
        by.setdefault(json.load(open("%s/%s/%s/meta.json" % (V, d, k)))["property"], []).append(k + ("*" if d != "seeded" else ""))
text = open(V + "/DESIGN.md").read()
head = text[:text.index("## Planted bugs")]
out = head + """## Planted bugs

`seeded/<id>/` holds %d bugs (patch, demonstration, what it needs); `seeded_tcc/` %d more, marked *, that
only touch `.tcc` files. Each passes the existing tests and is caught by the check of the property it is
listed under, in the quick tier with seed 1. Those that were missed at first led to what the checks now
generate: containers of 64 KiB objects, fields beyond 2^15 and 2^16 bytes, Values inside containers,
const owners, locales, ids used before their loaders, globals changed by others, scopes across threads.

| Property | Bugs its check catches |
|---|---|
""" % (sum(1 for l in by.values() for x in l if not x.endswith("*")), sum(1 for l in by.values() for x in l if x.endswith("*")))
for p in sorted(by): out += "| %s | %s |\n" % (p, ", ".join(by[p]))
open(V + "/DESIGN.md", "w").write(out)
