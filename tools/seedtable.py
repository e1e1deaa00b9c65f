#!/usr/bin/env python3
"""seedtable.py LOG...: rewrite the table of planted changes at the end of DESIGN.md from logs of tools/runseeds.sh."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f, encoding="utf-8", errors="replace"):
        m = re.match(r"(\S+) (C\d\d) rc=(\d+)", l)
        if m:
            res[m[1]] = (m[2], m[3])
rows, missed = [], []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    meta = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    p, rc = res.get(d, (meta["property"], "?"))
    out = {"1": "caught", "0": "missed", "?": "not run"}.get(rc, "no answer")
    if rc != "1":
        missed.append(d)
    rows.append((meta["property"], d, meta["needs"].replace("|", "/"), out))
rows.sort()
t = f"{len(rows)} changes, {len(rows) - len(missed)} caught by the quick check of the property they break.\n\n| property | change | needs | quick check |\n|---|---|---|---|\n"
t += "".join(f"| {a} | {b} | {c} | {d} |\n" for a, b, c, d in rows)
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
mark = "<!-- seed table -->\n"
assert mark in s
open(p, "w").write(s[: s.index(mark)] + mark + t)
print(len(rows), "changes; not caught:", missed)
