#!/usr/bin/env python3
"""seedtable.py LOG...: merge seedtest result lines into tools/seed_results.jsonl and rewrite the table of planted bugs in DESIGN.md"""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.dirname(here)
store = here + "/seed_results.jsonl"
res = {}
for p in ([store] if os.path.exists(store) else []) + sys.argv[1:]:
    for ln in open(p):
        try:
            j = json.loads(ln)
        except ValueError:
            continue
        if "id" in j:
            res.setdefault(j["id"], {}).update(j)
have = sorted(os.listdir(top + "/seeded"))
with open(store, "w") as f:
    for k in sorted(res):
        if k in have:
            f.write(json.dumps({a: b for a, b in res[k].items() if not a.startswith("v_")}) + "\n")
rows = []
for k in have:
    m = json.load(open(top + "/seeded/%s/meta.json" % k))
    j = res.get(k, {})
    ver = [(a[6:], b) for a, b in j.items() if a.startswith("check_")]
    out = ", ".join("%s %s" % (a, "caught" if b.startswith("CAUGHT") else "missed") for a, b in ver) or "not run"
    rows.append("| %s | %s | %s |" % (k, m["needs"].replace("|", "/"), out))
d = open(top + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
if a not in d:
    d += "\n## Planted bugs\n\nEach is kept in `seeded/`, was confirmed to build, to pass the 68 tests, and to fail its demonstration; the last column says which check saw it in the quick tier.\n\n" + a + b
i, j = d.index(a) + len(a), d.index(b)
d = d[:i] + "| planted bug | needs | outcome |\n|---|---|---|\n" + "\n".join(rows) + "\n" + d[j:]
open(top + "/DESIGN.md", "w").write(d)
print(len(rows), "rows", sum("not run" in r for r in rows), "not run", sum("missed" in r for r in rows), "missed")
