#!/usr/bin/env python3
"""Refresh the generated tables of DESIGN.md (findings, planted bugs). Text outside the markers is untouched."""
import re, json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read()
def put(name, body):
    global t
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + "\n" + body + "\n" + t[j:]
f = {}
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: f.setdefault(m[1], []).append("  - `%s` %s" % (m[2], m[3]))
put("findings", "\n".join("- **%s**\n%s" % (k, "\n".join(f[k])) for k in sorted(f)))
n = json.load(open(V + "/tools/seed_notes.json")) if os.path.exists(V + "/tools/seed_notes.json") else {}
rows = ["| planted bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), n.get(i, m["property"])))
put("seeded", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
