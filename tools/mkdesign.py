#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md (defects repaired, planted bugs).
  mkdesign.py DIR     DIR/<id>.chk holds the output of 'seed.py check <id>'
"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md"); s = open(p).read()
def put(name, body):
    global s
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + body + "\n" + s[j:]
k = json.load(open(os.path.join(ROOT, "known-findings.json")))
rows = ["| found by | commit | what failed |", "|---|---|---|"]
for e in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", e)
    rows.append("| %s | %s | %s |" % m.groups())
put("fixed", "\n".join(rows))
rows = ["| planted bug | breaks | what it breaks | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    f = os.path.join(sys.argv[1], i + ".chk") if len(sys.argv) > 1 else ""
    t = open(f).read() if f and os.path.exists(f) else ""
    c = sorted(set(re.findall(r"^%s (C\d\d) CAUGHT" % re.escape(i), t, re.M)))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " ")[:160], ", ".join(c) or "-"))
put("planted", "\n".join(rows))
open(p, "w").write(s)
