"""Rewrites the tables of DESIGN.md (repairs, planted bugs) from known_findings.json, seeded/*/meta.json and tools/caught.json."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
caught = {}
try:
    caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
except FileNotFoundError:
    pass
fixes = ["| property | commit | what failed |", "|---|---|---|"]
for f in F:
    fixes.append("| %s | %s | %s |" % (f["property"], f.get("commit", "open"), re.sub(r"^fixed: property=\S+ \S+ ", "", f["what"])))
bugs = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", n, "meta.json")))
    c = caught.get(n)
    bugs.append("| %s | %s | %s | %s |" % (n, m["what_it_breaks"], m["needs"], ", ".join("%s (%s)" % (p, "run %s" % r if r is not None else "yes") for p, r in sorted(c.items())) if c else ("missed" if c == {} else "?")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
for name, rows in (("fixes", fixes), ("bugs", bugs)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
