#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (section 6)."""
import json, os, re
V = "/verif"; rows = []
for n in sorted(os.listdir(V + "/seeded"), key=lambda n: (json.load(open(V + "/seeded/%s/meta.json" % n))["property"], n)):
    m = json.load(open(V + "/seeded/%s/meta.json" % n)); f = re.findall(r"^\+\+\+ b/(\S+)", open(V + "/seeded/%s/patch.diff" % n, newline="").read(), re.M)
    rows.append("| %s | `%s` | %s | %s | %s |" % (m["property"], n, ", ".join(os.path.basename(x.strip()) for x in f), m["what_it_breaks"], m["needs"]))
t = "<!-- seeds -->\n| caught by | name | file | what it breaks | needs |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = V + "/DESIGN.md"; s = open(p).read()
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
