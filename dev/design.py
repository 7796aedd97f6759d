#!/usr/bin/env python3
"""Fills in the generated tables of DESIGN.md (defects from known-findings.txt, planted bugs from seeded/ and dev/caught.json)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
def put(name, text):
    global s
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
rows = "| property | commit | what failed |\n|---|---|---|\n"
for l in open(V + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: rows += "| %s | %s | %s |\n" % m.groups()
put("defects", rows)
c = json.load(open(V + "/dev/caught.json"))
rows = "| planted bug | what it breaks | needs | the check of its property reports |\n|---|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    rows += "| %s | %s | %s | %s |\n" % (d, m["what_it_breaks"], m["needs"], c.get(d, "?"))
put("caught", rows)
open(V + "/DESIGN.md", "w").write(s)
