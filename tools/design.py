#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (repaired defects, planted bugs) from known_findings.json and seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
rows = ["| property | commit | what failed |", "|---|---|---|"]
for l in json.load(open(V + "/known_findings.json"))["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    rows.append("| %s | %s | %s |" % m.groups())
s = re.sub(r"(<!-- fixed:begin -->\n).*?(<!-- fixed:end -->)", lambda m: m[1] + "\n" + "\n".join(rows) + "\n\n" + m[2], s, flags=re.S)
rows = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"] if m.get("caught", True) else "missed (" + m["property"] + ")", m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
s = re.sub(r"(<!-- seeds:begin -->\n).*?(<!-- seeds:end -->)", lambda m: m[1] + "\n" + "\n".join(rows) + "\n\n" + m[2], s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
