#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run it after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "include/dd/Package.hpp"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, state=state or [], observe=observe or []))


exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")

conf = json.load(open(os.path.join(V, "props.json")))
checks = []
for p in PROPS:
    if p["id"] not in conf:
        print("no check yet:", p["id"])
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                   "technique": "property-based testing (random structured generation, explicit oracle, shrinking; coverage-guided fuzzing in the thorough tier)",
                   "level": "exploration", "level_note": p["note"]})
m = {"version": 1,
     "setup_cmd": "clang++ --version && python3 -c 'import json; json.load(open(\"props.json\"))'",
     "hooks": {"guard": "none", "enable": "no hooks: the library is header-only and the checks compile it unchanged from /repo/include", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "Every check builds its harness from /repo/include in two variants (default configuration, and tiny tables with AddressSanitizer/UBSan), generates cases, compares with dense reference models, and shrinks failures to a choice tape that `./check ID --replay FILE` re-runs."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
