#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from mk/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, TECH, NA, HOOKS
root = os.path.dirname(here)
ids = set()
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert p["id"] not in ids, p["id"]
        ids.add(p["id"])
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"]},
        }, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    t = TECH[p["tech"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": t[0], "level": "other",
        "level_note": t[1] + (" " + p["note"] if p.get("note") else ""),
    })
json.dump({
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "One analyser (tool/, Go, built offline from the module cache by setup_cmd or on first use) decides every property from /repo's current source; see DESIGN.md.",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(PROPS), "claimed", len(NA), "not applicable")

# the table of planted bugs in DESIGN.md
import glob, re
by = {}
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    by.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
d = os.path.join(root, "DESIGN.md")
text = open(d).read()
table = "| property | planted |\n|---|---|\n" + "".join("| %s | %s |\n" % (k, ", ".join(by[k])) for k in sorted(by))
text = re.sub(r"(<!-- seeds -->\n).*(<!-- /seeds -->)", lambda m: m.group(1) + table + m.group(2), text, flags=re.S)
open(d, "w").write(text)
