"""Writes properties.jsonl and MANIFEST.json from tools/table.py and engine/props.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "engine"), os.path.dirname(os.path.abspath(__file__))]
from table import T, NA          # noqa: E402
from props import PROPS          # noqa: E402

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i, r in T.items():
        f.write(json.dumps({"id": i, "title": r["title"], "statement": r["statement"],
                            "quantifier": {"over": r["over"], "text": r["text"]}, "why_tests_cant": r["why"],
                            "anchors": {"files": r["files"], "mechanism": [{"name": n, "where": w} for n, w in r["mech"]]}}) + "\n")
checks, na = [], []
for i, r in T.items():
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": r["technique"], "level": "other",
                       "level_note": r["note"] or "static: every path of every listed entry point, loops by summary; obligations that rewriting does not settle are compared pointwise on the derived summaries, see DESIGN.md"})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 engine/build.py", "checks": checks, "not_applicable": na,
           "notes": "check.py <id> decides one property; known_findings.json lists recorded defects; tools/mk.py regenerates this file and properties.jsonl."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
