#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and registry.json.  Run after editing tools/props_table.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from props_table import PROPS, NA
TECH = "static analysis: compiler IR of the library's own templates -> gated value graph -> algebraic value numbering against the specification expression; interval/sign facts for gates; bounds and UB traps as reachability obligations"
reg = {}; man = []; lines = []
for p in PROPS:
    reg[p["id"]] = {k: p[k] for k in ("probes", "rules", "explanation", "assumptions") if k in p}
    man.append(dict(property=p["id"], quick_cmd="python3-vt check.py %s" % p["id"], thorough_cmd="python3-vt check.py %s --thorough" % p["id"],
                    technique=p.get("technique", TECH), level=p.get("level", "proof"), level_note=p["bounds"]))
for p in PROPS + NA:
    assert len(p["title"]) <= 80, p["title"]
    lines.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p.get("over", ["inputs"]), text=p["text"]),
                                 why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]]))))
open(H + "/registry.json", "w").write(json.dumps(reg, indent=1) + "\n")
open(H + "/properties.jsonl", "w").write("\n".join(lines) + "\n")
json.dump(dict(version=1, setup_cmd="true", checks=man, not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA]), open(H + "/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "claimed", len(NA), "not applicable")
