#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run in /verif)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.path.insert(0, os.path.join(H, "tools"))
sys.dont_write_bytecode = True
from props import P, NA
from vp.checks import REGISTRY
allp = dict(P); 
lines, checks, na = [], [], []
for pid in sorted(allp):
    p = allp[pid]
    assert len(p["title"]) <= 80, (pid, len(p["title"]))
    lines.append(json.dumps({
        "id": pid, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["tests"],
        "anchors": {"files": p["files"], "mechanism": p["mech"]}}))
    if pid in NA:
        assert pid not in REGISTRY
        na.append({"property": pid, "reason": NA[pid]})
    else:
        assert pid in REGISTRY, pid
        checks.append({"property": pid, "quick_cmd": "bin/check %s quick" % pid, "thorough_cmd": "bin/check %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid, "technique": p["tech"], "level": REGISTRY[pid][1], "level_note": p["note"]})
open(os.path.join(H, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "bin/setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
