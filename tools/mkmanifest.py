#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the engines"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engines import ENGINES, NOTE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ENGINES:
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s quick" % i,
            "thorough_cmd": "python3 tools/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification checked with TLC; " + NOTE.get(i, NOTE["*"])[0],
            "level": "model_checking",
            "level_note": NOTE.get(i, NOTE["*"])[1],
        })
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the public API exposes the state", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "see DESIGN.md; known-findings.txt lists findings and repairs",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
