#!/usr/bin/env python3
"""Writes MANIFEST.json from props_meta.json-like table below and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(H, "tools/notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "props", i + ".py")) and i in NOTE:
        tech, level, note = NOTE[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "specified in DESIGN.md; the check is not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "LAMBDAPIC_VERIF", "enable": HOOKNOTE, "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": MNOTES}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
