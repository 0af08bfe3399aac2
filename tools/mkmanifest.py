#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (harness/props/cNN.py) and properties.jsonl."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
NOTE = json.loads((V / "tools" / "notes.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "harness" / "props" / f"{i.lower()}.py").exists():
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                       "technique": "TLA+ specification checked with TLC; TLC-generated behaviours replayed on the code and recorded behaviours of the code judged by TLC",
                       "level": "model_checking", "level_note": NOTE.get(i, NOTE["*"])})
    else:
        na.append({"property": i, "reason": NOTE.get("na:" + i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "hooks": {"guard": "none", "enable": "no hooks were needed", "source_commits": []}, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
