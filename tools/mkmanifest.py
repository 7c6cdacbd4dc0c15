"""Writes /verif/MANIFEST.json from vt/props.py and properties.jsonl."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "vt"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append({"property": i, "quick_cmd": "python3 vt/check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 vt/check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": p["technique"], "level": "exploration",
                   "level_note": p.get("note", "Sampled executions of the real code under ASan+UBSan; the oracle is exact for each execution seen.")})
m = {"version": 1, "setup_cmd": "python3 vt/build.py --all",
     "checks": checks,
     "not_applicable": [{"property": i, "reason": "no check yet"} for i in ids if i not in PROPS],
     "notes": "Everything is rebuilt from /repo's working tree into /verif/.build (ignored by git). No hooks in /repo."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
