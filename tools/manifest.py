#!/opt/venv/bin/python
"""Writes MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
os.chdir(VERIF)
import check as chk  # noqa: E402
chk.import_code()
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"mc/checks/{i.lower()}.py"):
        m = importlib.import_module(f"mc.checks.{i.lower()}")
        checks.append({
            "property": i, "quick_cmd": f"./check.py {i} --tier quick", "thorough_cmd": f"./check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": m.TECHNIQUE, "level": m.LEVEL,
            "level_note": m.RULE + ". Bounds (quick): " + m.BOUNDS["quick"] + ". Assumes: " + "; ".join(m.ASSUMPTIONS),
        })
    else:
        na.append({"property": i, "reason": "not claimed yet: the exhaustive exploration for it is still being built"})
out = {
    "version": 1, "setup_cmd": "./check.py --warm", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo are needed. Every check imports the working tree of /repo in a fresh interpreter.",
}
json.dump(out, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
