"""Writes MANIFEST.json for every property that has a module in props/."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(l)
    pid = d["id"]
    if not os.path.exists(os.path.join(here, "props", pid.lower() + ".py")):
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"sh run.sh {pid} --tier quick",
        "thorough_cmd": f"sh run.sh {pid} --tier thorough",
        "technique": "property-based testing: Hypothesis-generated and exhaustively enumerated small cases against an independent numpy reference / metamorphic oracle, with shrinking to a replay file",
        "level": "exploration",
        "level_note": "holds on every generated case of the seeded run; counts, label distribution and samples in evidence/%s.json" % pid,
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '.'); from lib import boot; import tempfile; boot.boot(tempfile.mkdtemp()); print('ok')\"", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
