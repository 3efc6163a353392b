"""Writes MANIFEST.json from the check modules present (one entry per claimed property)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import make_properties as mp
NOT_APPLICABLE = {}
PY = "/opt/venv/bin/python"
checks, na = [], []
for q in mp.P:
    pid = q["id"]
    if not os.path.exists(os.path.join(HERE, "mon", pid.lower() + ".py")):
        na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "no check has been built for it yet")})
        continue
    m = importlib.import_module("mon." + pid.lower())
    checks.append({
        "property": pid, "quick_cmd": f"{PY} -m mon {pid}", "thorough_cmd": f"{PY} -m mon {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": getattr(m, "TECHNIQUE", "runtime monitoring: real calls judged by an independent reference model"),
        "level": "exploration",
        "level_note": getattr(m, "NOTE", "Every generated execution of the real code is judged by the monitor; what was"
                              " not generated is not covered. Trusts NumPy/SciPy primitives used by the reference model."),
    })
doc = {"version": 1, "setup_cmd": f"{PY} -c \"import numpy, scipy, pandas, matplotlib\"", "checks": checks,
       "not_applicable": na,
       "notes": "No hooks were needed in /repo: the monitors observe public calls, intercepted primitives and process output."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(checks), "checks;", [n["property"] for n in na])
