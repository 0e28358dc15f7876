"""Writes MANIFEST.json from the property modules that exist."""
import importlib.util, json, os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B run.py"
TECH = {
    "C01": "reference-model monitor (independent forward simulation) over random workloads",
    "C02": "calibrate/solve round-trip monitor with reference truth",
    "C03": "invariant monitors (mass action, mass balance, proton balance) on outputs",
    "C04": "inverse/metamorphic monitors and Nernst reference",
    "C05": "reference-model and metamorphic unit-equivalence monitors",
    "C06": "differential monitor against PyCO2SYS top-level results, conservation monitors",
    "C07": "window/optimality monitors, non-interference by perturbation",
    "C08": "reference-model monitor of the Gran equations",
    "C09": "metamorphic symmetry monitors",
    "C10": "differential isolation monitor (table vs single titration)",
    "C11": "fault injection with containment monitors and file-open audit hook",
    "C12": "reference-model monitor of batch statistics",
    "C13": "option-precedence monitor by differential runs",
    "C14": "purity monitors: snapshots, replayed histories, threads, audit hook",
    "C15": "round-trip and reference-parser monitors on generated files",
    "C16": "differential monitor against pandas and generated database files",
    "C17": "cross-level agreement and internal-consistency monitors",
    "C18": "conservation monitors on simulated titrations",
    "C19": "conservation and recovery monitors on the DIC-loss model",
    "C20": "figure-introspection monitors against the plotted data",
    "C21": "diagnostics monitors (warnings and refusals) under misuse workloads",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "vmon", "props", i.lower() + ".py")):
        checks.append(dict(
            property=i, quick_cmd=f"VERIF_TIER=quick {PY} {i}", thorough_cmd=f"VERIF_TIER=thorough {PY} {i}",
            technique="runtime monitoring: " + TECH[i], level="exploration",
            level_note="Held on every execution observed (seeded, replayable workloads; counts in the evidence file). "
                       "Assumes PyCO2SYS, NumPy, SciPy and pandas; trusts the reference model in vmon/ref.py."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B tools/setup.py",
         hooks=dict(guard="none", enable="No hooks in /repo: the monitors wrap and observe the public API from outside (vmon/harness.py)."),
         checks=checks, not_applicable=na,
         notes="Every check imports the package from /repo's working tree; replay with run.py <ID> --replay <file>.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
