import importlib, json, os, sys
sys.path.insert(0, "/verif")
sys.path.insert(0, "/verif/tools")
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = {
 "C17": "Pure function of its arguments: no schedule, time, I/O, randomness or shared state for the simulator to decide. (The C09 simulation compares every evaluation with an independent optics reference on the way, but what C17 quantifies over is inputs only.)",
 "C18": "Pure function of its arguments: nothing for a scheduler or fault injector to act on; it is an input-space property (the C09 reference covers the mixing rules incidentally).",
 "C19": "Pure mathematical relation between two output arrays of one stateless call; no nondeterminism to simulate.",
 "C20": "Pure function of two numbers; no nondeterminism to simulate.",
}
NOTES = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    f = f"/verif/checks/{i.lower()}.py"
    if not os.path.exists(f):
        na.append(dict(property=i, reason="check not built yet"))
        continue
    m = importlib.import_module("checks." + i.lower())
    checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python run.py {i} --tier quick",
        thorough_cmd=f"/opt/venv/bin/python run.py {i} --tier thorough",
        technique="deterministic simulation with fault injection: seeded search over " + m.TECH,
        level=m.LEVEL, level_note=m.NOTE + " Assumes: " + "; ".join(m.ASSUME) + "."))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
  notes="No hooks in /repo: the seams are builtins.open, sys.settrace, user-written materials and the pool argument. Replay: run.py PROP --replay FILE."),
  open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
