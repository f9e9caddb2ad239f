"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
CLAIMED = json.load(open(os.path.join(HERE, "claimed.json")))
NA = {
 "N": "Pure function of its input: no schedule, clock, I/O, fault or interleaving takes part in it, so "
      "deterministic simulation has nothing to decide; generating inputs for it would be property testing.",
 "N11": "Drawing is a pure function of the lattice handed to matplotlib; no schedule, I/O or fault of lattpy takes part in it.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique="deterministic simulation with fault injection: " + CLAIMED[i]["technique"],
                           level="exploration", level_note=CLAIMED[i]["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, NA["N"]) if i.startswith("N") else "check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every seam is an interface Python already exposes (builtins.open, threading, sys.settrace, scipy's cKDTree, callbacks). See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
