"""Write MANIFEST.json (development aid)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rules
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ("static analysis of rustc MIR: hand-written structural rules (call order, guards, effects, lock and typestate obligations over the call graph) "
     "plus behavioural contracts - per-function effect/guard/decision facts confirmed on the reference tree and re-derived from the current source on every run")
m = {"version": 1, "setup_cmd": "python3 engine/facts.py --driver", "checks": [], "not_applicable": []}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    m["checks"].append(dict(property=p, quick_cmd=f"python3 engine/check.py {p}", thorough_cmd=f"python3 engine/check.py {p} --tier thorough",
                            technique=T, level="other", level_note=rules.explain(p)[:600]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
