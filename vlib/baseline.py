"""Regenerates contracts/baseline.json: signatures of the functions as extracted from the pinned
tree, used only to state an assumed contract for a function that cannot be extracted later."""
import json, subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import assemble
V = assemble.VERIF
subprocess.run([V + "/extractor/target/debug/extractor", "/repo/src", V + "/contracts/kinds.json", "/tmp/x.json"], check=True)
x = json.load(open("/tmp/x.json"))
pr = assemble.Program(x)
out = {}
for p, f in x["fns"].items():
    out[p] = {k: v for k, v in f.items() if k not in ("body", "calls")}
    out[p]["names"] = assemble.Program.names_of(f)
    out[p]["callees"] = sorted(pr.calls(p))
json.dump(out, open(V + "/contracts/baseline.json", "w"), indent=0, sort_keys=True)
json.dump(x["sigs"], open(V + "/contracts/sigs.json", "w"), indent=0, sort_keys=True)
os.remove("/tmp/x.json")
