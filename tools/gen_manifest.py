"""Writes MANIFEST.json from vlib/props.py."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vlib")
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    s = props.PROPS.get(i)
    if not s:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE[i]))
        continue
    note = ("Verus proves, for all inputs: " + s["says"] + ". Trusted: Verus/Z3, the mechanical extractor, the memory and comparator model in contracts/prelude.rs. "
            + ("Bounded (not proved): " + s["bounded"] if s.get("bounded") else "A bounded run on the real crate cross-checks the model and searches for failing inputs when an obligation fails."))
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                       technique="contract-based deductive verification (Verus) of the mechanically extracted code, obligations discharged function by function",
                       level=s.get("level", "proof"), level_note=note))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
