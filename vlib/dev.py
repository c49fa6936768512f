"""dev loop: python3 vlib/dev.py ROOT[,ROOT] [aspects] [--fn name]"""
import sys, os, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import assemble, verus
V = assemble.VERIF
OUT = "/tmp/x/dev"
os.makedirs(OUT, exist_ok=True)
src = os.environ.get("SRC", "/repo/src")
subprocess.run([V + "/extractor/target/debug/extractor", src, V + "/contracts/kinds.json", OUT + "/x.json"], check=True)
x = json.load(open(OUT + "/x.json"))
pr = assemble.Program(x)
roots = sys.argv[1].split(",")
if roots == ["all"]:
    roots = sorted(x["fns"])
asp = tuple(sys.argv[2]) if len(sys.argv) > 2 else ("S", "O")
t = pr.assemble(roots, asp)
f = OUT + "/v.rs"
open(f, "w").write(t)
print("errors:", x["errors"]); print("lost:", pr.lost); print("problems:", pr.problems)
ex = []
only = None
if "--fn" in sys.argv:
    only = sys.argv[sys.argv.index("--fn") + 1]
    ex = ["--verify-root", "--verify-function", only]
if "--rlimit" in sys.argv:
    rl = sys.argv[sys.argv.index("--rlimit") + 1]
else:
    rl = 30
r = verus.run(f, extra=ex, rlimit=rl)
print("fatal:", r["fatal"], "verified", r["verified"], "errors", r["nerr"], "wall %.1f" % r["wall"])
nmax = int(os.environ.get("N", "12"))
for e in r["errors"][:nmax]:
    print("-", e["msg"])
    for a, b, lab, pri, txt in e["spans"]:
        i = pr.info.get(a, {})
        print("    ", a, lab, "|", i.get("fn", ""), i.get("src", ""), "|", txt[:170])
if "--time" in sys.argv:
    fs = []
    for m in r["times"].get("smt", {}).get("smt-run-module-times", []):
        for q in m.get("function-breakdown", []):
            fs.append((q.get("time", 0), q.get("rlimit",0), q["function"]))
    for q in sorted(fs, reverse=True)[:15]:
        print(q)
