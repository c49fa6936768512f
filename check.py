#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current working tree.

1. extracts /repo/src mechanically, attaches contracts/, lets Verus discharge every obligation;
2. rebuilds the real crate in a dynamic harness (debug and release) and runs generated cases:
   this is the bounded stand-in for what is not under contract, and the replay of failed
   obligations on the real code.
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/vlib")
import assemble, verus, props

REPO = "/repo"
T0 = time.time()
COUNTS = {"C17", "C18", "C19", "C20"}     # comparison counts: only obligations about the count state them
ORDER_IGNORES = {"C14", "C04"}


def log(*a):
    print("[%5.1f]" % (time.time() - T0), *a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def build_extractor():
    exe = V + "/extractor/target/debug/extractor"
    r = sh(["cargo", "build", "--offline"], cwd=V + "/extractor")
    if r.returncode != 0 or not os.path.exists(exe):
        return None, r.stderr[-2000:]
    return exe, None


def build_harness():
    """Builds the real crate from /repo's current tree, debug and release."""
    H = V + "/harness"
    def one(prof):
        env = dict(os.environ, CARGO_TARGET_DIR=H + "/target" + ("/r" if prof else "/d"))
        if os.path.isdir(env["CARGO_TARGET_DIR"]):
            sh(["cargo", "clean", "--offline", "-p", "ndarray-slice"] + ([prof] if prof else []), cwd=H, env=env)
        r = sh(["cargo", "build", "--offline"] + ([prof] if prof else []), cwd=H, env=env)
        exe = env["CARGO_TARGET_DIR"] + ("/release" if prof else "/debug") + "/dynharness"
        return (exe if r.returncode == 0 else None), r.stderr[-3000:]

    with ThreadPoolExecutor(2) as ex:
        a, b = ex.map(one, ["", "--release"])
    return dict(debug=a, release=b)


# ------------------------------------------------------------------------------------------------
class Proof:
    """Outcome of the deductive part for one property."""

    def __init__(self):
        self.ok = False
        self.failed = []        # dict(fn, msg, tags, text, src, rendered) obligations that count
        self.other = []         # failed obligations that do not state this property
        self.inconclusive = {}  # fn -> reason
        self.paths = []
        self.verified = self.nerr = 0
        self.wall = 0.0
        self.cmd = ""
        self.clauses = 0
        self.vacuous = []
        self.vac = None
        self.note = ""
        self.smt_ms = 0
        self.relaxed = []


def relevant(prop, order, tags, err_only):
    if prop in COUNTS:
        return "K" in tags
    if order:
        if tags and set(tags) <= ORDER_IGNORES:
            return False
        return not err_only
    t = set(tags) & {"C%02d" % i for i in range(1, 18)}
    return not t or prop in t


HINTS = ("invariant", "loop ensures", "hint", "decreases")


def settle(pr, spec, f):
    """Runs the verifier; when it rejects the text itself, leaves out the proof hint it points at or
    assumes the contract of the function it points at."""
    res = None
    for attempt in range(14):
        open(f, "w").write(pr.assemble(spec["roots"], tuple(spec["asp"])))
        res = verus.run(f)
        if not res["fatal"]:
            break
        hit, hint = None, set()
        for e in res["errors"]:
            for (a, b, lab, pri, txt) in e["spans"]:
                i = pr.info.get(a, {})
                if pri and i.get("kind") in HINTS and i.get("src") and (e["code"] or "cannot find" in e["msg"]):
                    hint.add((i["fn"], i["src"], i.get("opt", False)))
                    continue
                for p, (lo, hi) in pr.fn_lines.items():
                    if lo <= a <= hi and p not in pr.assumed:
                        hit = hit or (p, e["msg"])
        if hint:
            for h in hint:
                log("hint left out:", h)
                if not h[2]:
                    pr.misfit.setdefault(h[0], "proof hint " + h[1] + " names what the code no longer has")
            pr.drop |= {h[:2] for h in hint}
            continue
        if not hit:
            break
        log("verifier rejects", hit[0], ":", hit[1][:200])
        pr.assumed[hit[0]] = "rejected by the verifier: " + hit[1][:300]
    return res


def relax(pr, spec, f, res, P):
    """Some obligation failed. Loop invariants and proof steps only guide the prover, so before that is
    reported the failing functions are tried again with candidate invariants added and with the hints that do
    not hold left out; contracts stay as they are."""
    weak = set()
    for e in res["errors"]:
        for (a, b, lab, pri, txt) in e["spans"]:
            fn = pr.info.get(a, {}).get("fn") or next((p for p, (lo, hi) in pr.fn_lines.items() if lo <= a <= hi), None)
            if fn and (pri or fn in pr.fn_lines and pr.fn_lines[fn][0] <= a <= pr.fn_lines[fn][1]):
                weak.add(fn)
    save = (set(pr.drop), dict(pr.assumed), dict(pr.misfit), list(pr.lost), list(pr.problems), dict(pr.info), dict(pr.fn_lines), list(pr.paths))
    pr.weak = weak
    t_end = time.time() + 150
    done = False
    for step in range(10):
        if time.time() > t_end:
            break
        pr.assumed = dict(save[1])
        for p in save[7]:
            if p not in weak:
                pr.assumed.setdefault(p, "not in question")
        r = settle(pr, spec, f)
        if r["fatal"] or any(p in pr.assumed and p not in save[1] for p in weak):
            break
        if not r["errors"]:
            done = True
            break
        cand, hints, more = set(), set(), False
        for e in r["errors"]:
            here = set()
            for (a, b, lab, pri, txt) in e["spans"]:
                i = pr.info.get(a, {})
                if i.get("kind") in HINTS and i.get("src") and (i["fn"], i["src"]) not in pr.drop:
                    here.add((i["fn"], i["src"]))
            cand |= {h for h in here if h[1].startswith("guess:")}
            hints |= {h for h in here if not h[1].startswith("guess:")}
            more |= not here
        now = cand or hints
        if not now:
            break
        pr.drop |= now
    if done:
        pr.assumed = dict(save[1])
        r = settle(pr, spec, f)
        if not r["fatal"] and not r["errors"] and pr.assumed == save[1]:
            P.relaxed = sorted(f"{a} {b}" for a, b in pr.drop - save[0])
            log("proved after leaving out hints:", P.relaxed)
            return r
    pr.drop, pr.assumed, pr.misfit, pr.lost, pr.problems, pr.info, pr.fn_lines, pr.paths = save
    pr.weak = set()
    return res


def prove(prop, spec, exe, tmp, tier):
    P = Proof()
    t0 = time.time()
    if not spec.get("roots"):
        P.note = "no roots"
        return P
    r = sh([exe, REPO + "/src", V + "/contracts/kinds.json", tmp + "/x.json"])
    if r.returncode != 0:
        P.inconclusive["*"] = "the crate's source could not be read by the extractor: " + r.stderr[-500:]
        return P
    x = json.load(open(tmp + "/x.json"))
    base = json.load(open(V + "/contracts/baseline.json"))
    pr = assemble.Program(x, base)
    assumed0 = dict(pr.assumed)
    f = tmp + "/verify.rs"
    order = "O" in spec["asp"] or "K" in spec["asp"]
    res = settle(pr, spec, f)
    if not res["fatal"] and res["errors"]:
        res = relax(pr, spec, f, res, P)
    P.cmd = res["cmd"].replace(tmp, "TMP")
    P.paths = [p for p in pr.paths if p not in pr.assumed]
    for p in pr.paths:
        if p in pr.assumed:
            P.inconclusive[p] = pr.assumed[p]
    P.verified, P.nerr = res["verified"], res["nerr"]
    P.clauses = sum(1 for i in pr.info.values() if i.get("fn") in P.paths and i["kind"] in ("ensures", "requires", "invariant", "loop ensures", "decreases", "hint"))
    P.smt_ms = res.get("times", {}).get("smt", {}).get("total", 0)
    if res["fatal"]:
        P.inconclusive["*"] = "verifier: " + res["fatal"][:500]
        P.wall = time.time() - t0
        return P
    broken = {}
    for s in pr.lost + pr.problems:
        m = re.match(r"(?:function )?([\w:]+)", s)
        if m:
            broken.setdefault(m.group(1).rstrip(":"), s)
    for fn, s in pr.misfit.items():
        broken.setdefault(fn, s)
    # what calls a function nobody wrote a contract for knows nothing about it: undecided, not broken
    new = {fn for fn, s in broken.items() if s.endswith("has no contract")}
    for fn in pr.paths if new else []:
        h = sorted(new & set(pr.calls(fn)))
        if h:
            broken.setdefault(fn, f"{fn} calls {h[0]}, which has no contract")
    rlim = set()
    for e in res["errors"]:
        fn = kind = None
        tags, text, src = [], "", ""
        best = None
        for (a, b, lab, pri, txt) in e["spans"]:
            i = pr.info.get(a)
            if i is None:
                continue
            if i.get("fn") and (fn is None or pri):
                fn = i["fn"]
            w = 1
            if "failed" in lab or i["kind"] in ("invariant", "decreases", "loop ensures", "hint", "prelude"):
                w = 3
            if i["kind"] == "body":
                w = 0
            if best is None or w > best[0]:
                best = (w, i)
        if fn is None:
            for (a, b, lab, pri, txt) in e["spans"]:
                for p, (lo, hi) in pr.fn_lines.items():
                    if lo <= a <= hi:
                        fn = p
        if best:
            tags, text, src = best[1].get("tags", []), best[1].get("text", ""), best[1].get("src", "")
        if "rlimit" in e["msg"].lower() or "resource limit" in e["msg"].lower():
            rlim.add(fn)
            continue
        if re.search(r"termination|decreases", e["msg"]):
            tags = ["C14"]
        err_only = best is not None and best[1]["kind"] == "ensures" and text.startswith("res is Err")
        d = dict(fn=fn or "?", msg=e["msg"], tags=tags, text=text, src=src, rendered=e["rendered"])
        if fn is None or fn in broken:
            P.inconclusive.setdefault(fn or "?", broken.get(fn, "obligation outside any extracted function: " + e["msg"]))
        elif prop in COUNTS and best is not None and best[1]["kind"] == "hint":
            # a step of the argument, not a claim about the code: the count is then undecided
            P.inconclusive.setdefault(fn, "proof hint does not fit the code: " + src)
        elif relevant(prop, order, tags, err_only):
            P.failed.append(d)
        else:
            P.other.append(d)
    for fn in rlim:
        if not any(d["fn"] == fn for d in P.failed):
            P.inconclusive.setdefault(fn or "?", "verifier resource limit")
    for p, why in broken.items():
        if p in pr.paths and p not in pr.assumed:
            P.inconclusive.setdefault(p, "contract no longer fits the code: " + why) if res["nerr"] else None
    P.ok = bool(res["ok"]) and not P.failed and not P.other and not P.inconclusive
    # vacuity probe: assert(false) at the start of every body must fail in every function
    if P.ok:
        g = tmp + "/vacuity.rs"
        open(g, "w").write(pr.assemble(spec["roots"], tuple(spec["asp"]), vacuity=True))
        vr = verus.run(g, multiple=1)
        hit = set()
        for e in vr["errors"]:
            for (a, b, lab, pri, txt) in e["spans"]:
                i = pr.info.get(a, {})
                if i.get("kind") == "vacuity":
                    hit.add(i["fn"])
        P.vac = len(hit)
        P.vacuous = [p for p in P.paths if p not in hit]
        if P.vacuous or vr["fatal"]:
            P.ok = False
            for p in P.vacuous:
                P.inconclusive[p] = "vacuity probe did not fail: contract unsatisfiable"
    P.wall = time.time() - t0
    return P


# ------------------------------------------------------------------------------------------------
def parse_out(path):
    d = dict(evals=0, calls=0, distinct=0, ops={}, samples=[], fails=[], done=False)
    if not os.path.exists(path):
        return d
    for ln in open(path, errors="replace"):
        k, _, v = ln.rstrip("\n").partition(" ")
        if k in ("evals", "calls", "distinct"):
            d[k] = int(v)
        elif k == "op":
            n, c = v.rsplit(" ", 1)
            d["ops"][n] = int(c)
        elif k == "sample":
            d["samples"].append(v)
        elif k == "fail":
            d["fails"].append([v, None])
        elif k == "case" and d["fails"]:
            d["fails"][-1][1] = v
        elif k == "done":
            d["done"] = True
    d["fails"] = [f for f in d["fails"] if f[1]]
    return d


def cur_case(path):
    try:
        b = open(path + ".cur", "rb").read()
        n = int(b[:12])
        return b[13:13 + n].decode()
    except Exception:
        return None


def replay_file(prop, case, msg, build):
    d = V + "/evidence/replay"
    os.makedirs(d, exist_ok=True)
    p = f"{d}/{prop}.txt"
    with open(p, "w") as f:
        f.write(f"property {prop}\nmessage {msg}\nbuild {build}\ncase {case}\n"
                f"# replay: build /verif/harness (check.py does), then harness/target/{build[0]}/{build}/dynharness replay {p}\n")
    return p


def explore(prop, builds, seed, millis, tmp, shards=4, salt=0):
    """Runs the harness; returns (stats, violation or None)."""
    jobs = []
    t_end = time.time() + millis / 1000 + 150
    for b, (exe, _) in builds.items():
        if not exe:
            continue
        for s in range(shards):
            out = f"{tmp}/{prop}.{b}.{s}.{salt}"
            p = subprocess.Popen([exe, "explore", prop, str(seed + salt), str(s), str(millis), out],
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            jobs.append((b, exe, out, p))
    agg = dict(evaluations=0, calls=0, distinct=0, ops={}, samples=[])
    found, hung = None, []
    for b, exe, out, p in jobs:
        try:
            rc = p.wait(timeout=max(1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 97
        d = parse_out(out)
        agg["evaluations"] += d["evals"]
        agg["calls"] += d["calls"]
        if b == "release":
            agg["distinct"] += d["distinct"]
        for k, v in d["ops"].items():
            agg["ops"][k] = agg["ops"].get(k, 0) + v
        if len(agg["samples"]) < 6:
            agg["samples"] += [c[:300] for c in d["samples"][-2:]]
        if found:
            continue
        for msg, case in reversed(d["fails"]):
            if replays(exe, prop, case, tmp, tries=3 if case is d["fails"][0][1] else 2):
                found = (case, msg, b)
                break
        # a leak is the same every time: one that does not come back was none
        d["fails"] = [f for f in d["fails"] if "scratch not released" not in f[0]] if not found else d["fails"]
        if d["fails"] and not found:
            # observed once by the judge, not reproduced (a schedule): still an observed failure
            found = (d["fails"][0][1], d["fails"][0][0] + " (observed; the replay did not reproduce it)", b)
        if found:
            continue
        if rc == 97 or not d["done"]:
            case = cur_case(out)
            if rc == 97:
                if prop in props.HANG and case and replays(exe, prop, case, tmp, tries=1, hang=True):
                    found = (case, "does not terminate (no progress for 60 s)", b)
            elif rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGTRAP, signal.SIGFPE):
                found = (case or "?", f"process died with signal {-rc}", b)
            elif rc in (134, 139):
                found = (case or "?", f"process died with status {rc}", b)
    return agg, found


def replays(exe, prop, case, tmp, tries=2, hang=False):
    f = tmp + "/replay.in"
    open(f, "w").write(f"property {prop}\ncase {case}\n")
    for _ in range(tries):
        try:
            r = subprocess.run([exe, "replay", f], capture_output=True, timeout=90)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = 97
        if hang and rc == 97:
            return True
        if not hang and (rc == 1 or rc < 0):
            return True
    return False


def known():
    p = V + "/known-findings.txt"
    out = []
    for ln in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) case=(.*?) \| (.*)$", ln.strip())
        if m:
            out.append(m.groups())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if "--thorough" in sys.argv or tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = props.PROPS[prop]
    os.makedirs(V + "/evidence", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        return run(prop, tier, seed, spec, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, spec, tmp):
    for k in known():
        if k[0] == prop:
            print(f"KNOWN-FINDING: property={prop} {k[2]}")
    with ThreadPoolExecutor(2) as ex:
        hb = ex.submit(build_harness)
        exe, err = build_extractor()
        P = prove(prop, spec, exe, tmp, tier) if exe else Proof()
        if not exe:
            P.inconclusive["*"] = "extractor does not build: " + (err or "")
        log("proof:", "ok" if P.ok else "NOT complete", f"units {P.verified} verified {P.nerr} failed, functions {len(P.paths)}")
        for d in P.failed:
            log("  failed obligation:", d["fn"], "|", d["msg"], "|", d["tags"], d["text"][:160], d["src"])
        for d in P.other:
            log("  failed obligation of another property:", d["fn"], "|", d["msg"], "|", d["tags"], d["text"][:120])
        for k, v in P.inconclusive.items():
            log("  undecided:", k, v[:300])
        builds = hb.result()
    for b, (e, err) in builds.items():
        if not e:
            log("harness build", b, "failed:", err[-1500:])
    log("harness built")
    proved_all = P.ok
    os.environ.pop("VERIF_TIGHT", None)
    if prop in COUNTS and not P.ok:
        os.environ["VERIF_TIGHT"] = "1"     # the exact bound is no longer established: judge the growth
    if tier == "quick":
        ms = 15000 if proved_all and not spec.get("bounded") else 25000 if proved_all else 0
    else:
        ms = 300000
    agg = dict(evaluations=0, calls=0, distinct=0, ops={}, samples=[])
    found = None

    def more(ms, salt):
        nonlocal found
        a, found = explore(prop, builds, seed, ms, tmp, salt=salt)
        for k in ("evaluations", "calls", "distinct"):
            agg[k] += a[k]
        for k, v in a["ops"].items():
            agg["ops"][k] = agg["ops"].get(k, 0) + v
        agg["samples"] = (agg["samples"] + a["samples"])[:6]

    if ms:
        more(ms, 0)
    else:
        for salt, t in ((0, 25000), (1000, 60000), (2000, 120000)):
            more(t, salt)
            if found or (salt == 1000 and not P.failed and not P.inconclusive):
                break
    log("dynamic: evaluations", agg["evaluations"], "distinct", agg["distinct"], "found", found[1] if found else None)

    viol = 0
    rc = 0
    if found:
        case, msg, b = found
        p = replay_file(prop, case, msg, b)
        if P.failed:
            with open(p, "a") as f:
                for d in P.failed[:4]:
                    f.write(f"# failed obligation: {d['fn']}: {d['msg']}: {d['text']} ({d['src']})\n")
        print(f"VIOLATION property={prop} replay={p}")
        viol, rc = 1, 1
    elif P.failed:
        d0 = f"{V}/evidence/replay"
        os.makedirs(d0, exist_ok=True)
        p = f"{d0}/{prop}.txt"
        with open(p, "w") as f:
            f.write(f"property {prop}\nno failing input found; failed obligations, with the verifier's output:\n\n")
            for d in P.failed:
                f.write(f"function {d['fn']}: {d['msg']}\n  clause: {d['text']}  ({d['src']}) tags {d['tags']}\n{d['rendered']}\n")
        print(f"VIOLATION property={prop} replay={p} no-failing-input-found")
        viol, rc = 1, 1
    evidence(prop, tier, seed, spec, P, agg, builds, viol)
    log("exit", rc)
    return rc


def evidence(prop, tier, seed, spec, P, agg, builds, viol):
    has_proof = bool(spec.get("roots"))
    dyn = dict(evaluations=agg["evaluations"], distinct_nontrivial=agg["distinct"],
               comparator_calls=agg["calls"], per_operation=agg["ops"],
               rule="bounded stand-in and replay harness on the real crate (debug and release builds): exhaustive small arrays, "
                    "random arrays up to a few thousand elements over layouts, comparator modes (orders, inconsistent, panicking at "
                    "every call, McIlroy adversary); distinct counts different (operation, keys, layout, parameters, comparator) tuples "
                    "with at least two elements, release build only",
               samples=agg["samples"][:4] or ["none"])
    scan = 0
    try:
        import glob
        for g in glob.glob(V + "/contracts/*"):
            if g.endswith((".vc", ".rs")):
                scan += len(re.findall(r"\bassume\(|\badmit\(|external_body|\baxiom\b", open(g).read()))
    except Exception:
        pass
    cov = dict(
        obligations=P.verified + P.nerr, discharged=P.verified,
        obligations_unit="Verus verification units (function bodies, isolated loops, lemmas); each bundles all its pre/postconditions, invariants, assertions, overflow and termination checks",
        contract_clauses=P.clauses,
        functions_under_contract=P.paths,
        proof_complete=P.ok,
        undecided_functions=P.inconclusive,
        hints_left_out=P.relaxed,
        failed_obligations=[dict(fn=d["fn"], msg=d["msg"], clause=d["text"], tags=d["tags"]) for d in (P.failed + P.other)[:20]],
        vacuity_probe=f"assert(false) injected into every verified body: refuted in {P.vac} of {len(P.paths)}" if P.vac is not None else "not run",
        back_end="Verus 0.2026.09.13 / Z3",
        solver_time_ms=P.smt_ms, verify_wall_s=round(P.wall, 1),
        checker_cmd=P.cmd or "none",
        trusted_base=props.TRUSTED,
        assumption_keywords_in_contracts=scan,
        bounded=dict(dyn, what=spec.get("bounded", "nothing of this property is decided by the bounded part when proof_complete is true; it cross-checks the model against the real crate")),
        states=spec["says"],
        evaluations=dyn["evaluations"], distinct_nontrivial=dyn["distinct_nontrivial"], rule=dyn["rule"], samples=dyn["samples"],
    )
    level = "proof" if has_proof and P.ok else "exploration"
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=props.ASSUMPTIONS, wall_s=round(time.time() - T0, 2), violations=viol)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
