import subprocess, json, os, time, re


def run(path, threads=8, rlimit=30, extra=(), timeout=400, multiple=6):
    """Runs verus; returns dict(ok, verified, errors=[...], time, raw, fatal)."""
    t = time.time()
    cmd = ["verus", path, "--output-json", "--time", "--multiple-errors", str(multiple), "--num-threads", str(threads), "--error-format=json"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    cmd += list(extra)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return dict(ok=False, verified=0, nerr=0, errors=[], wall=time.time() - t, fatal="verifier time limit", cmd=" ".join(cmd))
    errs = []
    for ln in p.stderr.split("\n"):
        ln = ln.strip()
        if not ln.startswith("{"):
            continue
        try:
            d = json.loads(ln)
        except Exception:
            continue
        if d.get("level") != "error" or d.get("message", "").startswith("aborting"):
            continue
        base = os.path.basename(path)
        spans = [(s["line_start"] if os.path.basename(s.get("file_name", "")) == base else 0, s["line_end"], s.get("label") or "", s["is_primary"], (s["text"][0]["text"].strip() if s.get("text") else "")) for s in d.get("spans", [])]
        errs.append(dict(msg=d["message"], spans=spans, rendered=d.get("rendered", ""), code=bool(d.get("code"))))
    res = {}
    try:
        res = json.loads(p.stdout)
    except Exception:
        m = re.search(r"\{.*\}", p.stdout, re.S)
        if m:
            try:
                res = json.loads(m.group(0))
            except Exception:
                pass
    vr = res.get("verification-results", {})
    fatal = None
    if not vr or vr.get("encountered-vir-error") or ("verified" not in vr) or any(e["code"] for e in errs) or not (vr.get("success") or vr.get("errors")):
        fatal = "; ".join(e["msg"] for e in errs[:3]) or (p.stderr[-2000:] or "verus produced no result")
    return dict(ok=bool(vr.get("success")), verified=vr.get("verified", 0), nerr=vr.get("errors", 0), errors=errs,
                wall=time.time() - t, fatal=fatal, times=res.get("times-ms", {}), cmd=" ".join(cmd), stderr=p.stderr)
