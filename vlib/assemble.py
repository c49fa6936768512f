"""Attach contracts (contracts/*.vc) to the extracted functions and produce one Verus file."""
import difflib, json, re, os, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Clause:
    __slots__ = ("kind", "tags", "text", "loop", "anchor", "used", "src", "opt")

    def __init__(self, kind, tags, text, loop=None, anchor=None, src="", opt=False):
        self.kind, self.tags, self.text, self.loop, self.anchor, self.src = kind, tags, text, loop, anchor, src
        self.used = False
        self.opt = opt          # helps proving some shapes of the code; not missed when it finds no place

    def aspect(self):
        for a in ("O", "K"):
            if a in self.tags:
                return a
        return "S"

    def copy(self):
        return Clause(self.kind, list(self.tags), self.text, self.loop, self.anchor, self.src, self.opt)


def parse_vc(path):
    """Returns list of (names, [Clause], [raw verus text])."""
    blocks, raw = [], []
    cur = None
    lines = open(path).read().split("\n")
    i = 0
    while i < len(lines):
        ln = lines[i]
        if not ln.strip() or ln.startswith("#"):
            i += 1
            continue
        if ln.startswith("verus{"):
            j = i + 1
            while lines[j] != "}verus":
                j += 1
            tag = ln[6:].strip()
            raw.append((tag, "\n".join(lines[i + 1:j])))
            i = j + 1
            continue
        j = i + 1
        txt = ln
        while j < len(lines) and (lines[j].startswith((" ", "\t")) or (not lines[j].strip() and j + 1 < len(lines) and lines[j + 1].startswith((" ", "\t")))):
            c = lines[j]
            c = re.sub(r"//.*$", "", c)
            txt += " " + c.strip()
            j += 1
        src = f"{os.path.basename(path)}:{i+1}"
        i = j
        m = re.match(r"fn\s+(.*)$", txt)
        if m:
            cur = ([n.strip() for n in m.group(1).split(",")], [])
            blocks.append(cur)
            continue
        m = re.match(r"(requires|ensures|conserve|decreases|attr|panics|spec|inv|invx|lens|dec|at|nowf|mono|noauto|iso)\b(\?)?(\[[^\]]*\])?\s*(.*)$", txt)
        if not m:
            raise SystemExit(f"{src}: cannot parse: {txt}")
        kind, tags, rest = m.group(1), m.group(3), m.group(4)
        tags = [t.strip() for t in tags[1:-1].split(",")] if tags else []
        loop = anchor = None
        if kind in ("inv", "invx", "lens", "dec", "iso"):
            mm = re.match(r"(\d+)(\[[^\]]*\])?\s*(.*)$", rest)
            loop = int(mm.group(1))
            if mm.group(2):
                tags = [t.strip() for t in mm.group(2)[1:-1].split(",")]
            rest = mm.group(3)
        if kind == "at":
            a, rest = rest.split(":", 1)
            anchor = a.strip()
            rest = rest.strip()
        cur[1].append(Clause(kind, tags, rest.strip(), loop, anchor, src, bool(m.group(2))))
    return blocks, raw


def load_contracts():
    con, raw = {}, []
    for p in sorted(glob.glob(os.path.join(VERIF, "contracts", "*.vc"))):
        b, r = parse_vc(p)
        for names, cl in b:
            for n in names:
                con.setdefault(n, []).extend(c.copy() for c in cl)
        raw += r
    return con, raw


def mangle(p):
    return p.replace("::", "__")


class Program:
    def __init__(self, extracted, baseline=None):
        """baseline: signatures of the pinned tree, used (as assumed contracts) for functions the
        extractor could not translate on this tree"""
        self.x = extracted
        self.fns = dict(extracted["fns"])
        self.assumed = {}       # function -> reason; its contract is assumed, its body not verified
        for p, f in (baseline or {}).items():
            if p not in self.fns:
                self.fns[p] = dict(f, body=[])
                self.assumed[p] = "not extracted: " + extracted["errors"].get(p, "no such function in this tree")
        self.con, self.raw = load_contracts()
        self.drop = set()       # proof hints (function, source line) left out, see check.relaxed
        self.misfit = {}        # functions whose contract names what the code no longer has
        self.weak = set()       # functions whose loops are offered candidate invariants
        if baseline:
            self.follow_renames(baseline)
        self.by_name = {f["name"]: p for p, f in self.fns.items()}
        self.vacuity = False
        self.prelude = open(os.path.join(VERIF, "contracts", "prelude.rs")).read()

    # ---- names the contracts use, when the code's have changed ------------------------------------
    @staticmethod
    def names_of(f):
        ns = [n for n, _ in f["params"]]
        for b in f["body"]:
            for ln in b.split("\n"):
                m = re.match(r"//@@ let (\w+) \d+|let (\w+)__(?:start|lo)\b|let (?:mut )?(\w+);", ln)
                if m:
                    ns.append(m.group(1) or m.group(2) or m.group(3))
        return ns

    def follow_renames(self, baseline):
        """Contracts name parameters, locals and callees as the pinned tree does; where a name was only
        replaced by another at the same place, they follow."""
        fmap = {}
        live = self.x["fns"]
        gone = [p for p in baseline if p not in live and p in self.con and not baseline[p].get("closure")]
        new = [p for p in live if p not in baseline and p not in self.con and not live[p].get("closure")]
        sig = lambda f: (f["generics"], [t for _, t in f["params"]], f["ret"])
        for p in gone:
            short = p.rsplit("::", 1)[1]
            c = [q for q in new if q.rsplit("::", 1)[1] == short and sig(live[q]) == sig(baseline[p])] \
                or [q for q in new if q.rsplit("::", 1)[0] == p.rsplit("::", 1)[0] and sig(live[q]) == sig(baseline[p])]
            if len(c) == 1 and c[0] not in fmap.values():
                fmap[p] = c[0]
        for p, q in fmap.items():
            self.con[q] = [c.copy() for c in self.con[p]]
            self.assumed.pop(p, None)
            self.fns.pop(p, None)
        self.renamed = {p: q for p, q in fmap.items()}
        self.subst = {}
        shorts = {p.rsplit("::", 1)[1]: q.rsplit("::", 1)[1] for p, q in fmap.items()}
        for p, cs in self.con.items():
            old = {v: k for k, v in fmap.items()}.get(p, p)
            if p not in live or old not in baseline or "names" not in baseline[old]:
                continue
            a, b = baseline[old]["names"], self.names_of(live[p])
            sub = {}
            if a != b:
                for op, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
                    if op == "replace" and i2 - i1 == j2 - j1:
                        for x, y in zip(a[i1:i2], b[j1:j2]):
                            if x not in b and y not in a:
                                sub[x] = y
            anch = {x: y for x, y in shorts.items() if x != y}
            if not sub and not anch:
                continue
            for c in cs:
                for x, y in sub.items():
                    c.text = re.sub(rf"(?<![.\w]){x}(__\w+|_in|0|1)?\b(?!:)", lambda m: y + (m.group(1) or ""), c.text)
                    if c.anchor:
                        c.anchor = re.sub(rf"\b(let|assign) {x}\b", rf"\1 {y}", c.anchor)
                for x, y in anch.items():
                    if c.anchor:
                        c.anchor = re.sub(rf"\b{x}\b", y, c.anchor)
                    c.text = re.sub(rf"__{x}\b", f"__{y}", c.text)

    def calls(self, path):
        if "callees" in self.fns[path]:
            return {c for c in self.fns[path]["callees"] if c in self.fns}
        body = "\n".join(self.fns[path]["body"])
        out = set()
        for m in re.finditer(r"\b([a-zA-Z_]\w*)(?:\(| \{)", body):
            n = m.group(1)
            if n in self.by_name:
                out.add(self.by_name[n])
            mm = re.match(r"iter_(?:max|min)_by__(\w+)$", n)
            if mm and mm.group(1) in self.by_name:
                out.add(self.by_name[mm.group(1)])
        return out

    def iters(self, paths):
        """prelude iterator functions needed, by extracted comparison function"""
        s = set()
        for p in paths:
            for m in re.finditer(r"\biter_(max|min)_by__(\w+)\(", "\n".join(self.fns[p]["body"])):
                s.add((m.group(1), m.group(2)))
        return s

    def reach(self, roots):
        seen, todo = set(), list(roots)
        missing = []
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            if p not in self.fns:
                missing.append(p)
                continue
            seen.add(p)
            todo += list(self.calls(p))
        return seen, missing

    # -------------------------------------------------------------------------------------------
    def assemble(self, roots, aspects=("S", "O"), extra="", vacuity=False):
        """The program text; lemmas nothing in it uses are left out."""
        self.live = {}
        text = self.compose(roots, aspects, "", vacuity) + extra
        need, todo = set(), [n for n in self.live if re.search(rf"\b{n}\b", text)]
        while todo:
            n = todo.pop()
            if n not in need:
                need.add(n)
                todo += [m for m in self.live if m not in need and re.search(rf"\b{m}\b", self.live[n])]
        self.live = need
        return self.compose(roots, aspects, extra, vacuity)

    def put_raw(self, r, put):
        item, name = [], None
        for ln in r.split("\n"):
            m = re.match(r"pub proof fn (\w+)", ln) if name is None else None
            if m:
                name = m.group(1)
                k = len(item)
                while k and re.match(r"///|#\[", item[k - 1]):
                    k -= 1
                for x in item[:k]:
                    put(x)
                item = item[k:]
            item.append(ln)
            if name and (ln == "}" or re.match(r"\{.*\}\s*$", ln)):
                if isinstance(self.live, dict):
                    self.live[name] = "\n".join(item)
                elif name in self.live:
                    put("\n".join(item))
                item, name = [], None
        for x in item:
            put(x)
        assert name is None, name

    def compose(self, roots, aspects, extra, vacuity):
        self.vacuity, self.aspects = vacuity, aspects
        paths, missing = self.reach(roots)
        L = []          # lines
        self.info = {}  # line number (1-based) -> dict
        self.fn_lines = {}
        self.lost = []  # contract anchors that found no place
        self.problems = [f"function {m} not extracted: {self.x['errors'].get(m, 'missing')}" for m in missing]

        def put(s, **kw):
            for part in s.split("\n"):
                L.append(part)
                if kw:
                    self.info[len(L)] = kw

        put("#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, unused_parens, dead_code, non_snake_case, unreachable_code)]")
        put("use vstd::prelude::*;\nuse vstd::multiset::Multiset;\nverus! {\nglobal size_of usize == 8;")
        for ln in self.prelude.split("\n"):
            if "//K" in ln and "K" not in aspects or "//-K" in ln and "K" in aspects:
                continue
            m = re.search(r"// \[([A-Z0-9, ]+)\]", ln)
            if m:
                put(ln, kind="prelude", tags=[t.strip() for t in m.group(1).split(",")], text=ln.strip())
            elif "//K" in ln and "final(self).n() <= " in ln:     # what every callback's body is held to
                put(ln, kind="prelude", tags=["K"], text=ln.strip())
            else:
                put(ln)
        for tag, r in self.raw:
            if tag and tag not in aspects:
                continue
            self.put_raw(r, put)
        for c in self.x["consts"]:
            put(c["text"])
        names = {self.fns[p]["name"] for p in paths}
        body_all = "\n".join("\n".join(self.fns[p]["body"]) + json.dumps(self.fns[p]["params"]) for p in paths)
        for s in self.x["structs"]:
            if s.get("missing"):
                continue
            m = mangle(s["path"])
            kinds = {k: v for k, v in s["kinds"].items() if not k.startswith("#")}
            ty = {"Val": "T", "Ptr": "MPtr", "View": "Vw", "usize": "usize", "bool": "bool", "Bool": "bool"}
            fl, gen = [], False
            for n, k in kinds.items():
                if k is None or k.startswith(("AllocFn", "DeallocFn")):
                    continue
                if k.startswith("HPtr"):
                    t = "HPtr"
                elif k.startswith("Struct:"):
                    t = mangle(k[7:])
                else:
                    t = ty[k]
                gen |= t == "T"
                fl.append(f"pub {n}: {t}")
            if "#copy" in s["kinds"]:
                put("#[derive(Clone, Copy)]")
            put(f"pub struct {m}{'<T>' if gen else ''} {{ {', '.join(fl)} }}")
        for which, q in sorted(self.iters(paths)):
            t = ITER.replace("@W@", which).replace("@Q@", q)
            kept, kept1, nxt = "hp@[v.base + res->Ok_0.0]", "hp@[v.base + k]", "hp@[j]"
            if which == "max":
                sub = {"@A@": kept, "@B@": nxt, "@A1@": kept1, "@B1@": nxt, "@G@": "", "@E@": "k = i;"}
            else:
                sub = {"@A@": nxt, "@B@": kept, "@A1@": nxt, "@B1@": kept1, "@G@": "k = i;", "@E@": ""}
            for a, b in sub.items():
                t = t.replace(a, b)
            for ln in t.split("\n"):
                if "//K" in ln and "K" not in aspects:
                    continue
                m = re.search(r"// \[([A-Z0-9, ]+)\]", ln)
                if m:
                    put(ln, kind="prelude", tags=[x.strip() for x in m.group(1).split(",")], text=ln.strip())
                else:
                    put(ln)
        self.sep = []
        for p in sorted(paths):
            self.emit_fn(p, aspects, put, L)
        put(extra)
        put("} // verus!\nfn main() {}")
        self.paths = sorted(paths)
        return "\n".join(L) + "\n"

    def emit_fn(self, p, aspects, put, L):
        f = self.fns[p]
        cl = [c for c in self.con.get(p, []) if c.aspect() in aspects and (p, c.src) not in self.drop]
        if p not in self.con and not f.get("closure"):
            self.problems.append(f"function {p} has no contract")
        for c in cl:
            c.used = False
        unw = f["unwinds"]
        heaps = dict(f["heaps"])
        cmps = f["cmps"]
        noauto = any(c.kind == "noauto" for c in cl)

        # parameters the body rebinds mutably: `let ghost v_in = v; let mut v = v;`
        moved = [m.group(1) for b in f["body"] for ln in b.split("\n") for m in [re.match(r"let ghost (\w+)_in = \1; let mut \1 = \1;$", ln)] if m]

        # what the function's callback (or, without one, the element's Ord) means as an order (GL), a
        # relation (GR), a bucket test (GB)
        gens = f["generics"]
        meaning = {"GL": "g", "GR": "g", "GB": "g"}
        if "KeyFn<T>" in gens:
            meaning = {"GL": "key_less(g)", "GR": "key_rel(g)", "GB": "key_bucket(g)"}
        elif not cmps:
            meaning = {"GL": "ord_less::<T>()", "GR": "ord_rel::<T>()", "GB": "ord_bucket::<T>()"}

        def hdr(t, post=False):
            for h, m in heaps.items():
                t = re.sub(rf"\b{h}0\b", f"old({h})@" if m else f"{h}@", t)
                t = re.sub(rf"\b{h}1\b", f"final({h})@" if m else f"{h}@", t)
            for a, d in meaning.items():
                t = re.sub(rf"\b{a}\b", d, t)
            if cmps:
                t = re.sub(r"\bg\b", f"old({cmps[0]}).g()", t)
                for a, d in (("n0", "old"), ("n1", "final")):
                    t = re.sub(rf"\b{a}\b", f"kcalls({d}({cmps[0]}).log())" if "KeyFn<T>" in gens else f"{d}({cmps[0]}).n()", t)
            for n, ty in f["params"]:
                if ty == "&mut E":
                    t = re.sub(rf"\b{n}0\b", f"old({n})", t)
                    t = re.sub(rf"\b{n}1\b", f"final({n})", t)
            for n in f["mutrefs"]:
                if n == "self_":
                    t = re.sub(r"\bself0\b", "old(self_)", t)
                    t = re.sub(r"\bself1\b", "final(self_)", t)
                else:
                    t = re.sub(rf"\b{n}0\b", f"(*old({n}))", t)
                    t = re.sub(rf"\b{n}1\b", f"(*final({n}))", t)
            t = t.replace("self0", "self_")
            for n in moved:
                t = re.sub(rf"(?<![.\w]){n}\b", f"{n}_in", t)
            return t

        retunit = f["ret"] in ("()", "Result<(), Unwind>")

        def post(t):
            t = hdr(t)
            m = re.match(r"(ok|err):\s*(.*)$", t)
            if m:
                which, t = m.groups()
                if which == "err":
                    return f"res is Err ==> ({t})" if unw else None
                if not unw:
                    return t if retunit or not re.search(r"\br\b", t) else f"({{ let r = res; {t} }})"
                return f"res is Ok ==> ({t})" if retunit or not re.search(r"\br\b", t) else f"res is Ok ==> ({{ let r = res->Ok_0; {t} }})"
            return t

        start = len(L) + 1
        clo = f.get("closure")
        if clo:
            self.closure_head(f, p, clo, put, aspects)
        if p in self.assumed:
            put("#[verifier::external_body]")
        elif not clo:
            put("#[verifier::loop_isolation(false)]")
        for c in cl:
            if c.kind == "attr":
                put(c.text)
        params = ", ".join(f"{n}_in: {t}" if n in moved else f"{n}: {t}" for n, t in f["params"])
        if clo:
            put(f"fn call(&mut self, {params}) -> (r: {f['ret']})", kind="sig", fn=p, tags=["C14"], text="signature")
        else:
            put(f"pub fn {f['name']}{f['generics']}({params}) -> (res: {f['ret']})", kind="sig", fn=p, tags=["C14"], text="signature")
        # ---- requires
        req = []
        nowf = {c.text for c in cl if c.kind == "nowf"}
        for v in f["views"]:
            if "hp" in heaps and v not in nowf:
                req.append((hdr(f"{v}.base + {v}.len <= hp0.len()"), ["C15"], f"view {v} lies in the array"))
        for c in cl:
            if c.kind == "requires":
                req.append((hdr(c.text), c.tags, c.src))
        if req:
            put("    requires")
            for t, tags, src in req:
                put(f"        {t},", kind="requires", fn=p, tags=tags, text=t, src=src)
        # ---- ensures
        ens = []
        api = p.startswith("ArrayBase::")   # callbacks are taken by value there
        for n in cmps:
            if not api:
                ens.append((f"final({n}).g() == old({n}).g()", [], "auto"))
                if "K" in aspects and re.search(r": (Less|Cmp3|Probe|Pred)<T>", gens):
                    ens.append((f"final({n}).pn() == old({n}).pn()", [], "auto"))
        pan = [hdr(c.text) for c in cl if c.kind == "panics"]
        kord = re.search(r"\bT: [^,>]*KOrd", gens)
        if unw and (cmps or kord) and not noauto and not clo:
            cond = "".join(f" && !({t})" for t in pan)
            if "KeyFn<T>" in gens:
                cond += " && F::K::kg().nopanic"
            if kord:
                cond += " && T::kg().nopanic"
            for n, ty in f["params"]:
                if ty == "&mut E":
                    cond += f" && old({n}).nopanic()"
            cond = (f"old({cmps[0]}).g().nopanic" if cmps else "true") + cond
            ens.append((f"{cond} ==> res is Ok", ["C14"], "auto"))
        for h, m in heaps.items():
            if m and h == "hp":
                ens.append((f"final({h})@.len() == old({h})@.len()", ["C13"], "auto"))
        for c in cl:
            if c.kind == "ensures":
                t = post(c.text)
                if t:
                    ens.append((t, c.tags, c.src))
            if c.kind == "conserve":
                v = c.text
                for t, tg in ((f"ok: perm(hp0, hp1)", "C03"), (f"err: perm(hp0, hp1)", "C04"), (f"frame(hp0, hp1, {v}.base as int, {v}.base + {v}.len)", "C13")):
                    t = post(t)
                    if t:
                        ens.append((t, [tg], c.src))
        if ens:
            put("    ensures")
            for t, tags, src in ens:
                put(f"        {t},", kind="ensures", fn=p, tags=tags, text=t, src=src)
        dec = [c for c in cl if c.kind == "decreases"]
        if dec:
            put("    decreases " + ", ".join(hdr(c.text) for c in dec) + ",", kind="decreases", fn=p, tags=["C14"], text="decreases")
        if p in self.assumed:
            put("{ unimplemented!() }" + (" }" if clo else ""))
            self.fn_lines[p] = (start, len(L))
            return
        put("{")
        if self.vacuity:
            put("assert(false);", kind="vacuity", fn=p, tags=[], text="vacuity probe")
        # ---- body
        anchors, its = {}, {}
        for c in cl:
            if c.kind == "at":
                anchors.setdefault(c.anchor, []).append(c)
        seen = set()
        loops_seen = set()
        nloops = sum(1 for b in f["body"] if re.match(r"//@@ loop \d+ inv", b))
        flat = [ln for b in f["body"] for ln in b.split("\n")]
        guesses = {}
        for k, ln in enumerate(flat):
            m = re.match(r"//@@ loop (\d+) inv$", ln)
            if m:
                guesses[int(m.group(1))] = self.loop_guess(flat, k, int(m.group(1)))
        for b in f["body"]:
            for ln in b.split("\n"):
                if not ln.startswith("//@@ "):
                    m = re.match(r"let ghost (\w+)_in = \1; let mut \1 = \1;$", ln)
                    if m:
                        ln = f"let mut {m.group(1)} = {m.group(1)}_in;"
                    put(ln, kind="body", fn=p, tags=[], text=ln)
                    continue
                a = ln[5:].strip()
                if a == "entry":
                    for h, m in heaps.items():
                        put(f"let ghost {h}0 = {h}@;")
                        if h == "hp":
                            put("proof { axiom_mem_len(*hp); }")
                    if cmps:
                        put(f"let ghost g = {cmps[0]}.g();")
                        if "K" in aspects and re.search(r": (Less|Cmp3|Probe|Pred)<T>", gens):
                            put(f"let ghost n0 = {cmps[0]}.n();")
                    for n, ty in f["params"]:
                        if ty == "&mut E":
                            put(f"let ghost {n}0 = *{n};")
                    for n in f["mutrefs"]:
                        put(f"let ghost {'self0' if n == 'self_' else n + '0'} = *{n};")
                m = re.match(r"loop (\d+) inv(.*)$", a)
                if m:
                    n = int(m.group(1))
                    loops_seen.add(n)
                    auto = m.group(2).split("|")
                    it = re.match(r"\s*(\w+)__start <= ", auto[1]) if len(auto) > 1 else None
                    its[n] = it.group(1) if it else None
                    self.loop_clauses(f, p, cl, n, auto, heaps, cmps, put, guesses.get(n))
                    continue
                key = a.split(" t__")[0].strip()
                if key.endswith(" ()"):
                    key = key[:-3]
                seen.add(key)
                for k in (key,):
                    for c in anchors.get(k, []):
                        c.used = True
                        tv = re.search(r"(t__\d+)$", a)
                        t = c.text
                        it = re.match(r"loop (\d+) (?:begin|body|end)$", key)
                        if it and its.get(int(it.group(1))):
                            t = re.sub(r"\bIT\b", its[int(it.group(1))], t)
                        elif re.search(r"\bIT\b", t):
                            self.lost.append(f"{p}: '{key}' is not in a counting loop ({c.src})")
                            continue
                        if api:
                            for al, d in meaning.items():
                                t = re.sub(rf"\b{al}\b", d, t)
                        if tv:
                            t = re.sub(r"\bRET\b", tv.group(1), t)
                        t2 = t.rstrip(";") + ";" if t.startswith("let ghost") else f"proof {{ {t} }}"
                        put(t2, kind="hint", fn=p, tags=c.tags, text=c.text, src=c.src, opt=c.opt)
                m = re.match(r"loop (\d+) before$", key)
                if m and p in self.weak and guesses.get(int(m.group(1))):
                    for x in guesses[int(m.group(1))][2]:
                        put(f"let ghost {x}__e{m.group(1)} = {x};")
                if m and any(c.kind == "iso" and c.loop == int(m.group(1)) for c in cl):
                    put("#[verifier::loop_isolation(true)]")
                elif m and any(c.kind in ("invx", "lens") and c.loop == int(m.group(1)) for c in cl):
                    put("#[verifier::allow_complex_invariants]")
                if key.startswith("unwind "):
                    for c in anchors.get("unwind", []):
                        c.used = True
                        put(f"proof {{ {c.text} }}", kind="hint", fn=p, tags=c.tags, text=c.text, src=c.src, opt=c.opt)
        put("} }" if clo else "}")
        for k, cs in anchors.items():
            for c in cs:
                if not c.used and not c.opt:
                    self.lost.append(f"{p}: anchor '{k}' ({c.src})")
        for c in cl:
            if c.loop is not None and c.loop not in loops_seen and not c.opt:
                self.lost.append(f"{p}: loop {c.loop} ({c.src})")
        want = {c.loop for c in cl if c.kind == "dec"}
        self.fn_lines[p] = (start, len(L))

    def closure_head(self, f, p, clo, put, aspects):
        """A closure used as comparator: what it means follows from its trait and what it captures."""
        fields, kind = clo
        trait, caps = kind.split("<-")
        spec = [c.text for c in self.con.get(p, []) if c.kind == "spec"]
        if not spec:
            t = CLOSURE_SPEC.get(kind)
            if t is None:
                self.problems.append(f"{p}: no meaning known for a closure {kind}")
                t = "arbitrary()"
            for (n, ty) in fields:
                for k in ("F", "T", "F::K"):
                    if ty == k or ty == "&'x mut " + k:
                        t = t.replace("@" + k + "@", "self." + n)
            spec = [t]
        gens = f["generics"][1:-1].split(", ")
        names = [g.split(":")[0] for g in gens]
        sp, si = [], []     # parameters of the struct, arguments in the impl
        if any("&'x" in ty for _, ty in fields):
            sp, si = ["'x"], ["'x"]
            gens = ["'x"] + gens
        for n in names:
            if n != "T" or any(ty == "T" or "(T, T" in ty for _, ty in fields):
                sp.append(n)
                si.append(n)
        if any(ty == "F::K" for _, ty in fields):
            sp.append("KV")
            si.append("F::K")
        sp, si = (f"<{', '.join(x)}>" if x else "" for x in (sp, si))
        put(f"pub struct {f['name']}{sp} {{ " + ", ".join(f"pub {n}: {'KV' if t == 'F::K' else t}" for n, t in fields) + " }")
        put(f"impl<{', '.join(gens)}> {trait}<T> for {f['name']}{si} {{")
        gt = {"Less": "CmpG<T>", "Cmp3": "CmpG<T>", "Rel": "RelG<T>", "Bucket": "BucketG<T>", "Pred": "PredG<T>", "Probe": "ProbeG<T>"}[trait]
        put(f"open spec fn g(&self) -> {gt} {{ {spec[0]} }}")
        if "K" in aspects and trait in ("Less", "Cmp3", "Probe", "Pred"):
            c = re.search(r"self\.\w+", spec[0])
            cf = c.group(0) if c else ""

            def counted(x):
                if caps in ("Less", "Cmp3", "Probe", "Pred"):
                    return f"{x}.n()"
                if "KeyFn" in caps.split("+"):
                    # a comparison calls the key function twice, a probe once
                    return f"{x}.log().len()" if trait in ("Probe", "Pred") else f"kcalls({x}.log())"
                return "0"
            put("#[verifier::prophetic] open spec fn pn(&self) -> nat { " + counted(f"final({cf})") + " }")
            put("open spec fn n(&self) -> nat { " + counted(cf) + " }")
        if trait == "Bucket":
            put("open spec fn log(&self) -> Seq<(T, T, bool)> { self.log@ }")

    @staticmethod
    def loop_guess(flat, k, n):
        """(measure, candidate invariants, variables) suggested by a while loop's condition"""
        m = re.match(r"while (.*)$", flat[k - 1])
        if not m:
            return None
        cmps = re.findall(r"(?<![\w.])([\w.]+(?:\(\))?) (<|>|!=|<=|>=) ([\w.]+(?:\(\))?)(?![\w.(\[])", m.group(1))
        body, d = [], 0
        for ln in flat[k + 1:]:
            if ln == f"//@@ loop {n} after":
                break
            body.append(ln)
        body = "\n".join(body)
        meas, inv, vs = [], [], []
        for a, op, b in cmps:
            if re.match(r"\d", a) and re.match(r"\d", b):
                continue
            a_, b_ = (f"({x} as int)" for x in (a, b))
            if op in (">", ">="):
                a_, b_, a, b = b_, a_, b, a
            if op in ("<", ">", "!="):
                meas.append(f"(if {a_} < {b_} {{ {b_} - {a_} }} else {{ 0 }})" if op != "!=" else f"(if {a_} < {b_} {{ {b_} - {a_} }} else {{ {a_} - {b_} }})")
                inv.append(f"{a_} <= {b_}")
                if op == "!=":
                    inv.append(f"{b_} <= {a_}")
            else:
                meas.append(f"(if {a_} <= {b_} {{ {b_} - {a_} + 1 }} else {{ 0 }})")
                inv.append(f"{a_} <= {b_} + 1")
            for x in (a, b):
                if re.fullmatch(r"[a-z_]\w*", x) and re.search(rf"^{x} = ", body, re.M) and x not in vs:
                    vs.append(x)
                    inv += [f"{x} <= {x}__e{n}", f"{x}__e{n} <= {x}"]
        return (" + ".join(meas), inv, vs) if meas else None

    def loop_clauses(self, f, p, cl, n, auto, heaps, cmps, put, guess=None):
        mine = [c for c in cl if c.loop == n]
        it = re.match(r"\s*(\w+)__start <= ", auto[1]) if len(auto) > 1 else None
        for c in mine:
            if it:
                c.text = re.sub(r"\bIT\b", it.group(1), c.text)
        invx = [c for c in mine if c.kind == "invx"]
        inv = [c for c in mine if c.kind == "inv"]
        lens = [c for c in mine if c.kind == "lens"]
        dec = [c for c in mine if c.kind == "dec"]
        if invx:
            put("    invariant_except_break")
            for c in invx:
                put(f"        {c.text},", kind="invariant", fn=p, tags=c.tags, text=c.text, src=c.src, opt=c.opt)
        put("    invariant")
        for h, m in heaps.items():
            if m and h == "hp":
                put(f"        {h}@.len() == {h}0.len(),", kind="invariant", fn=p, tags=["C13"], text="auto")
        for c in cmps:
            put(f"        {c}.g() == g,", kind="invariant", fn=p, tags=[], text="auto")
            if "K" in self.aspects and re.search(r": (Less|Cmp3|Probe|Pred)<T>", f["generics"]):
                put(f"        {c}.pn() == old({c}).pn(),", kind="invariant", fn=p, tags=[], text="auto")
        if any(c.kind == "iso" for c in mine):
            for h, m in heaps.items():
                put(f"        {h}0 == " + (f"old({h})@," if m else f"{h}@,"))
            for c in cmps:
                put(f"        g == old({c}).g(),")
                if "K" in self.aspects and re.search(r": (Less|Cmp3|Probe|Pred)<T>", f["generics"]):
                    put(f"        n0 == old({c}).n(),")
            for v in f["views"]:
                if "hp" in heaps:
                    put(f"        {v + '_in' if v + '_in = ' + v in ' '.join(f['body']) else v}.base + {v + '_in' if v + '_in = ' + v in ' '.join(f['body']) else v}.len <= hp0.len(), hp0.len() <= isize::MAX,")
        if len(auto) > 1:
            for t in auto[1].split(", "):
                if t.strip():
                    put(f"        {t.strip()},", kind="invariant", fn=p, tags=["C14"], text="auto")
        for c in inv:
            put(f"        {c.text},", kind="invariant", fn=p, tags=c.tags, text=c.text, src=c.src, opt=c.opt)
        if guess and p in self.weak:
            for q, c in enumerate(guess[1]):
                src = f"guess:{n}:{q}"
                if (p, src) not in self.drop:
                    put(f"        {c},", kind="invariant", fn=p, tags=[], text="candidate", src=src)
        put("        true,")
        if lens:
            put("    ensures")
            for c in lens:
                put(f"        {c.text},", kind="loop ensures", fn=p, tags=c.tags, text=c.text, src=c.src, opt=c.opt)
        if dec:
            put("    decreases " + ", ".join(c.text for c in dec) + ",", kind="decreases", fn=p, tags=["C14"], text="decreases")
        elif len(auto) > 2:
            put(f"    decreases {auto[2].strip()},", kind="decreases", fn=p, tags=["C14"], text="decreases")
        elif guess and (p, f"guess:{n}:dec") not in self.drop:
            put(f"    decreases {guess[0]},", kind="decreases", fn=p, tags=["C14"], text="decreases", src=f"guess:{n}:dec")
        else:
            self.problems.append(f"{p}: loop {n} has no termination measure")


CLOSURE_SPEC = {
    "Less<-": "ord_less::<T>()",
    "Less<-Cmp3": "@F@.g()",
    "Less<-Less": "@F@.g()",
    "Less<-KeyFn": "key_less(@F@.g())",
    "Rel<-": "ord_rel::<T>()",
    "Rel<-Rel": "@F@.g()",
    "Rel<-KeyFn": "key_rel(@F@.g())",
    "Bucket<-": "ord_bucket::<T>()",
    "Bucket<-KeyFn": "key_bucket(@F@.g())",
    "Probe<-Pred": "pred_probe(@F@.g())",
    "Probe<-Probe": "@F@.g()",
    "Probe<-Val": "ord_probe(@T@)",
    "Probe<-KeyFn+KVal": "key_probe(@F@.g(), @F::K@)",
    "Probe<-KVal+KeyFn": "key_probe(@F@.g(), @F::K@)",
    "Pred<-Val": "ord_pred(@T@)",
    "Pred<-Pred": "@F@.g()",
}

# std's Iterator::max_by / min_by over v.iter().enumerate(), with the extracted comparison function
ITER = open(os.path.join(VERIF, "contracts", "iter.rs")).read() if os.path.exists(os.path.join(VERIF, "contracts", "iter.rs")) else ""
