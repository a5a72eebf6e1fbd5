"""Shared plumbing: building the engine, scratch directories, violations, evidence."""
import json, re, os, shutil, subprocess, sys, tempfile, threading, time, hashlib
VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("ZOD_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class CheckError(Exception): pass


class Ctx:
    """One run of one check"""
    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.thorough = TIER == "thorough"
        self.work = tempfile.mkdtemp(prefix=f"zodcheck-{prop}-", dir=os.environ.get("TMPDIR", "/tmp"))
        self.viol, self.undecided, self.samples, self.notes = [], [], [], {}
        self.counts = {}
        self._engine = None
        self._th = None
        self._lock = threading.Lock()

    def close(self): shutil.rmtree(self.work, ignore_errors=True)

    # -------------------------------------------------------------- engine
    def start_engine(self):
        """build zodlint in the background"""
        def go():
            try: self._engine = build_engine(self.work)
            except Exception as e: self._engine = e
        th = threading.Thread(target=go); th.start()
        self._th = th

    def engine(self):
        with self._lock:
            if self._th is None: self.start_engine()
        self._th.join()
        if isinstance(self._engine, Exception): raise self._engine
        return self._engine

    def eval(self, corpus, jobs, tag):
        j, o = os.path.join(self.work, f"jobs-{tag}.json"), os.path.join(self.work, f"out-{tag}.json")
        json.dump({"jobs": jobs}, open(j, "w"))
        cmd = [self.engine(), "eval", "--repo", REPO, "--jobs", j, "--out", o]
        if corpus: cmd += ["--corpus", corpus]
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=800)
        if p.returncode != 0: raise CheckError(f"engine failed on {tag}: {p.stderr[-1500:]}")
        return json.load(open(o))

    def tsjobs(self, payload, tag):
        j, o = os.path.join(self.work, f"ts-{tag}.json"), os.path.join(self.work, f"tsout-{tag}.json")
        json.dump(payload, open(j, "w"))
        p = subprocess.run(["node", "--stack-size=4000", os.path.join(VERIF, "tslint", "shape.js"), j, o], capture_output=True, text=True, timeout=600)
        if p.returncode != 0: raise CheckError(f"TypeScript reader failed: {p.stderr[-1500:]}")
        return json.load(open(o))

    # -------------------------------------------------------------- results
    def violate(self, key, what, **detail):
        """key identifies the failing construct"""
        self.viol.append(dict(key=key, what=what, **detail))

    def undecide(self, key, why): self.undecided.append([key, why])

    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, x):
        if len(self.samples) < 6: self.samples.append(x)


def mined(*dirs, top=300):
    """the integers written in the sources: sizes at which they may start to behave differently"""
    out = set()
    for d in dirs:
        for base, _, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if not f.endswith((".rs", ".ts")): continue
                t = open(os.path.join(base, f), encoding="utf-8", errors="replace").read()
                for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:_?[ui](?:8|16|32|64|128|size))?(?:\s*<<\s*(\d+))?(?![\w.]\d)", t):
                    try: v = int(m[1].replace("_", ""), 0) << int(m[2] or 0)
                    except ValueError: continue
                    if 1 < v <= top: out.add(v)
    return sorted(out)


def build_engine(work):
    """the analysis engine; a prebuilt one is reused if it is up to date with its committed sources"""
    src = os.path.join(VERIF, "zodlint")
    tgt = os.path.join(src, "target")
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP"): env.pop(k, None)
    env.update(CARGO_NET_OFFLINE="true")
    if not os.access(src, os.W_OK): tgt = os.path.join(work, "engine")
    env["CARGO_TARGET_DIR"] = tgt
    p = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=src, env=env, capture_output=True, text=True, timeout=800)
    if p.returncode != 0: raise CheckError("engine does not build: " + p.stderr[-2000:])
    return os.path.join(tgt, "release", "zodlint")


def norm(x):
    """canonical form of a shape"""
    if isinstance(x, list): return [norm(y) for y in x]
    if not isinstance(x, dict): return x
    k = x.get("k")
    if k == "opt":
        o = norm(x["of"])
        return o if o.get("k") == "opt" else {"k": "opt", "of": o}
    if k == "obj":
        props, flat = [[p[0], norm(p[1])] for p in x["props"]], []
        for f in x.get("flat", []):
            f = norm(f)
            if f.get("k") == "obj":
                props += f["props"]; flat += f.get("flat", [])
            else: flat.append(f)
        o = {"k": "obj", "props": sorted(props, key=lambda p: p[0])}
        if flat: o["flat"] = flat
        return o
    if k == "union":
        alts = []
        for a in x["alts"]:
            a = norm(a)
            if a.get("k") == "union": alts += a["alts"]
            else: alts.append(a)
        opt = any(a.get("k") == "opt" for a in alts)
        if opt:
            flat = []
            for a in alts:
                a = a["of"] if a.get("k") == "opt" else a
                flat += a["alts"] if a.get("k") == "union" else [a]
            alts = flat
        u = {"k": "union", "alts": alts} if len(alts) != 1 else alts[0]
        return {"k": "opt", "of": u} if opt else u
    return {a: norm(b) for a, b in x.items() if a not in ("disc",)}


def show_shape(x):
    if not isinstance(x, dict): return json.dumps(x)
    k = x.get("k")
    if k == "atom": return "<" + x["v"] + ">"
    if k == "ref": return x["v"]
    if k == "lit": return json.dumps(x["v"], ensure_ascii=False)
    if k == "opt": return show_shape(x["of"]) + "?"
    if k == "lazy": return "lazy " + show_shape(x["of"])
    if k == "obj": return "{" + ", ".join(f"{json.dumps(p[0], ensure_ascii=False)}: {show_shape(p[1])}" for p in x["props"]) + "}" + "".join(" & " + show_shape(f) for f in x.get("flat", []))
    if k == "tuple": return "[" + ", ".join(map(show_shape, x["items"])) + "]"
    if k == "union": return "(" + " | ".join(map(show_shape, x["alts"])) + ")"
    if k == "array": return "array of " + show_shape(x["of"])
    if k in ("null", "boolean", "string", "number"): return k + (json.dumps(x["checks"]) if x.get("checks") else "")
    return json.dumps(x, ensure_ascii=False)
