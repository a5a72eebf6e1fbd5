#!/usr/bin/env python3
"""seedtest.py [--no-check] [ID..]: confirms planted changes in a scratch copy of /repo (builds, stable tests pass, demonstration) and runs the property's check on them.
Not used by any check."""
import json, os, subprocess, sys, time
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
R = os.environ.get("SEEDREPO", "/tmp/seedrepo")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def stable():
    b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open(R + ".json"))
    g = lambda x: next(x[k] for k in ("passed", "pass", "stable", "tests") if k in x)
    tp = g(t)
    return sorted(set(g(b)) - set(tp))
def main():
    args = sys.argv[1:]
    check = "--no-check" not in args
    full = "--check-only" not in args
    allc = "--all-checks" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    if not os.path.exists(R): subprocess.check_call(["cp", "-a", "/repo", R])
    sh(f"git -C {R} fetch -q /repo HEAD && git -C {R} checkout -q -f --detach FETCH_HEAD && git -C {R} checkout -q -- .")
    man = {c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
    env = dict(os.environ, ZOD_REPO=R)
    bad = 0
    for i in ids:
        d = f"{V}/seeded/{i}"
        m = json.load(open(d + "/meta.json"))
        t0 = time.time(); o = []
        if full:
            r = sh(f"bash {d}/demo.sh", cwd=R); o.append(f"clean demo {r.returncode}")
            if r.returncode: print(r.stderr[-1500:])
        a = sh(f"git -C {R} apply {d}/patch.diff")
        if a.returncode: print(i, "DOES NOT APPLY", a.stderr[:300]); bad += 1; continue
        try:
            if full:
                b = sh(f"mkdir -p {R}.vp; for f in env.sh test.sh; do sed -e 's#cd /repo#cd {R}#' -e 's#/opt/vp/env.sh#{R}.vp/env.sh#' /opt/vp/$f > {R}.vp/$f; done; . {R}.vp/env.sh; cargo test --workspace --all-features --no-run --offline", executable="/bin/bash"); o.append("build " + str(b.returncode))
                if b.returncode: print(b.stderr[-2000:])
                sh(f"cd {R} && bash {R}.vp/test.sh {R}.json"); o.append("missing tests " + str(stable()))
                r = sh(f"bash {d}/demo.sh", cwd=R); o.append(f"demo {r.returncode} {(r.stderr or r.stdout).strip()[-160:]!r}")
            if check and m["property"] in man:
                for p in (sorted(man) if allc else [m["property"]]):
                    c = sh(f"{V}/check {p}", env=env, cwd=V)
                    if allc and c.returncode == 0: continue
                    l = [x for x in c.stdout.split("\n") if x.startswith("  ")][:1]
                    o.append(f"check {p} rc={c.returncode} {l[0][:220] if l else c.stdout[-300:]}")
        finally: sh(f"git -C {R} checkout -q -- .")
        print(i, "|", " | ".join(o), f"| {time.time() - t0:.0f} s", flush=True)
main()
