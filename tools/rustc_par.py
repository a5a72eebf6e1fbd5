#!/usr/bin/env python3
"""rustc wrapper used while expanding witness programs: the witness crate is split into several source
files (src/part*.rs next to src/lib.rs); each is expanded by its own compiler process, in parallel."""
import sys, os, glob, subprocess
args = sys.argv[1:]
if "zodlint_check" in args:
    # witness programs that are type-checked, each by its own compiler process
    from concurrent.futures import ThreadPoolExecutor
    i = args.index("zodlint_check")
    args = args[:i - 1] + args[i + 1:]
    src = next(a for a in args if a.endswith("src/lib.rs"))
    d = os.path.dirname(os.path.abspath(src))

    def one(part):
        base = part[:-3]
        os.makedirs(base + ".out", exist_ok=True)
        a, skip = [], False
        for x in args:
            if skip: x = base + ".out"; skip = False
            elif x == "--out-dir": skip = True
            elif x.startswith("--emit"): x = "--emit=metadata"
            elif x == src: x = part
            a.append(x)
        with open(base + ".err", "w") as e: rc = subprocess.call(a, stdout=subprocess.DEVNULL, stderr=e)
        open(base + ".rc", "w").write(str(rc))
    with ThreadPoolExecutor(os.cpu_count() or 4) as pool: list(pool.map(one, sorted(glob.glob(os.path.join(d, "part*.rs")))))
    sys.exit(0)
if "-Zunpretty=expanded" not in args:
    os.execvp(args[0], args)
src = next(a for a in args if a.endswith("src/lib.rs"))
d = os.path.dirname(os.path.abspath(src))
procs = []
for part in sorted(glob.glob(os.path.join(d, "part*.rs"))):
    a = [part if x == src else x for x in args]
    base = part[:-3]
    o, e = open(base + ".expanded", "w"), open(base + ".err", "w")
    procs.append((subprocess.Popen(a, stdout=o, stderr=e), base))
for p, base in procs:
    p.wait()
    open(base + ".rc", "w").write(str(p.returncode))
sys.exit(0)
