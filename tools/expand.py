"""Lets the compiler expand witness programs against the analysed repository."""
import glob, json, os, shutil, subprocess
VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))


class ExpandError(Exception): pass


def cargo_toml(repo, name):
    return f"""[package]
name = "{name}"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
zod = {{ path = "{repo}", features = ["smol_str", "ordered-float"] }}
sattr = {{ path = "{VERIF}/corpus/sattr" }}
futures = "0.3"
serde = {{ version = "1", features = ["derive"] }}
serde_json = "1"
[profile.dev]
debug = false
[profile.dev.build-override]
opt-level = 0
"""


def setup(repo, workdir, name="corpus"):
    d = os.path.join(workdir, name)
    shutil.rmtree(os.path.join(d, "src"), ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    open(os.path.join(d, "Cargo.toml"), "w").write(cargo_toml(repo, name))
    lock = os.path.join(repo, "Cargo.lock")
    if os.path.exists(lock): shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    return d


def env(workdir):
    e = dict(os.environ)
    e.update(RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=os.path.join(workdir, "target"), CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="0", RUSTC_WORKSPACE_WRAPPER=os.path.join(VERIF, "tools", "rustc_par.py"))
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"): e.pop(k, None)
    return e


def expand(repo, workdir, sources, name="corpus"):
    """sources: list of program texts. -> list of (path of expanded program, [error])"""
    d = setup(repo, workdir, name)
    open(os.path.join(d, "src/lib.rs"), "w").write("")
    for i, s in enumerate(sources): open(os.path.join(d, "src", f"part{i:02}.rs"), "w").write(s)
    p = subprocess.run(["cargo", "rustc", "--offline", "--lib", "--", "-Zunpretty=expanded"], cwd=d, env=env(workdir),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=850)
    if p.returncode != 0:
        raise ExpandError("the analysed repository or the witness program does not build:\n" + p.stderr[-3000:])
    res = []
    for i in range(len(sources)):
        b = os.path.join(d, "src", f"part{i:02}")
        errs = errors(b + ".err")
        if os.path.getsize(b + ".expanded") == 0:
            raise ExpandError(f"no expansion of {name} part {i}: " + "; ".join(e["message"] for e in errs[:5]))
        res.append((b + ".expanded", errs))
    return res


def errors(path):
    errs = []
    for line in open(path, encoding="utf8"):
        try: m = json.loads(line)
        except ValueError: continue
        if m.get("$message_type", "diagnostic") != "diagnostic" or m.get("level") != "error": continue
        sp = [s for s in m["spans"] if s["is_primary"]] or m["spans"]
        if not sp and m["message"].startswith(("aborting due to", "could not compile", "Some errors have detailed")): continue
        errs.append({"message": m["message"], "code": (m.get("code") or {}).get("code"), "lines": [s["line_start"] for s in sp],
                     "children": [c["message"] for c in m.get("children", [])]})
    return errs


def check(repo, workdir, sources, name="wit"):
    """sources: list of program texts. -> list of [error]: the compiler's verdict on each"""
    d = setup(repo, workdir, name)
    open(os.path.join(d, "src/lib.rs"), "w").write("")
    for i, s in enumerate(sources): open(os.path.join(d, "src", f"part{i:03}.rs"), "w").write(s)
    p = subprocess.run(["cargo", "rustc", "--offline", "--lib", "--", "--cfg", "zodlint_check"], cwd=d, env=env(workdir),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=850)
    if p.returncode != 0: raise ExpandError("the analysed repository does not build:\n" + p.stderr[-3000:])
    res = []
    for i in range(len(sources)):
        b = os.path.join(d, "src", f"part{i:03}")
        rc = int(open(b + ".rc").read())
        errs = errors(b + ".err")
        if rc not in (0, 1) or (rc == 1) != bool(errs): raise ExpandError(f"no verdict on {name} part {i}: exit {rc}\n" + open(b + ".err", encoding="utf8").read()[-1500:])
        res.append(errs)
    return res
