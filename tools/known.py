"""Known findings: /verif/known_findings.txt, one per line:
   property=<id> key=<key pattern> <what fails>      recorded, reported as KNOWN-FINDING
   fixed: property=<id> <commit> <what failed>       repaired, suppresses nothing
Keys identify the failing construct exactly (fnmatch pattern over the violation's key, `tag:x` for probes with that tag)."""
import fnmatch, os, re
from common import VERIF


def load():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p): return out
    for l in open(p, encoding="utf8"):
        l = l.strip()
        if not l or l.startswith("#") or l.startswith("fixed:"): continue
        m = re.match(r"property=(\S+) key=(\S+) (.*)", l)
        if m: out.append(m.groups())
    return out


def split(prop, viol):
    fs = [f for f in load() if f[0] == prop]
    new, hit = [], {}
    for v in viol:
        for p, key, what in fs:
            ks = key.split("&")
            if all((k[4:] in (v.get("tags") or ())) if k.startswith("tag:") else fnmatch.fnmatchcase(v["key"], k) for k in ks):
                hit[what] = hit.get(what, 0) + 1
                break
        else: new.append(v)
    return new, [f"{w} ({n} witness{'es' if n > 1 else ''})" for w, n in hit.items()]
