"""./check <property>: decides one property on the current /repo"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import known


def load(prop):
    import importlib
    for m in ("p_derive", "p_rpc", "p_srv", "p_con", "p_ts", "p_misc", "p_api"):
        try: mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m: raise
            continue
        f = getattr(mod, "check_" + prop, None)
        if f: return f
    raise SystemExit(f"unknown property {prop}")


META = json.load(open(os.path.join(VERIF, "tools", "meta.json"))) if os.path.exists(os.path.join(VERIF, "tools", "meta.json")) else {}


def main():
    prop = sys.argv[1]
    f = load(prop)
    ctx = Ctx(prop)
    rc = 0
    run = None
    try:
        try: run = f(ctx)
        except CheckError as e:
            # the analysis cannot see the code the property is anchored in: nothing supports the claim
            print(f"{prop}: {e}")
            ctx.violate("analysis", str(e)[:2000])
        except __import__("expand").ExpandError as e:
            print(f"{prop}: {e}")
            ctx.violate("expansion", str(e)[:2000])
        except Exception as e:
            traceback.print_exc()
            ctx.violate("analysis", f"the analysis failed: {type(e).__name__}: {e}"[:2000])
        new, kn = known.split(prop, ctx.viol)
        for k in kn: print(f"KNOWN-FINDING: property={prop} {k}")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        replay = os.path.join(VERIF, "evidence", f"{prop}.violations.json")
        if new:
            json.dump(new, open(replay, "w"), indent=1, ensure_ascii=False)
            for v in new[:8]: print(f"  {v['key']}: {v['what']}"[:900])
            if len(new) > 8: print(f"  ... and {len(new) - 8} more")
            print(f"VIOLATION property={prop} replay={replay}")
            rc = 1
        elif os.path.exists(replay): os.remove(replay)
        evidence(ctx, run, new, kn)
        und = len(ctx.undecided)
        print(f"{prop}: {'VIOLATED' if new else 'holds'}; " + ", ".join(f"{v} {k}" for k, v in ctx.counts.items()) + f"; {und} undecided; {time.time() - ctx.t0:.1f} s")
    finally: ctx.close()
    sys.stdout.flush()
    os._exit(rc)


def evidence(ctx, run, new, kn):
    m = META.get(ctx.prop, {})
    cov = {"explanation": m.get("rule", ""), "rule": m.get("rule", ""), "counts": ctx.counts, "undecided": len(ctx.undecided), "undecided_samples": ctx.undecided[:10],
           "samples": ctx.samples or [{"note": "see counts"}], "known_findings": kn}
    cov.update(ctx.notes)
    if m.get("level") == "translation_validation":
        cov["programs"] = ctx.counts.get("programs", 0)
        cov["disagreements_checked"] = sum(v for k, v in ctx.counts.items() if "compared" in k or k in ("references", "calls", "comments", "number schemas", "unions"))
    if run is not None and hasattr(run, "meta"):
        cov["files_analysed"] = run.meta["files"]
        cov["functions_in_scope"] = run.meta["functions"]
        cov["functions_evaluated"] = len(run.meta["visited"])
    d = {"property": ctx.prop, "tier": "thorough" if ctx.thorough else "quick", "seed": SEED, "level": m.get("level", "other"), "coverage": cov,
         "assumptions": m.get("assumptions", []), "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new)}
    json.dump(d, open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w"), indent=1, ensure_ascii=False)


main()
