#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: run one property's check. Exit 0 held, 1 violated,
2 no verdict."""
import sys, os, json, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def known_findings(prop):
    p = os.path.join(vlib.ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l[len("known: property=%s " % prop):])
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("props." + prop.lower())
    ctx = vlib.Ctx(prop, tier, seed)
    code, viol = 0, 0
    try:
        mod.check(ctx)
        for k in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
    except vlib.Violation as v:
        print("violation: " + v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        code, viol = 1, 1
    except vlib.CheckError as e:
        print("check error: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        ctx.cleanup()
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
          "coverage": ctx.cov, "assumptions": getattr(mod, "ASSUMPTIONS", []) + ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 1), "violations": viol}
    os.makedirs(vlib.EVID, exist_ok=True)
    with open(os.path.join(vlib.EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    ctx.log("done, exit", code)
    sys.exit(code)


main()
