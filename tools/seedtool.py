#!/usr/bin/env python3
"""seedtool.py [--nocheck] ID...: confirm planted changes (seeded/ID) in scratch copies of /repo: demo passes before,
patch applies, builds, the stable tests pass, demo fails after; then run the property's check on the copy."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set()


def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=e)
    return p.returncode, p.stdout


def one(sid, check, props):
    d = os.path.join(ROOT, "seeded", sid)
    w = "/tmp/seedw-" + sid
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    dd = "/tmp/seedd-" + sid
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    out = []
    try:
        rc, o = sh(["bash", dd + "/demo.sh"], w, 300)
        if rc != 0:
            return "DEMO FAILS ON CLEAN rc=%d\n%s" % (rc, o[-1500:])
        rc, o = sh(["git", "apply", d + "/patch.diff"], w)
        if rc != 0:
            return "PATCH DOES NOT APPLY\n" + o
        for f in ("build.sh", "test.sh", "cases.py", "cases.mk", "results.py"):
            t = open("/opt/vp/" + f).read().replace("/opt/vp/", w + "/.vp/").replace("/repo", w).replace(w + "/.vp/fixedseed.c", "/opt/vp/fixedseed.c")
            os.makedirs(w + "/.vp", exist_ok=True)
            open(w + "/.vp/" + f, "w").write(t)
        rc, o = sh(["bash", w + "/.vp/test.sh", w + "/.vp/out.json"], w)
        res = json.load(open(w + "/.vp/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base
        lost = sorted(set(stable) - set(res["passed"]))
        if lost or rc != 0 and not res["passed"]:
            return "TESTS LOST %s\n%s" % (lost, o[-1500:])
        rc, o = sh(["bash", dd + "/demo.sh"], w, 300)
        if rc == 0:
            return "DEMO PASSES WITH PATCH\n" + o[-500:]
        out.append("planted ok (demo rc %d: %s)" % (rc, o.strip()[-160:].replace("\n", " | ")))
        if check:
            for p in props or [json.load(open(d + "/meta.json"))["property"]]:
                rc, o = sh(["python3", ROOT + "/tools/check.py", p], ROOT, 1200, {"VERIF_REPO": w, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                v = [l for l in o.splitlines() if l.startswith("violation") or "check error" in l]
                out.append("%s -> %s %s" % (p, {0: "MISSED", 1: "caught", 2: "NO ANSWER"}.get(rc, rc), (v[0][:220] if v else o[-300:])))
        return "; ".join(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(dd, ignore_errors=True)


a = sys.argv[1:]
check = "--nocheck" not in a
props = [x[7:] for x in a if x.startswith("--prop=")]
for sid in [x for x in a if not x.startswith("--")] or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    try:
        r = one(sid, check, props)
    except Exception as e:
        r = "ERROR %r" % e
    print(sid, r, flush=True)
