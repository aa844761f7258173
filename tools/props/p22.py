import os
import vlib, apigen

ASSUMPTIONS = ["lists with a leading blank or a single trailing blank in a line, and headers the WAV specification leaves open, are left open"]


def hx(s):
    return s.encode("latin1").hex() or "-"


def script(ctx, rng):
    na = rng.choice([1, 2, 3])
    auds = []
    for _ in range(na):
        w = rng.choice([1, 2, 2, 4])
        t = rng.choice([0, 1, 400, 512 // w, 1024 // w, 2048 // w, 1024 * 5 // w, 1024 * 5 // w + 1, rng.randint(400, 9000), rng.randint(400, 9000)])
        auds.append((w,) + apigen.audio(rng, t))
    while True:
        m, info = apigen.model(rng, lm=rng.random() < .2, chain=rng.choice([0, 0, 23]))
        if all(apigen.ok_ties(info, b, 6 if info["lm"] else 20) for _, b, _ in auds):
            break
    s = m + ["load 1", "keep 1"]
    for i, (w, b, t) in enumerate(auds):
        s.append("audio %d %d %d %s" % (i + 1, w, rng.randrange(10 ** 6), " ".join("%d %d" % x for x in b)))
        s.append("uinit %d 1 %d 1 16000 %d" % (i + 1, i + 1, 8 * w))
        if t:
            s.append("proc %d %d" % (i + 1, t * w))
        s += ["eos %d" % (i + 1), "udel %d" % (i + 1)]
    good, bad = [], ["none", "none.wav", "."]
    for i, (w, b, t) in enumerate(auds):
        n = "a%d" % i + rng.choice(["", ".wav", ".pcm", ".WAV", ".scp.wav", ".scp"])
        s.append("wav %s %d %d 1 16000 %d" % (n, i + 1, i + 1, 8 * w))
        good.append(n)
        for k in range(2):
            n = "b%d%d" % (i, k) + rng.choice(["", ".wav"])
            f = rng.choice([(2, 16000, 16), (1, 8000, 16), (1, 16000, 24), (1, 44100, 16), (1, 16000, 8 * w)])
            x = rng.choice(["cut %d" % rng.randint(0, 43), "0 " + hx("RIFX"), "8 00", "20 03", "16 12", "28 ffff", "32 07", "36 " + hx("LIST"), "22 02"]) if f[1] == 16000 and f[2] == 8 * w and f[0] == 1 else ""
            s.append("wav %s %d %d %d %d %d %s" % (n, i + 1, i + 1, f[0], f[1], f[2], x))
            bad.append(n)
    names = ["u%d" % i for i in range(9)] + ["x/y", "\xe4\xb8\xad", "%s%n", "n" * 300, "a.wav", "-", "name=1"]
    for k in range(3):
        L = []
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            L.append("%s @%s" % (rng.choice(names), rng.choice(good)))
        if rng.random() < .07:
            L += ["%s @%s" % (rng.choice(names), rng.choice(good)) for _ in range(48)]
        if rng.random() < .6:
            x = rng.choice(["u @%s" % rng.choice(bad), "u @%s" % rng.choice(bad), "", "u", "u  @" + good[0], "u @%s x" % good[0], "@" + good[0], "u\t@" + good[0], "u @", "u"])
            L.insert(rng.randrange(len(L) + 1), x)
        if rng.random() < .05:
            L.insert(0, "w" * rng.choice([4094, 4096, 9000]) + " @" + good[0])
        t = "".join(x + rng.choice(["\n", "\n", "\r\n"]) for x in L)
        if rng.random() < .3 and t.endswith("\n"):
            t = t[:-1]
        n = "l%d%s" % (k, rng.choice([".scp", ".scp", ".txt", ".list", ".wav.scp", ".wavx", "wav", ".Wav"]))
        s.append("list %s %s" % (n, hx(t)))
        s.append("run %s %s" % (hx("@k1/model.conf"), hx("@" + n)))
    for n in good + rng.sample(bad, 2):
        if n.endswith(".wav") or rng.random() < .2:
            s.append("run %s %s" % (hx("@k1/model.conf"), hx("@" + n)))
    if rng.random() < .3:
        s.append("run " + " ".join(hx(x) for x in rng.choice([[], ["@k1/model.conf"], ["@k1/model.conf", "a"], ["@k1/model.conf", "wav"], ["@nomodel", "@" + good[0]], ["@k1/nomodel.conf", "@l0.scp"], ["@k1/nnet", "@l0.scp"],
                                                              ["@k1/model.conf", "@nolist.scp"], ["@k1/model.conf", "@no.wav"], ["@k1/model.conf", "@l0.scp", "x"], ["@k1", "@l0.scp"], ["@k1/model.conf", "@"]]) if x))
    s.append("rdel 1")
    return s


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "CliImpl", workers=8, timeout=800, consts={"MaxLines": ctx.pick(3, 4)})
    core = [x for x in apigen.SRC["core"]]
    cli = vlib.build(ctx, "ce_cli", [], core=core, openfst=True, gemm=True, main_from="main")
    exe = vlib.build(ctx, "h_api", ["h_api.cc"], opt="-O2", **apigen.SRC)
    scripts = [script(ctx, rng) for _ in range(ctx.pick(120, 1500))]
    vlib.conform(ctx, exe, "CliTrace", scripts, "tool", corrupt=corrupt, timeout=120, env=None, run_env={"CE_CLI": cli})


def corrupt(evs, rng):
    c = [e for e in evs if e["op"] == "run" and e["code"] == 0]
    if not c:
        return None
    e = rng.choice(c)
    k = rng.randrange(3)
    if k == 0:
        e["code"] = 1
    elif k == 1:
        e["out"] = e["out"] + [10]
    else:
        e["crash"] = True
    return evs
