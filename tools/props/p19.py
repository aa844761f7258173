import vlib, apigen

ASSUMPTIONS = ["model files are judged one by one: a graph that fits its own format but not the other files is outside the claim",
               "process after end of stream and a second end of stream are not specified"]
FILES = ["HCLG.fst", "nnet", "prior", "tid2pdf", "words.txt", "G.fst", "orig", "model.conf"]
KEYS = ["fst", "nnet", "prior", "tid2pdf", "symbol_table", "left_context", "right_context", "chunk_size", "num_pdfs"]
OWN = dict(zip(["fst", "nnet", "prior", "tid2pdf", "symbol_table", "large_lm", "original_lm"], FILES))


def hx(s):
    return s.encode("latin1").hex() or "-"


def small_model(rng, lm):
    return apigen.model(rng, lm=lm, words=rng.choice([1, 2]), states=rng.choice([1, 2, 3]), ctx=(0, 0, rng.choice([1, 5])))


def conf_fault(rng, lm):
    """one change of the configuration: (old text, new text)"""
    k = rng.choice(KEYS + (["large_lm", "original_lm"] if lm else []))
    own = OWN.get(k)
    if own is None:
        return k + "=", rng.choice(["x" + k + "=", "#" + k + "=", k + "=-", k + "=x", k + "= ", k + "==", k + "=1 ", k + "=9999999999", k.upper() + "=", k + " = "])
    v = rng.choice([f for f in FILES if f != own] + ["nothere", "sub/" + own, own + "x", "./" + own, own.upper()])
    return k + "=" + own, rng.choice(["x" + k + "=" + own, "#" + k, k + "=" + v, k + "=" + v, k + "=", k, k + "==" + own, k.upper() + "=" + own, "\t" + k + "\t=\t" + own + "\t",
                                     k + "=" + own + "\n" + k + "=" + v, k + "=" + v + "\n" + k + "=" + own])


def faults(rng, lm, n):
    out = []
    for _ in range(n):
        f = rng.choice([x for x in FILES if lm or x not in ("G.fst", "orig")] + ["model.conf", "words.txt"])
        if f == "model.conf":
            r = rng.random()
            if r < .8:
                a, b = conf_fault(rng, lm)
                out.append("model.conf sub %s %s" % (hx(a), hx(b)))
            else:
                out.append(rng.choice(["model.conf missing", "model.conf dir", "model.conf cut %d" % rng.randint(0, 160), "model.conf app " + hx(rng.choice(["# c\n", "junk\n", "a=b", "\n\n", "a=b=c\n", "=x\n", "fst=\n"]))]))
        elif f == "words.txt":
            out.append("words.txt " + rng.choice(["missing", "dir", "cut %d" % rng.randint(0, 60), "app " + hx(rng.choice(["w 77\n", "w\n", "w 1 2\n", "w -1\n", "\n", "w x\n", "w 3"])),
                                                 "sub %s %s" % (hx("<s>"), hx("<t>")), "sub %s %s" % (hx("</s> "), hx("</s>")), "set " + hx("")]))
        elif f == "HCLG.fst":
            out.append("HCLG.fst " + rng.choice(["missing", "dir", "cut %d" % rng.choice([0, 1, 3, 4, 8, 20, rng.randint(0, 150)]), "poke %d 00" % rng.randrange(4)]))
        else:
            out.append(f + " " + rng.choice(["missing", "dir", "cut %d" % rng.choice([0, 3, 4, 8, 12, rng.randint(0, 120)]), "poke %d %s" % (rng.choice([0, 4, 8, 12, 16, 20, 32, 36, 40]), rng.choice(["ff", "00", "7f", "ffffffff", "01"])),
                                            "set " + hx("VEC0"), "app 00"]))
    return " ".join(out)


def trials(rng, thorough):
    lm = rng.random() < .4
    m, _ = small_model(rng, lm)
    return m + ["try %d " % rng.choice([1, 2]) + faults(rng, lm, rng.choice([0, 1, 1, 1, 1, 2, 3])) for _ in range(6)]


def sweep(rng, lm, f, points):
    """every truncation of one file"""
    m, _ = small_model(rng, lm)
    return [m + ["try 1 %s cut %d" % (f, i) for i in range(a, min(a + 25, points))] for a in range(0, points, 25)]


def life(ctx, rng):
    """random lifecycles: calls at any point, invalid calls in between"""
    lm = rng.random() < .2
    while True:
        m, info = apigen.model(rng, lm=lm)
        blocks, total = apigen.audio(rng, rng.choice([0, 100, 399, 400, 1200, rng.randint(0, 6000)]))
        if apigen.ok_ties(info, blocks, 6 if lm else 20):
            break
    w = rng.choice([1, 2, 4])
    s = m + ["load 1", "audio 1 %d %d %s" % (w, rng.randrange(10 ** 6), " ".join("%d %d" % b for b in blocks))]
    state = {}
    for _ in range(rng.randint(3, 14)):
        u = rng.randint(1, 3)
        r = rng.random()
        st = state.get(u)
        if r < .1:
            s.append("nul " + rng.choice(["proc", "procfake", "eos", "eosfake"]))
        elif st is None:
            if r < .45:
                ch, rate, bits = rng.choice([(2, 16000, 16), (0, 16000, 16), (-1, 16000, 16), (1, 8000, 16), (1, 16001, 16), (1, 0, 16), (1, 44100, 16), (1, 16000, 24), (1, 16000, 0), (1, 16000, 12), (1, 16000, 64),
                                             (1, 16000, -16), (1, -16000, 16), (1, 16000, 17), (1, 16000, 1), (2147483647, 16000, 16), (1, 16000, 2147483647), (1, 16000, 40), (3, 8000, 24)])
                s.append("uinit %d 1 1 %d %d %d" % (u, ch, rate, bits))
            else:
                s.append("uinit %d 1 1 1 16000 %d" % (u, 8 * w))
                state[u] = "open"
        elif r < .25:
            s.append("bad %d %s" % (u, rng.choice(["null", "zero", "neg", "min", "both"])))
        elif r < .35:
            s.append("hyp %d" % u)
        elif r < .5:
            s.append("udel %d" % u)
            state[u] = None
        elif st == "ended" and r < .75:
            s.append("eos %d" % u if r < .65 else "proc %d %d" % (u, rng.choice([1, 2, 321, 1600, 5000])))
        elif st == "open":
            if r < .65:
                s.append("eos %d" % u)
                state[u] = "ended"
            else:
                s.append("proc %d %d" % (u, rng.choice([1, 2, 3, 321, 799, 1600, 5000, 20000])))
    for u, st in state.items():
        if st is not None:
            s.append("udel %d" % u)
    s.append("rdel 1")
    return s


def corrupt(evs, rng):
    a, b = vlib.num_corruptor(["bad", "nul"], ["ret", "err"]), vlib.num_corruptor(["uinit"], ["ok"])
    return a(evs, rng) or b(evs, rng)


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "LoaderImpl", workers=8, timeout=800, consts={"MaxFaults": ctx.pick(1, 2)})
    exe = vlib.build(ctx, "h_api", ["h_api.cc"], opt="-O2", **apigen.SRC)
    scripts = [trials(rng, ctx.thorough) for _ in range(ctx.pick(150, 2000))]
    for f, n in (("HCLG.fst", 160), ("nnet", 120), ("prior", 30), ("tid2pdf", 30), ("words.txt", 60), ("G.fst", 160), ("orig", 60), ("model.conf", 200)):
        s = sweep(rng, f in ("G.fst", "orig") or rng.random() < .3, f, n)
        scripts += s if ctx.thorough else rng.sample(s, min(2, len(s)))
    # every key missing, every file missing
    m, _ = small_model(rng, True)
    scripts.append(m + ["try 2 model.conf sub %s %s" % (hx(k + "="), hx("x" + k + "=")) for k in KEYS + ["large_lm", "original_lm"]] + ["try 1 %s %s" % (f, h) for f in FILES for h in ("missing", "dir")] +
                   ["try 1 model.conf sub %s %s" % (hx(k + "="), hx(k + "=" + v)) for k in KEYS[5:] for v in ("-", "x", "1 ", "+", "99999999999", "-0")] + ["try %d model.conf sub %s %s" % (1 + n % 2, hx(k + "="), hx(k + "=" + x)) for k in KEYS for n, x in ((2100, "9" * 2100), (1999, "n" * 1999), (5001, "7" * 5000))] +
                   ["try 1 model.conf app %s" % hx("x" * 3000 + "\n"), "try 1 model.conf app %s" % hx("y" * 2500 + "=\n")] + ["try 1"])
    vlib.conform(ctx, exe, "RecognizerTrace", scripts, "init", corrupt=None, timeout=60)
    scripts = [life(ctx, rng) for _ in range(ctx.pick(250, 3000))]
    vlib.conform(ctx, exe, "RecognizerTrace", scripts, "life", corrupt=corrupt, timeout=60)
