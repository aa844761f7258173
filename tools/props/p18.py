import vlib, apigen

ASSUMPTIONS = ["end to end runs use a tiny acoustic model that recognises loud and quiet frames, costs are multiples of 1/4"]


def script(ctx, rng, lm=False, **kw):
    while True:
        m, info = apigen.model(rng, lm=lm, **kw)
        blocks, total = apigen.audio(rng)
        if apigen.ok_ties(info, blocks, 6 if lm else 30):
            break
    w = rng.choice([1, 2, 2, 4])
    s = m + ["load 1", "audio 1 %d %d %s" % (w, rng.randrange(10 ** 6), " ".join("%d %d" % b for b in blocks))]
    for _ in range(rng.choice([1, 2, 3])):
        s.append("uinit 1 1 1 1 16000 %d" % (8 * w))
        for c in apigen.chunks(rng, total * w):
            s.append("proc 1 %d" % c)
            if rng.random() < .02:
                s.append("bad 1 " + rng.choice(["null", "zero", "neg", "min", "both"]))
        s += ["eos 1", "hyp 1"] + rng.choice([[], [], ["eos 1", "hyp 1"], ["eos 1", "eos 1"]]) + ["udel 1"]
    s.append("rdel 1")
    return s


def long_script(ctx, rng):
    """many refreshes of the partial hypothesis"""
    while True:
        m, info = apigen.model(rng, chain=rng.choice([23, 41, 57]), lm=False)
        blocks, total = apigen.audio(rng, rng.randint(9000, 16000 if not ctx.thorough else 40000))
        if apigen.ok_ties(info, blocks, 20):
            break
    s = m + ["load 1", "audio 1 2 %d %s" % (rng.randrange(10 ** 6), " ".join("%d %d" % b for b in blocks)), "uinit 1 1 1 1 16000 16"]
    return s + ["proc 1 %d" % c for c in apigen.chunks(rng, total * 2)] + ["eos 1", "hyp 1", "udel 1", "rdel 1"]


def long_words(ctx, rng):
    """hypotheses of thousands of characters"""
    m, info = apigen.model(rng, chain=rng.choice([23, 41]), lm=False)
    m = [l if not l.startswith("sym ") or rng.random() < .4 or l.split()[2] in map(apigen.hx, ("<s>", "</s>", "<eps>")) else
         "sym %s %s" % (l.split()[1], apigen.hx(rng.choice("abz") * rng.choice([127, 256, 300, 900]) + l.split()[1])) for l in m]
    total = rng.randint(5000, 12000)
    s = m + ["load 1", "audio 1 2 %d 0 %d" % (rng.randrange(10 ** 6), total), "uinit 1 1 1 1 16000 16"]
    return s + ["proc 1 %d" % c for c in [total] * 2] + ["eos 1", "hyp 1", "udel 1", "rdel 1"]


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "PipelineImpl", workers=8, consts={"MaxBytes": 14, "MaxCall": 14})
    vlib.model(ctx, "PipelineImpl", workers=8, consts={"Shift": 3, "Length": 7, "MaxBytes": ctx.pick(18, 24), "MaxCall": 24, "Widths": "{1}"})
    exe = vlib.build(ctx, "h_api", ["h_api.cc"], opt="-O2", **apigen.SRC)
    corr = vlib.num_corruptor(["proc", "eos"], ["ret", "t"])
    scripts = [script(ctx, rng) for _ in range(ctx.pick(200, 2500))]
    scripts += [script(ctx, rng, chain=rng.choice([23, 41, 57, 7])) for _ in range(ctx.pick(100, 800))]
    scripts += [script(ctx, rng, lm=True) for _ in range(ctx.pick(100, 1200))]
    scripts += [long_script(ctx, rng) for _ in range(ctx.pick(12, 150))]
    scripts += [long_words(ctx, rng) for _ in range(ctx.pick(10, 60))]
    vlib.conform(ctx, exe, "RecognizerTrace", scripts, "api", corrupt=corr, timeout=60)
