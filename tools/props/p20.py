import vlib, apigen

ASSUMPTIONS = ["schedules of the threads are those that occur (data races are detected by ThreadSanitizer for every execution, also without a visible effect)",
               "failing calls (which write the one error text) are not made concurrently", "OpenFST, gemmlowp and OpenBLAS are not instrumented for races"]


def world(ctx, rng, nrec, naud, lm, cap, big=False):
    s, infos = [], []
    auds = []
    for a in range(1, naud + 1):
        w = rng.choice([1, 2, 2, 4])
        bl, tot = apigen.audio(rng, rng.choice([400, 1000, 3000, rng.randint(400, 6000)]) if not big else rng.randint(3000, 7000))
        auds.append((w, bl, tot))
    for r in range(1, nrec + 1):
        while True:
            m, info = apigen.model(rng, lm=lm and rng.random() < .7)
            if all(apigen.ok_ties(info, bl, 6 if info["lm"] else cap) for _, bl, _ in auds):
                break
        s.append((r, m))
    lines = ["audio %d %d %d %s" % (i + 1, w, rng.randrange(10 ** 6), " ".join("%d %d" % b for b in bl)) for i, (w, bl, _) in enumerate(auds)]
    return s, lines, auds


def utt(rng, u, recs, auds, early=.2):
    a = rng.randrange(len(auds))
    w, bl, tot = auds[a]
    s = ["uinit %d %d %d 1 16000 %d" % (u, rng.choice(recs), a + 1, 8 * w)]
    for c in apigen.chunks(rng, tot * w):
        s.append("proc %d %d" % (u, c))
        if rng.random() < .05:
            s.append("hyp %d" % u)
    if rng.random() < early:
        s = s[:rng.randint(1, len(s))]
    else:
        s += ["eos %d" % u, "hyp %d" % u]
    return s + ["udel %d" % u]


def sequential(ctx, rng):
    models, lines, auds = world(ctx, rng, rng.choice([1, 1, 2]), rng.choice([1, 2, 3]), rng.random() < .4, 12)
    s = []
    for r, m in models:
        s += m + ["load %d" % r]
    s += lines
    n = rng.choice([2, 2, 3, 4])
    seqs = []
    for u in range(1, n + 1):
        q = []
        for _ in range(rng.choice([1, 1, 2])):
            q += utt(rng, u, [r for r, _ in models], auds)
            if rng.random() < .1:
                q += ["uinit %d 1 1 2 16000 16" % u]
        seqs.append(q)
    burst = rng.choice([.0, .5, .9])
    cur = None
    while any(seqs):
        if cur is None or not cur or rng.random() > burst:
            cur = rng.choice([q for q in seqs if q])
        s.append(cur.pop(0))
        if rng.random() < .03:
            s.append(rng.choice(["nul proc", "nul eos", "bad %d null" % rng.randint(1, n), "bad %d neg" % rng.randint(1, n)]))
    # only on utterances that were begun
    out, seen = [], set()
    for l in s:
        f = l.split()
        if f[0] == "uinit":
            seen.add(f[1])
        if f[0] == "bad" and f[1] not in seen:
            continue
        out.append(l)
    return out + ["rdel %d" % r for r, _ in models]


def parallel(ctx, rng):
    models, lines, auds = world(ctx, rng, rng.choice([1, 1, 2]), rng.choice([1, 2]), rng.random() < .5, 12, big=True)
    s = []
    for r, m in models:
        s += m + ["load %d" % r]
    s += lines
    recs = [r for r, _ in models]
    extra = []
    if rng.random() < .4:
        # another recognizer is loaded (and removed) meanwhile
        s += models[0][1]
        extra = ["load 9"] + (["rdel 9"] if rng.random() < .6 else [])
    s.append("par")
    n = rng.choice([2, 3, 4, 6])
    seqs = [[x for _ in range(rng.choice([1, 2])) for x in utt(rng, u, recs, auds, .1)] for u in range(1, n + 1)]
    for q in seqs:
        s += q
    s += extra + ["endpar"]
    return s + ["rdel %d" % r for r in recs] + (["rdel 9"] if extra == ["load 9"] else [])


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "SharedImpl", workers=8, timeout=800, consts={"MaxCalls": ctx.pick(2, 3)})
    vlib.model(ctx, "SharedImpl", consts={"Scratch": '"shared"'}, expect_violation="NoRace|Independent")
    corr = vlib.num_corruptor(["proc", "eos"], ["ret", "t"])
    exe = vlib.build(ctx, "h_api", ["h_api.cc"], opt="-O2", **apigen.SRC)
    vlib.conform(ctx, exe, "RecognizerTrace", [sequential(ctx, rng) for _ in range(ctx.pick(130, 2000))], "interleaved", corrupt=corr, timeout=60)
    exe = vlib.build(ctx, "h_api_t", ["h_api.cc"], opt="-O1", san="thread", **apigen.SRC)
    vlib.conform(ctx, exe, "RecognizerTrace", [parallel(ctx, rng) for _ in range(ctx.pick(80, 1000))], "threads", corrupt=corr, timeout=60)
