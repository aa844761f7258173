import vlib, decgen

ASSUMPTIONS = ["costs are multiples of 1/64 below 2^18 (exact in float); epsilon cycles have positive cost"]


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "MCViterbi", workers=8, timeout=850, consts={"Depth": 2, "UseLm": "TRUE", "Family": ctx.pick(0, 1)})
    exe = vlib.build(ctx, "h_dec", ["h_dec.cc"], **decgen.SRC)
    corr = vlib.num_corruptor(["best", "frame"], ["w", "c", "ok", "n"])
    for label, count, kw in (("random", ctx.pick(260, 4000), {}), ("words", ctx.pick(160, 2500), {"dense": True})):
        rs = []
        for num in range(count):
            npdf = rng.choice([1, 2, 3])
            words = rng.choice([1, 2, 3, 5])
            g, mp = decgen.random_graph(rng, npdf=npdf, words=words, wmax=rng.choice([5, 40, 80]), neg=rng.random() < .2,
                                        eps=rng.choice([0, .3, .5]), dens=rng.choice([1, 2, 3]), n=rng.choice([1, 2, 3, 4]))
            if kw.get("dense"):
                # every emitting arc carries a word: histories differ in the same graph state
                for q in g["arcs"]:
                    for a in q:
                        if a[0] and rng.random() < .8:
                            a[3] = rng.randint(1, words)
                g["fin"] = [f if f != decgen.INF else rng.randrange(0, 50) for f in g["fin"]]
            lm = decgen.random_lm(rng, words, wmax=rng.choice([5, 60, 100]), miss=rng.choice([0, .1, .5]))
            if g["arcs"] and rng.random() < .3:
                # words unknown to the LM
                lm["small"] += [rng.randrange(0, 50) for _ in range(3)]
                for q in g["arcs"]:
                    for a in q:
                        if a[3] and rng.random() < .3:
                            a[3] = words + 2 + rng.randint(1, 3)
            # a negative cost on an epsilon cycle would have no optimum: either no epsilon cycles or
            # no words on epsilon arcs
            if rng.random() < .5:
                for i, q in enumerate(g["arcs"]):
                    g["arcs"][i] = [a for a in q if a[0] or a[1] > i]
            else:
                for q in g["arcs"]:
                    for a in q:
                        if a[0] == 0:
                            a[3] = 0
            fr = decgen.random_frames(rng, npdf, rng.choice([0, 1, 3, 6, 12, 25]), 2, rng.choice([-3, -60, -100]), rng.choice([1, 40]))
            rs.append(decgen.lines(g, mp, 2, fr, lm=lm, const=rng.random() < .3, passes=rng.choice([1, 1, 2]), eos=rng.random() < .9,
                                   wide=decgen.random_wide(rng) if num % 12 == 0 else None))
        vlib.conform(ctx, exe, "ViterbiTrace", rs, label, corrupt=corr)
