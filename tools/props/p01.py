import vlib, decgen

ASSUMPTIONS = ["costs are multiples of 1/64 below 2^18 (exact in float); epsilon cycles have positive cost"]


def from_beh(b, rng):
    g = b["g"]
    # the model's unit is scaled by 64: the model's beam of 3 plays no role here
    g = {"start": g["start"], "arcs": [[[a[0], a[1], a[2] * 64, a[3]] for a in q] for q in g["arcs"]],
         "fin": [f if f == decgen.INF else f * 64 for f in g["fin"]]}
    fr = [[x * 64 for x in f] for f in b["frames"]]
    return decgen.lines(g, [0, 0, 1], 2, fr, const=rng.random() < .3)


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "MCViterbi", workers=8, timeout=850, consts={"Depth": 2, "Family": ctx.pick(1, 2)})
    if ctx.thorough:
        vlib.model(ctx, "MCViterbi", workers=8, timeout=850, consts={"Depth": 3, "Family": 1})
    exe = vlib.build(ctx, "h_dec", ["h_dec.cc"], **decgen.SRC)
    beh = vlib.model(ctx, "MCViterbi", consts={"Depth": ctx.pick(2, 3), "DoPrint": "TRUE"}, collect="BEH", workers=8, timeout=850)
    beh = rng.sample(beh, min(len(beh), ctx.pick(1200, 20000)))
    corr = vlib.num_corruptor(["best", "frame"], ["w", "c", "ok", "n"])
    scripts = [from_beh(b, rng) for b in beh]
    joined = [sum(scripts[i:i + 10], []) for i in range(0, len(scripts), 10)]
    vlib.conform(ctx, exe, "ViterbiTrace", joined, "enumerated", corrupt=corr)
    rs = []
    for i in range(ctx.pick(300, 4000)):
        npdf = rng.choice([1, 2, 3, 5])
        g, mp = decgen.random_graph(rng, npdf=npdf, wmax=rng.choice([5, 60, 120]), neg=rng.random() < .3,
                                    eps=rng.choice([0, .3, .6]), dens=rng.choice([1, 2, 3]))
        am2 = rng.choice([1, 2, 2, 4])
        lo = rng.choice([-3, -60, -150])
        n, hi = rng.choice([0, 1, 3, 8, 15, 45]), rng.choice([1, 40])
        fr = decgen.random_frames(rng, npdf, n, am2, lo, hi)
        while decgen.ties(g, mp, am2, fr, 60) > 60:      # too many best paths to list: fewer frames
            fr = fr[:len(fr) // 2]
        rs.append(decgen.lines(g, mp, am2, fr, const=rng.random() < .3, passes=rng.choice([1, 1, 2]), eos=rng.random() < .9,
                                   wide=decgen.random_wide(rng) if i % 12 == 0 else None))
    vlib.conform(ctx, exe, "ViterbiTrace", rs, "random", corrupt=corr)
