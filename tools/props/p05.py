import vlib


def line(e):
    if e[0] == "g":
        return "g " + " ".join(map(str, e[1]))
    return " ".join(map(str, e))


def random_script(rng, n, kind, bs):
    s = ["pool %s %d" % (kind, bs)]
    live, prev, nxt = [], {}, 0
    target = rng.choice([1, 3, 8, 20, 3 * bs if bs < 100 else 30])
    for _ in range(n):
        r = rng.random()
        if kind == "gc" and r < .12:
            roots = [i for i in live if rng.random() < rng.choice([0, .1, .3, 1])]
            roots += roots[:1]
            s.append("g " + " ".join(map(str, roots)))
            keep, st = set(), list(roots)
            while st:
                i = st.pop()
                if i in keep:
                    continue
                keep.add(i)
                if prev[i]:
                    st.append(prev[i])
            live = [i for i in live if i in keep]
        elif r < .14:
            s.append("x")
            live = []
        elif live and (r < .35 or len(live) > target * 2) and (kind != "gc" or r < .3):
            c = [i for i in live if not any(prev[j] == i for j in live)]
            i = rng.choice(c)
            live.remove(i)
            s.append("d %d" % i)
        else:
            p = 0
            if kind == "gc" and live and rng.random() < .8:
                p = rng.choice(live[-4:]) if rng.random() < .6 else rng.choice(live)
            nxt += 1
            prev[nxt] = p
            live.append(nxt)
            s.append("a %d" % p)
    return s


def big_script(rng, kind, bs, n):
    """fill several blocks, collect or release most of it, fill again"""
    s, nxt, live, prev = ["pool %s %d" % (kind, bs)], 0, [], {}
    for turn in range(2):
        shape = rng.choice(["chain", "star", "near", "mixed"])
        for _ in range(n):
            p = 0
            if kind == "gc" and live and rng.random() < .98:
                p = {"chain": live[-1], "star": live[0], "near": rng.choice(live[-9:]),
                     "mixed": rng.choice(live) if rng.random() < .1 else live[-1]}[shape]
            nxt += 1
            prev[nxt] = p
            live.append(nxt)
            s.append("a %d" % p)
        if kind == "gc":
            roots = rng.sample(live, rng.choice([0, 1, 3, n // 10]))
            s.append("g " + " ".join(map(str, roots)))
            keep = set()
            for i in range(nxt, 0, -1):
                if i in roots or i in keep:
                    keep.add(i)
                    if prev[i]:
                        keep.add(prev[i])
            live = [i for i in live if i in keep]
        else:
            for i in rng.sample(live, rng.randrange(n // 8)):
                live.remove(i)
                s.append("d %d" % i)
        if rng.random() < .5:
            s.append("x")
            live = []
    return s


def check(ctx):
    # the allocation algorithm refines the abstract pool, for every history
    vlib.model(ctx, "PoolImpl", consts={"Depth": ctx.pick(6, 7), "MaxObj": ctx.pick(5, 6)}, workers=8, timeout=800)
    vlib.model(ctx, "PoolImpl", consts={"Depth": ctx.pick(6, 8), "MaxObj": 5, "BlockSize": 1, "GcPool": "FALSE"}, workers=8)
    exe = vlib.build(ctx, "h_pool", ["h_pool.cc"], core=["util", "strlcpy"])
    corr = vlib.num_corruptor(["alloc", "dealloc", "gc", "clear", "delete"], ["n", "f", "log", "id"])
    scripts = []
    for gcp in ("TRUE", "FALSE"):
        d = ctx.pick(5, 6) + (gcp == "FALSE")
        beh = vlib.model(ctx, "PoolImpl", consts={"Depth": d, "MaxObj": d, "DoPrint": "TRUE", "GcPool": gcp},
                         workers=8, collect="BEH")
        lim = ctx.pick(3000, 40000)
        if len(beh) > lim:
            beh = ctx.rng.sample(beh, lim)
        for b in beh:
            if gcp == "TRUE":
                k = ["pool gc %d" % ctx.rng.choice([1, 2, 3])]
            else:
                k = ["pool %s %d" % (ctx.rng.choice(["plain", "triv"]), ctx.rng.choice([1, 2, 3]))]
            scripts.append(k + [line(e) for e in b])
    # several behaviours per process (each with its own pool)
    joined = []
    for i in range(0, len(scripts), 5):
        joined.append(sum(scripts[i:i + 5], []))
    vlib.conform(ctx, exe, "PoolTrace", joined, "enumerated", corrupt=corr)
    rs = []
    for _ in range(ctx.pick(240, 3000)):
        rs.append(random_script(ctx.rng, ctx.rng.choice([30, 80, 150]), ctx.rng.choice(["gc", "gc", "plain", "triv"]),
                                ctx.rng.choice([1, 2, 3, 7, 4096])))
    vlib.conform(ctx, exe, "PoolTrace", rs, "random", corrupt=corr)
    bs = [big_script(ctx.rng, k, b, n) for k, b, n in
          [("gc", 64, 150), ("gc", 64, 300), ("plain", 64, 200), ("triv", 64, 200), ("gc", 7, 300)] * ctx.pick(2, 10) +
          [("gc", 4096, 4200), ("gc", 4096, 2500), ("plain", 4096, 4200)]]
    vlib.conform(ctx, exe, "PoolTrace", bs, "blocks", corrupt=corr, timeout=120)
