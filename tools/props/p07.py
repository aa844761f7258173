import vlib

ASSUMPTIONS = ["backoff chains are acyclic and a state has at most one arc per label, sorted by label, as convert_fst writes them",
               "weights are multiples of 1/4 (exact in float)"]
INF = 999999


def script_of(lm, bos, eos, nb, small, queries, wide=None):
    s = (["wide %d %d" % wide] if wide else [])
    s = ["lm %d %d %d %d %d" % (lm["start"], len(lm["arcs"]), bos, eos, nb)] + s
    for f, arcs in zip(lm["fin"], lm["arcs"]):
        s.append("st %s %d %s" % ("inf" if f == INF else f, len(arcs), " ".join("%d %d %d %d" % tuple(a) for a in arcs)))
    s.append("sm " + " ".join(map(str, small)))
    s.append("load")
    return s + queries


def all_queries(n, words, rng, reps):
    q = []
    for s in range(n):
        q.append("it %d" % s)
        for lev in ("fst", "lm", "lm0", "delta", "cache"):
            q.append("f %s %d" % (lev, s))
            for x in words:
                q.append("a %s %d %d" % (lev, s, x))
    q += ["s fst", "s delta", "s cache"]
    for _ in range(reps):
        q.append("a cache %d %d" % (rng.randrange(n), rng.choice(words)))
    rng.shuffle(q)
    return q


def random_lm(rng, big=False):
    n = rng.choice([20, 60, 150]) if big else rng.choice([1, 2, 3, 5, 9, 20])
    nw = rng.choice([60, 130, 300]) if big else rng.choice([2, 3, 4, 8, 15])
    empty = rng.random() * .5
    dens = rng.random()
    arcs, fin = [], []
    root = rng.randrange(n)
    order = list(range(n))
    rng.shuffle(order)
    rank = {s: i for i, s in enumerate(order)}
    if rng.random() < .6 and rank[0] != 0:        # usually state 0 is the lowest order
        o = order[0]
        rank[o], rank[0] = rank[0], 0
    for s in range(n):
        a = []
        if rng.random() > empty or rank[s] == 0 and rng.random() < .7:
            low = [t for t in range(n) if rank[t] < rank[s]]
            if low and rng.random() < .85:
                a.append([0, rng.choice(low), rng.randrange(-8, 40), 0])
            d = 1 if rank[s] == 0 and rng.random() < .7 else dens
            for x in range(1, nw + 1):
                if rng.random() < d:
                    a.append([x, rng.randrange(n), rng.randrange(0, 60), rng.choice([x, x, 0, rng.randrange(1, 30)])])
        arcs.append(a)
        fin.append(INF if rng.random() < .6 else rng.randrange(0, 20))
    return {"start": root, "arcs": arcs, "fin": fin}, nw


def check(ctx):
    vlib.model(ctx, "MCBackoffLm", workers=8, timeout=800, consts={"NB": 2})
    if ctx.thorough:
        vlib.model(ctx, "MCBackoffLm", workers=8, timeout=800, consts={"NB": 1})
        vlib.model(ctx, "MCBackoffLm", workers=8, timeout=800, consts={"NB": 3})
    lms = vlib.model(ctx, "MCBackoffLm", consts={"DoPrint": "TRUE"}, collect="BEH", workers=8)
    lms = ctx.rng.sample(lms, min(len(lms), ctx.pick(500, 6000)))
    exe = vlib.build(ctx, "h_lm", ["h_lm.cc"], core=["fst", "util", "vector", "symbol_table", "strlcpy"])
    corr = vlib.num_corruptor(["arc", "final", "iter"], ["arc", "w", "arcs"])
    rng = ctx.rng
    scripts = []
    for lm in lms:
        scripts.append(script_of(lm, 1, 2, rng.choice([1, 2, 3, 100]), [rng.randrange(-4, 30) for _ in range(4)],
                                 all_queries(3, [1, 2, 3], rng, 10)))
    joined = [sum(scripts[i:i + 4], []) for i in range(0, len(scripts), 4)]
    vlib.conform(ctx, exe, "LmTrace", joined, "enumerated", corrupt=corr)
    rs = []
    for i in range(ctx.pick(150, 2000)):
        lm, nw = random_lm(rng)
        bos, eos = rng.choice([(nw + 1, nw), (1, 2), (nw, nw + 1)])
        words = list(range(1, nw + 3))
        q = all_queries(len(lm["arcs"]), words, rng, 150)
        if len(q) > 350:
            q = rng.sample(q, 350)
        rs.append(script_of(lm, bos, eos, rng.choice([1, 2, 5, 37, 100000]), [rng.randrange(-10, 50) for _ in range(nw + 3)], q,
                            # ids which differ only beyond the low 15 or 16 bits
                            wide=(rng.choice([1, 32768, 65536]), rng.choice([1, 4096, 32768, 65536])) if i % 8 == 0 and len(lm["arcs"]) < 10 else None))
    for _ in range(ctx.pick(6, 60)):
        lm, nw = random_lm(rng, True)
        n = len(lm["arcs"])
        q = []
        for _ in range(400):
            q.append("a %s %d %d" % (rng.choice(["fst", "lm", "lm0", "delta", "cache", "cache"]), rng.randrange(n), rng.randint(1, nw + 2)))
        q += ["f %s %d" % (lev, rng.randrange(n)) for lev in ("fst", "lm", "delta", "cache") for _ in range(10)] + ["s delta", "it 0"]
        rs.append(script_of(lm, nw + 1, nw, rng.choice([1, 5, 100, 100000]), [rng.randrange(-10, 50) for _ in range(nw + 3)], q))
    vlib.conform(ctx, exe, "LmTrace", rs, "random", corrupt=corr)
