import vlib, decgen

ASSUMPTIONS = ["costs are multiples of 1/64 below 2^18 (exact in float)"]


def long_script(rng, n):
    while True:
        s = _long_script(rng, n)
        if s:
            return s


def _long_script(rng, n):
    """A word loop: the best path spells a word every few frames; competing words are created and
    abandoned all the time. Weights are spread out, so that ties are rare."""
    npdf = rng.choice([2, 3, 4])
    words = rng.choice([2, 3, 6])
    k = rng.choice([2, 3, 4])
    mp = [0] + list(range(npdf))
    arcs = [[] for _ in range(k)]
    for q in range(k):
        for _ in range(rng.choice([2, 3, 4])):
            arcs[q].append([rng.randint(1, npdf), rng.randrange(k), rng.randrange(0, 40),
                            rng.choice([0, 0, rng.randint(1, words), rng.randint(1, words)])])
        arcs[q].append([rng.randint(1, npdf), (q + 1) % k, rng.randrange(0, 40), rng.randint(1, words)])
    if rng.random() < .4:
        arcs[rng.randrange(k)].append([0, rng.randrange(k), rng.randrange(1, 60), rng.randint(0, words)])
    for q in range(k):
        arcs[q] = [a for a in arcs[q] if a[0] or a[1] != q]
    g = {"start": 0, "arcs": arcs, "fin": [rng.randrange(0, 50) for _ in range(k)]}
    fr = decgen.random_frames(rng, npdf, n, 2, rng.choice([-60, -200]), 1)
    if decgen.ties(g, mp, 2, fr, 12) > 12:
        return None
    s = decgen.lines(g, mp, 2, fr, every=rng.choice([1, 7, 20, 19]) if n < 300 else rng.choice([20, 21, 37]),
                     passes=rng.choice([1, 2, 2]) if n < 300 else 1,
                     wide=[1, 1, 1, rng.choice([32768, 65536]), 1] if rng.random() < .15 else None)
    return s


def abandon(rng):
    """an utterance that dies or is left in the middle, then a new one with the same decoder"""
    s = long_script(rng, rng.choice([5, 19, 20, 21, 40, 41, 65]))
    i = max(j for j, l in enumerate(s) if l == "eos")
    head = s[:s.index("init")]
    body = s[s.index("init"):]
    cut = rng.randrange(1, len(body))
    return head + body[:cut] + body[:rng.randrange(1, len(body))] + body


def crowd(rng):
    """thousands of hypotheses with histories of their own; the one that wins in the end is neither the
    first nor the best of them for a long time"""
    n = rng.choice([300, 2000, 5000, 9000])
    # 0 -> A (n copies), B, C; all loop; every history has a word of its own
    order = [(1, rng.randrange(0, 30), 1), (2, rng.randrange(0, 30), 2), (3, rng.randrange(0, 30), 3)]
    rng.shuffle(order)
    arcs = [[[1, q, c, w] for q, c, w in order], [[2, 1, 0, 0]], [[3, 2, 0, 0]], [[4, 3, 0, 0]]]
    for q in (2, 3):
        if rng.random() < .6:
            arcs[q].append([5, q, rng.randrange(0, 9), 4])
    g = {"start": 0, "arcs": arcs, "fin": [decgen.INF, 0, 0, rng.choice([0, 200])]}
    mp = [0, 0, 1, 2, 3, 4]
    m = rng.choice([20, 21, 22, 39, 40, 41, 45])
    late = rng.choice([2, 3])
    fr = [[0, 0, 0, 0, 0]]
    for i in range(m):
        f = [0, 0, -4, -8, -900]
        f[late] -= 12
        fr.append(f)
    for i in range(rng.choice([1, 25, 45])):
        f = [0, -40, -40, -40, -50 if rng.random() < .2 else -900]
        f[late] = -3
        fr.append(f)
    return decgen.lines(g, mp, 2, fr, reps={1: n}, every=0, acts=[n + 3] * len(fr))


def endless(rng, reps, dense):
    """blocks of frames repeated for the length of a long recording; with dense nearly every frame has a word"""
    while True:
        npdf, words, k = rng.choice([2, 3]), rng.choice([2, 5]), rng.choice([2, 3])
        mp = [0] + list(range(npdf))
        arcs = [[[il, rng.randrange(k), rng.randrange(0, 40), rng.randint(1, words) if rng.random() < dense else 0]
                 for il in rng.sample(range(1, npdf + 1), rng.randint(1, npdf)) for _ in range(rng.choice([1, 1, 2]))] for _ in range(k)]
        g = {"start": 0, "arcs": arcs, "fin": [rng.randrange(0, 50) for _ in range(k)]}
        blocks = [decgen.random_frames(rng, npdf, rng.choice([1, 3, 7, 20, 33]), 2, -60, 1) for _ in range(rng.choice([2, 3]))]
        if decgen.ties(g, mp, 2, sum([b * (60 // len(b) + 2) for b in blocks], []), 1) > 1:
            continue
        s = decgen.lines(g, mp, 2, [], eos=False, tail_best=False)
        for b in blocks:
            s.append("loop %d %d %d %s" % (reps // len(blocks) // len(b) + 1, len(b), npdf, " ".join(str(x) for f in b for x in f)))
            s.append("best")
        return s + ["eos", "best"]


def day(rng, reps):
    """a word every frame, longer than any recording: one path only"""
    k = rng.choice([1, 2, 3])
    g = {"start": 0, "arcs": [[[1, (q + 1) % k, rng.randrange(0, 2), rng.randint(1, 9)]] for q in range(k)], "fin": [rng.randrange(0, 50) for _ in range(k)]}
    s = decgen.lines(g, [0, 0], 2, [], eos=False, tail_best=False)
    s += ["loop %d 2 1 0 %d" % (reps // 2, -rng.randrange(2)), "best"]
    return s + ["eos", "best"]


def check(ctx):
    rng = ctx.rng
    # the collector refines the abstract pool (see P05); here: the decoder with its collector refines
    # the search that never collects
    vlib.model(ctx, "PoolImpl", consts={"Depth": ctx.pick(6, 8), "MaxObj": 5}, workers=8, timeout=800)
    exe = vlib.build(ctx, "h_dec", ["h_dec.cc"], **decgen.SRC)
    corr = vlib.num_corruptor(["best", "frame"], ["w", "c", "n"])
    rs = [long_script(rng, rng.choice([19, 20, 21, 22, 45, 80, 130])) for _ in range(ctx.pick(150, 1500))]
    rs += [crowd(rng) for _ in range(ctx.pick(12, 80))]
    vlib.conform(ctx, exe, "ViterbiTrace", rs, "collect", corrupt=corr, timeout=60)
    rs = [abandon(rng) for _ in range(ctx.pick(100, 1000))]
    vlib.conform(ctx, exe, "ViterbiTrace", rs, "reinit", corrupt=corr)
    rs = [long_script(rng, rng.choice(ctx.pick([300, 400, 700], [400, 1200, 2500]))) for _ in range(ctx.pick(24, 96))]
    vlib.conform(ctx, exe, "ViterbiTrace", rs, "long", timeout=60)
    # thousands of words in one history, and more frames than 2^15 or 2^16
    rs = [endless(rng, n, d) for n, d in ctx.pick([(2600, 1), (12000, 1), (34000, .02), (66500, .01)],
                                                 [(2600, 1)] * 4 + [(12000, 1)] * 4 + [(40000, 1)] * 2 + [(66500, .01)] * 4)]
    rs += [day(rng, n) for n in ctx.pick([101000], [101000, 140000])]
    vlib.conform(ctx, exe, "ViterbiTrace", rs, "endless", timeout=200)
