import vlib, decgen
from decgen import INF

ASSUMPTIONS = ["costs are multiples of 1/64 below 2^18 (exact in float); epsilon cycles have positive cost"]


def fan(rng, total):
    """one start state, K classes of states fanning out; classes stand for many states each"""
    k = rng.choice([2, 3, 4, 6])
    npdf = 3
    mp = [0, 0, 1, 2, 0, 1]
    reps = {}
    left = total - 3
    big = rng.sample(range(1, k + 1), rng.choice([1, 1, min(2, k)]))
    for c in big:
        reps[c] = left // len(big)
    arcs = [[]]
    spread = rng.choice([30, 400, 900, 1000])
    for c in range(1, k + 1):
        arcs[0].append([rng.randint(1, 5), c, rng.randrange(0, spread), rng.choice([0, c])])
    if rng.random() < .5:
        arcs[0].append([1, k + 1, 0, 9])
    for c in range(1, k + 1):
        a = [[rng.randint(1, 5), c, rng.randrange(0, rng.choice([5, 300])), rng.choice([0, 0, c])]]
        if rng.random() < .6:
            a.append([rng.randint(1, 5), k + 1, rng.randrange(0, 300), rng.choice([0, 7 + c])])
        if rng.random() < .3 and c not in reps and c < k and c + 1 not in reps:
            a.append([rng.randint(1, 5), c + 1, rng.randrange(0, 300), 0])
        arcs.append(a)
    arcs.append([[rng.randint(1, 5), k + 1, rng.randrange(0, 100), 0]])
    g = {"start": 0, "arcs": arcs, "fin": [INF] + [rng.randrange(0, 400) for _ in range(k + 1)]}
    n = rng.choice([2, 3, 4, 6])
    fr = decgen.random_frames(rng, npdf, n, 2, rng.choice([-40, -500, -900]), 1)
    tot = sum(reps.get(i, 1) for i in range(k + 2))
    return decgen.lines(g, mp, 2, fr, acts=[1] + [tot] * (n - 1), reps=reps, const=True)


def late(rng, total):
    """the best path at every frame goes through the last of very many states; the others are far worse
    or as good for a while"""
    d = rng.choice([5, 50, 500, 900])
    arcs = [[[1, 1, rng.randrange(1, d + 1), 1], [2, 2, 0, 2]],
            [[1, 1, rng.randrange(1, 40), 0]],
            [[2, 2, 0, 0]]]
    g = {"start": 0, "arcs": arcs, "fin": [INF, rng.randrange(0, 50), rng.choice([0, 30])]}
    n = rng.choice([2, 4, 7])
    fr = [[-rng.randrange(0, 30), 0] for _ in range(n)]
    return decgen.lines(g, [0, 0, 1], 2, fr, acts=[1] + [total + 2] * (n - 1), reps={1: total}, const=True)


def overtake(rng, total, gap):
    """within the beam, but not the best, until the last frames"""
    arcs = [[[1, 1, 0, 1], [1, 2, gap, 2]],
            [[1, 1, 0, 0]],
            [[2, 2, 0, 0]]]
    g = {"start": 0, "arcs": arcs, "fin": [INF, 0, 0]}
    n = rng.choice([3, 5])
    fr = [[0, 0]] * (n - 1) + [[-1000, 0]]
    return decgen.lines(g, [0, 0, 1], 2, fr, acts=[1] + [total + 2] * (n - 1), reps={1: total}, const=True)


GAPS = [0, 0, 1, 300, 900, 1022, 1023, 1023, 1024, 1024, 1024, 1025, 1025, 1026, 1500, 2047, 2048, 2049]


def lanes(rng, lm):
    """a few parallel lanes whose distance from the best one is chosen frame by frame around the beam; an
    acoustic score per lane steers it, entry arcs are emitting or epsilon, words cost or earn in the LM"""
    k = rng.choice([2, 2, 3, 4])
    n = rng.choice([1, 2, 2, 3, 5])
    words = k
    b = None
    delta = [0] * (k + 1)
    if lm:
        big = [rng.randrange(0, 700) for _ in range(k + 3)]
        small = [0] + [rng.choice([rng.randrange(0, 700), rng.randrange(0, 1600)]) for _ in range(k + 2)]
        eos, bos = k + 1, k + 2
        arcs = [[[x, 0, big[x], x] for x in range(1, k + 1)] + [[eos, 0, big[eos], eos], [bos, 0, 0, bos]]]
        b = {"start": 0, "arcs": arcs, "fin": [0], "small": small, "bos": bos, "eos": eos}
        delta = [0] + [big[x] - small[x] for x in range(1, k + 1)]
    order = list(range(1, k + 1))
    rng.shuffle(order)
    at = {x: i + 1 for i, x in enumerate(order)}       # lane -> state
    arcs = [[] for _ in range(k + 1)]
    cur, loop, hot = {}, {}, rng.random() < .5
    for x in order:
        e = rng.choice(GAPS)
        w = x if rng.random() < .8 else 0
        eps = rng.random() < .4
        arcs[0].append([0 if eps else x, at[x], e, w])
        cur[x] = e + (delta[w] if eps or not hot else 0)
        loop[x] = x if rng.random() < (.4 if lm else .15) else 0
        arcs[at[x]].append([x, at[x], 0, loop[x]])
        if eps:
            cur[x] = e + delta[w]
    # an epsilon link between lanes
    if rng.random() < .3 and k > 2:
        arcs[at[order[0]]].append([0, at[order[1]], rng.choice(GAPS), 0])
    rng.shuffle(arcs[0])
    frames = []
    for t in range(n):
        want = {x: rng.choice(GAPS) for x in order}
        m = min(want.values())
        base = rng.randrange(0, 200)
        f = [0] * (k + 1)
        for x in order:
            # after this frame lane x shall cost base + want - m
            pay = base + want[x] - m - cur[x]
            f[x] = -pay if rng.random() < .85 else -rng.randrange(0, 1500)
            cur[x] = cur[x] - f[x] + (delta[loop[x]] if rng.random() < .5 else 0)
        low = min(cur.values())
        frames.append(f)
        cur = {x: c - low for x, c in cur.items()}
    g = {"start": 0, "arcs": arcs, "fin": [INF] + [rng.choice([0, 0, rng.randrange(0, 1200)]) for _ in range(k)]}
    return decgen.lines(g, list(range(k + 1)), 2, frames, lm=b)


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "MCViterbi", workers=8, timeout=850, consts={"Depth": 2, "Family": ctx.pick(1, 2), "Beam": ctx.pick(3, 2)})
    exe = vlib.build(ctx, "h_dec", ["h_dec.cc"], **decgen.SRC)
    corr = vlib.num_corruptor(["best", "frame"], ["w", "c", "ok", "n"])
    rs = []
    for _ in range(ctx.pick(350, 5000)):
        npdf = rng.choice([2, 3, 4])
        wide = rng.random() < .6
        g, mp = decgen.random_graph(rng, npdf=npdf, wmax=rng.choice([60, 600, 1100]), eps=rng.choice([0, .3]),
                                    dens=rng.choice([2, 3]), words=3, n=rng.choice([2, 3, 4, 5]))
        if wide:
            # long chains that only pay later
            for q in g["arcs"]:
                for a in q:
                    if a[0] and rng.random() < .3:
                        a[2] = rng.choice([0, 0, 1000, 1020, 1024, 1025, 1030, 512])
        fr = decgen.random_frames(rng, npdf, rng.choice([2, 4, 6, 9]), 2, rng.choice([-600, -1100, -1500]), 1)
        rs.append(decgen.lines(g, mp, 2, fr, const=rng.random() < .2))
    vlib.conform(ctx, exe, "ViterbiTrace", rs, "beam", corrupt=corr)
    ls = [lanes(rng, i % 2 == 1) for i in range(ctx.pick(1600, 20000))]
    vlib.conform(ctx, exe, "ViterbiTrace", ls, "lanes", corrupt=corr)
    fs = []
    for total in [300, 5000, 29000, 29998, 30050, 40000] * ctx.pick(2, 30):
        fs.append(fan(rng, total))
        fs.append(late(rng, total))
        fs.append(overtake(rng, min(total, 29990), rng.choice([100, 900, 1023])))
    vlib.conform(ctx, exe, "ViterbiTrace", fs, "fan", timeout=120)
