import vlib, apigen
from props import p19, p20

ASSUMPTIONS = ["memory = what malloc and its relatives hand out; allocations made once per process are excluded by playing every script once before counting",
               "memory of OpenBLAS threads is not counted (one thread)"]


def steady(rng, frames, words):
    """a graph whose set of active hypotheses settles; words: none, on arcs that lose, on the winning loop; or hypotheses that are pruned all the time"""
    K = rng.choice([2, 5, 12])
    arcs = [[] for _ in range(K + 1)]
    arcs[0].append([1, 0, 0, 1 if words == "best" else 0])
    for k in range(1, K + 1):
        arcs[0].append([1, k, rng.randrange(1, 20), 0 if words == "none" else rng.choice([1, 2])])
        arcs[k].append([1, rng.choice([0, k]), rng.randrange(20, 40), 0])
        if rng.random() < .4 and k < K:
            arcs[k].append([0, k + 1, rng.randrange(5), 0 if words == "none" else rng.choice([0, 2])])
    if words == "pruned":
        # A=1, Y=2, B=3: every frame brings hypotheses X that the next frame finds outside the beam
        X = rng.choice([4, 8, 12])
        x = [[1, 4 + k, rng.randrange(98, 103), 0] for k in range(X)]
        arcs = [[[1, 1, 0, 0], [1, 2, 10, 0]], x + [[1, 3, 40, 0]], [[1, 1, 0, 0]], [[1, 2, 0, 0]]] + [[[1, 4 + k, 70, 0]] for k in range(X)]
    if words == "worse":
        # words only on hypotheses that are replaced at once: none of the active ones ever has a word
        arcs = [rng.sample([[1, 0, 0, 0]] + [[1, 0, rng.randrange(1, 9), rng.choice([1, 2])] for k in range(K)], K + 1)]
    if words == "lm":
        # the large LM makes every word so expensive that its hypothesis is outside the beam in the next frame; words it does not know
        arcs = [[[1, 0, 2, 0]] + [[1, k, rng.randrange(8), rng.choice([1, 2])] for k in range(1, K + 1)]] + [[[1, k, 3, 0]] for k in range(1, K + 1)]
    m = ["m", "g 0"] + ["st %d %d %s" % (rng.randrange(5), len(a), " ".join("%d %d %d %d" % tuple(x) for x in a)) for a in arcs]
    m += ["map 0 0"]
    if words == "lm":
        miss = rng.random() < .3
        m += ["lm 0 4 3", "lst inf %d 1 0 100 1 %s3 0 0 3 4 %d 0 4" % ((3, "", rng.choice([0, 1])) if miss else (4, "2 1 90 2 ", rng.choice([0, 1]))), "lst 1 2 0 0 2 0 1 1 80 1", "sm 0 1 1 1 1"]
    elif words not in ("pruned", "worse") and rng.random() < .3:
        m += ["lm 0 4 3", "lst inf 4 1 0 1 1 2 1 2 2 3 0 0 3 4 0 0 4", "lst 1 2 0 0 2 0 1 1 1 1", "sm 0 1 1 1 1"]
    m += ["sym %d %s" % (i, p19.hx(w)) for i, w in enumerate(["<eps>", "a", "b", "</s>", "<s>"])]
    L, R = rng.choice([(0, 0), (1, 1), (2, 0)])
    m += ["ctx %d %d %d" % (L, R, rng.choice([1, 7, 20, 50]))]
    m += ["tab 0"] * 2 ** (L + R + 1)
    w = rng.choice([1, 2, 4])
    n = frames * 160 + 400
    s = m + ["load 1", "audio 1 %d %d 1 %d" % (w, rng.randrange(10 ** 6), n), "uinit 1 1 1 1 16000 %d" % (8 * w)]
    c = rng.choice([1600, 3210, 16000]) * w
    s += ["proc 1 %d" % (c * 10)] * 2 + ["proc 1 %d" % c] * ((400 * 160 * w) // c + 1)
    s += ["flat 1 %d %d" % ((20000, 0) if words != "best" else (900000, 400))]
    s += ["proc 1 %d" % (c * 10)] * ((n * w) // (c * 10) + 1)
    return s + ["eos 1", "udel 1", "rdel 1"]


def corrupt(evs, rng):
    """loses a block: only where the account is closed"""
    c = [i for i, e in enumerate(evs) if e["op"] in ("udel", "rdel")]
    if not c:
        return None
    evs[rng.choice(c)]["d"][rng.randrange(2)] += rng.choice([1, 16, -8])
    return evs


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "LoaderImpl", workers=8, timeout=800, consts={"MaxFaults": ctx.pick(1, 2)})
    exe = vlib.build(ctx, "h_api_h", ["h_api.cc"], opt="-O2", san=None, extra=["-DCOUNT_HEAP"], **apigen.SRC)
    scripts = [p19.trials(rng, ctx.thorough) for _ in range(ctx.pick(120, 1500))]
    vlib.conform(ctx, exe, "LedgerTrace", scripts, "failed-init", timeout=60, corrupt=corrupt)
    scripts = [p19.life(ctx, rng) for _ in range(ctx.pick(150, 2000))]
    scripts += [p20.sequential(ctx, rng) for _ in range(ctx.pick(100, 1500))]
    vlib.conform(ctx, exe, "LedgerTrace", scripts, "ownership", corrupt=corrupt, timeout=60)
    scripts = [steady(rng, ctx.pick(9000, 60000), w) for w in ("none", "lose", "best", "pruned", "worse", "lm") for _ in range(ctx.pick(8, 30))]
    vlib.conform(ctx, exe, "LedgerTrace", scripts, "steady", corrupt=corrupt, timeout=200)
