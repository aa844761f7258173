import vlib, nngen

ASSUMPTIONS = ["exact layers on integers below 2^24; Normalize / Softmax / LogSoftmax to 1/512, 2^-9 and 1/300 relative accuracy"]


def vals(rng, n, lo=-20, hi=20):
    return [rng.choice([0, 1, -1, rng.randint(lo, hi), rng.randint(lo, hi)]) for _ in range(n)]


def one(rng, t, big):
    rows, cols = rng.randint(1, big), rng.randint(1, big)
    if t == "linear":
        return nngen.linear(rng, cols, rng.randint(1, big), 9), rows, cols
    if t == "bn":
        return nngen.batchnorm(rng, cols), rows, cols
    if t == "splice":
        return nngen.splice(rng, rng.randint(0, 5), rng.randint(0, 5)), rows, cols
    if t == "narrow":
        return ("narrow", rng.randint(0, 3), rng.randint(0, 3)), rows, cols
    return (t,), rows, cols


def prop(rng, rows, cols, last):
    s = []
    if rng.random() < .5:
        s.append("out %d %d" % ((rows, cols) if rng.random() < .5 else (rng.randint(1, 6), rng.randint(1, 6))))
    x = []
    for _ in range(rows):
        r = vals(rng, cols, *((-7, 7) if last in ("softmax", "logsoftmax") else (-20, 20)))
        if last == "norm" and not any(r):
            r[rng.randrange(cols)] = rng.choice([1, -3])
        if last in ("softmax", "logsoftmax") and rng.random() < .3:
            k = rng.choice([80, 100, -100, 300, -90])
            r = [v + k for v in r]
        if last in ("softmax", "logsoftmax") and rng.random() < .3:
            k = rng.choice([90, 100, 150, 300])           # some columns far above the others
            r = [v + k * (rng.random() < .4) for v in r]
        x += r
    return s + ["x %d %d %s" % (rows, cols, " ".join(map(str, x)))]


TYPES = ["linear", "relu", "splice", "narrow", "bn", "norm", "softmax", "logsoftmax"]


def corrupt(evs, rng):
    """one output cell of an exact network"""
    net, c = None, []
    for i, e in enumerate(evs):
        if e["op"] == "net":
            net = e["ls"][-1]["t"]
        elif e["op"] == "prop" and net not in ("norm", "softmax", "logsoftmax"):
            c.append(i)
    if not c:
        return None
    y = evs[rng.choice(c)]["y"]
    r = rng.choice(y)
    r[rng.randrange(len(r))] += rng.choice([1, -1, 3])
    return evs


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "BatchImpl", consts={"MaxT": 3, "FrameVals": "{0, 1}"}, workers=8, timeout=800)
    exe = vlib.build(ctx, "h_nn", ["h_nn.cc"], **nngen.SRC)
    scripts = []
    for _ in range(ctx.pick(160, 2500)):
        s = []
        for _ in range(3):
            t = rng.choice(TYPES)
            l, rows, cols = one(rng, t, rng.choice([3, 5, 9, 17]))
            s += ["clear", nngen.lay(l), rng.choice(["net class", "net file %d %d" % (rng.randint(0, 9), rng.randint(0, 9))])]
            for _ in range(3):
                s += prop(rng, rows if rng.random() < .3 else rng.randint(1, 7), cols, t)
        scripts.append(s)
    # large
    for t in TYPES * ctx.pick(1, 8):
        if t == "linear":
            rows, cols = rng.choice([1, 9, 40]), rng.choice([64, 120, 257])
            l = nngen.linear(rng, cols, rng.choice([33, 90]), 9)
        else:
            l, _, _ = one(rng, t, 5)
            rows, cols = rng.choice([30, 100, 300]), rng.choice([20, 64, 130])
            if t == "bn":
                l = nngen.batchnorm(rng, cols)
        scripts.append(["clear", nngen.lay(l), "net class"] + prop(rng, rows, cols, t) + prop(rng, 2, cols, t))
    # stacks
    for _ in range(ctx.pick(120, 2000)):
        s = []
        for _ in range(2):
            d0 = d = rng.randint(1, 4)
            ls, grow = [], 1
            for _ in range(rng.randint(2, 6)):
                t = rng.choice(["linear", "relu", "splice", "narrow", "bn"])
                if t == "linear":
                    o = rng.randint(1, 4)
                    ls.append(nngen.linear(rng, d, o, 2))
                    grow *= 2 * d
                    d = o
                elif t == "bn":
                    ls.append(nngen.batchnorm(rng, d))
                    grow *= 2
                elif t == "splice" and d < 9:
                    l = nngen.splice(rng)
                    ls.append(l)
                    d *= len(l[1])
                elif t == "narrow":
                    ls.append(("narrow", rng.randint(0, 2), rng.randint(0, 2)))
                else:
                    ls.append(("relu",))
                if grow > 20000:
                    break
            s.append("clear")
            s += [nngen.lay(l) for l in ls] + ["net file %d %d" % (rng.randint(0, 20), rng.randint(0, 20))]
            for _ in range(3):
                s += prop(rng, rng.randint(1, 8), d0, "linear")
        scripts.append(s)
    vlib.conform(ctx, exe, "LayersTrace", scripts, "layers", corrupt=corrupt, timeout=20)
