import vlib

ASSUMPTIONS = ["frames are compared through a 30-bit hash of their bytes; up to 4 instances at a time"]
SRC = dict(core=["fbank", "srfft", "matrix", "vector", "util"], gemm=True)


def chunks(rng, n):
    """a division of n samples"""
    kind = rng.choice(["small", "edge", "big", "mixed", "one", "shift"])
    out = []
    while n > 0:
        c = {"small": lambda: rng.randint(1, 90), "edge": lambda: rng.choice([1, 159, 160, 161, 239, 240, 241, 399, 400, 401, 560, 559]),
             "big": lambda: rng.randint(400, 5000), "one": lambda: n, "shift": lambda: 160,
             "mixed": lambda: rng.choice([0, 1, 5, 40, 159, 160, 400, 1000, 3])}[kind]()
        c = min(c, n)
        out.append(c)
        n -= c
    return out


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "FramingImpl", workers=8, timeout=800, consts={"MaxN": ctx.pick(12, 20), "MaxChunk": 7})
    vlib.model(ctx, "FramingImpl", workers=8, timeout=800, consts={"Shift": 3, "Length": 3, "MaxN": 11, "MaxChunk": 8})
    exe = vlib.build(ctx, "h_fbank", ["h_fbank.cc"], opt="-O2", **SRC)
    scripts = []
    for _ in range(ctx.pick(140, 1500)):
        n = rng.choice([0, 1, 399, 400, 401, 559, 560, 561, 720, rng.randint(400, 6000), rng.randint(400, 6000), rng.randint(400, 12000)])
        s = ["wave %d %d %d" % (n, rng.randrange(5), rng.randrange(10 ** 6))]
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice([1, 1, 2, 3, 4])
            q = {i: chunks(rng, n if rng.random() < .8 else rng.randint(0, n)) for i in range(1, k + 1)}
            s += ["start %d" % i for i in q]
            while any(q.values()):
                i = rng.choice([i for i in q if q[i]])
                s.append("feed %d %d" % (i, q[i].pop(0)))
                if rng.random() < .02:
                    s.append("feed %d 0" % i)
        scripts.append(s)
    # every first chunk around the frame boundary
    for a in range(395, 405):
        for b in (0, 1, 158, 159, 160, 161):
            scripts.append(["wave 1000 0 %d" % rng.randrange(1000), "start 1", "feed 1 %d" % a, "feed 1 %d" % b, "feed 1 1", "feed 1 300"])
    # very much audio in one call
    for _ in range(ctx.pick(10, 100)):
        n = rng.choice([20000, 50000, 90000, 170000, 330000, rng.randint(12000, 260000)])
        s = ["wave %d %d %d" % (n, rng.randrange(5), rng.randrange(10 ** 6)), "start 1"]
        a = rng.choice([0, 0, 1, 400, 1000, n // 2])
        for m in (a, n - a - 500, 500):
            s.append("feed 1 %d" % m)
        scripts.append(s)
    # minutes of audio in one call
    bulk = []
    for n in [16000 * 25, 16000 * 100, 2621440 + 77, 32767 * 160 + 400, 32769 * 160 + 400, 65537 * 160 + 401, 16777217] + ctx.pick([], [33554437, 131073 * 160]):
        bulk.append(["bulk %d %d %d %d" % (160 * rng.randint(3, 30), n, rng.choice([0, 0, 1, 399, 400, 1000]), rng.randrange(10 ** 6))])
    vlib.conform(ctx, exe, "FramingTrace", bulk, "minutes in one call", corrupt=vlib.num_corruptor(["bulk"], ["cnt", "head"]), timeout=120)
    vlib.conform(ctx, exe, "FramingTrace", scripts, "chunks", corrupt=vlib.num_corruptor(["feed"], ["y"]), timeout=60)
