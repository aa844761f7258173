import vlib

ASSUMPTIONS = ["32-bit samples are drawn with at most 24 significant bits (the engine stores samples as float)"]


def to_script(beh, rng):
    s = []
    for e in beh:
        if e[0] == "fmt":
            s.append("fmt %d %d %d" % tuple(e[1:]))
        elif e[0] == "feed":
            s.append("feed " + " ".join(map(str, e[1])))
        elif e[0] == "bad":
            s.append("bad %d" % rng.randrange(3))
        else:
            s.append("reset")
    return s


def random_script(rng, n):
    bits = rng.choice([8, 16, 32]) if n < 50000 else rng.choice([8, 16, 16])
    s = []
    if rng.random() < .3:
        s.append("feed 1 2 3")
    if rng.random() < .3:
        s.append("fmt %d %d %d" % rng.choice([(2, 16000, 16), (1, 8000, 16), (1, 16000, 24), (1, 16000, 0),
                                              (0, 16000, 16), (1, 16001, 8), (1, 16000, 64), (1, -16000, 16),
                                              (1, 44100, 32), (1, 16000, 12), (1, 16000, -8)]))
        if rng.random() < .5:
            s.append("feed 1 2")
    s.append("fmt 1 16000 %d" % bits)
    data = []
    for _ in range(n):
        if bits == 32:
            v = rng.choice([rng.randrange(-2**23, 2**23) << rng.randrange(0, 9), -2**31, 2**31 - 256,
                            rng.randrange(-3, 4), rng.randrange(-128, 128) << 24])
        else:
            v = rng.choice([rng.randrange(-2**(bits - 1), 2**(bits - 1)), -2**(bits - 1), 2**(bits - 1) - 1, -1, 0])
        data += list((v & (2**bits - 1)).to_bytes(bits // 8, "little"))
    data += [7] * rng.randrange(0, bits // 8)
    i = 0
    mode = rng.choice(["one", "small", "mid", "big", "whole"] if n < 1000 else ["mid", "big", "whole"] if n < 50000 else ["whole"])
    while i < len(data):
        k = {"one": 1, "small": rng.randrange(1, 6), "mid": rng.randrange(1, max(40, len(data) // 60)), "big": rng.randrange(1, max(300, len(data) // 3)),
             "whole": len(data)}[mode]
        s.append("feed " + " ".join(map(str, data[i:i + k])))
        i += k
        r = rng.random()
        if r < .05:
            s.append("bad %d" % rng.randrange(3))
        elif r < .07 and i % (bits // 8) == 0:
            s.append("fmt 2 16000 16")         # refused, must change nothing
    s.append("reset")
    if rng.random() < .5:
        s.append("feed 255 255 255 255")
        s.append("reset")
    if rng.random() < .5:
        b2 = rng.choice([8, 16, 32])
        s.append("fmt 1 16000 %d" % b2)
        s.append("feed 1 0 255 255 0 0 128")
    return s


def check(ctx):
    vlib.model(ctx, "MCPcm", consts={"Depth": ctx.pick(5, 6), "Bytes": "{0, 127, 128}"}, workers=8)
    beh = vlib.model(ctx, "MCPcm", consts={"Depth": ctx.pick(4, 5), "Bytes": "{0, 255}", "MaxChunk": 2,
                                           "DoPrint": "TRUE"}, collect="BEH")
    if len(beh) > ctx.pick(9000, 60000):
        beh = ctx.rng.sample(beh, ctx.pick(9000, 60000))
    exe = vlib.build(ctx, "h_pcm", ["h_pcm.cc", "stub_api.cc"], core=["pcm_reader", "util", "vector", "strlcpy"])
    scripts = [to_script(b, ctx.rng) for b in beh]
    # several behaviours per child process: join them with reset + new reader = separate scripts
    corr = vlib.num_corruptor(["feed", "fmt", "bad"], ["ok", "out"])
    vlib.conform(ctx, exe, "PcmTrace", scripts, "enumerated", corrupt=corr)
    rs = [random_script(ctx.rng, ctx.rng.randrange(0, 120) if i % 25 else ctx.rng.choice([1500, 4000, 9000])) for i in range(ctx.pick(300, 5000))]
    rs += [random_script(ctx.rng, n) for n in [33000, 70000] + ctx.pick([], [140000, 300000])]
    vlib.conform(ctx, exe, "PcmTrace", rs, "random", corrupt=corr)
    # megabytes in one call
    bs = []
    for size in [70001, 131072, 524290, 1048577, 2097153, 3000001, 4194305, 8388612, 16777221] + ctx.pick([], [33554437, 67108867]):
        for bits in (8, 16, 32):
            per = [ctx.rng.choice([0, 255, 128, 127, 1, ctx.rng.randrange(256)]) for _ in range(ctx.rng.choice([4, 12, 20, 28]))]
            if bits == 32:
                per = [0 if i % 4 == 0 else x for i, x in enumerate(per)]
            s = ["fmt 1 16000 %d" % bits] + ["feed " + " ".join(["0", "9", "9", "9"][:bits // 8])] * ctx.rng.randrange(2)
            s += ["bulk %d %s" % (size, " ".join(map(str, per)))]
            s += ["feed " + " ".join(str(ctx.rng.randrange(256)) for _ in range(3 * bits // 8 - size % (bits // 8))) if bits < 32 else "reset"] * 2
            s += ["feed 0 1 2 3", "reset"]
            bs.append(s)
    vlib.conform(ctx, exe, "PcmTrace", bs, "large calls", corrupt=vlib.num_corruptor(["bulk"], ["n", "head"]))
