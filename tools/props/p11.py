import vlib, nngen

ASSUMPTIONS = ["networks with integer weights (exact in float); contexts consistent with the network, chunk_size >= 1"]


def script(rng, T=None, dim=None, utts=None, ch=None):
    dim = dim or rng.randint(1, 3)
    npdf = rng.randint(1, 4)
    ls, L, R = nngen.scorer(rng, dim, npdf)
    ch = ch or rng.choice([1, 2, 3, 5, 8, 20])
    s = ["clear"] + [nngen.lay(l) for l in ls] + ["prior " + " ".join(str(-rng.randint(0, 9)) for _ in range(npdf)),
                                                  "am %d %d %d" % (L, R, ch)]
    for _ in range(utts or rng.choice([1, 2, 3])):
        s.append("inst 0")
        # lengths around the batch boundaries
        n = T if T is not None else rng.choice([0, 1, 2, R, R + 1, ch, ch + R - 1, ch + R, ch + R + 1, 2 * ch + R, rng.randint(0, 40)])
        for _ in range(max(0, n)):
            s.append("feed 0 " + " ".join(str(rng.choice([0, 1, rng.randint(-9, 9)])) for _ in range(dim)))
        if rng.random() < .9:
            s += ["end 0"] * rng.choice([1, 1, 1, 2, 3])
    return s


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "BatchImpl", consts={"MaxT": ctx.pick(5, 7), "MaxChunk": ctx.pick(3, 4)}, workers=8, timeout=850)
    vlib.model(ctx, "BatchImpl", consts={"MaxT": 3, "MaxChunk": 2, "ClearQueue": "FALSE"}, workers=8, expect_violation="Refines")
    exe = vlib.build(ctx, "h_nn", ["h_nn.cc"], **nngen.SRC)
    scripts = [script(rng) for _ in range(ctx.pick(250, 4000))]
    scripts += [script(rng, T=rng.randint(60, 200), utts=1) for _ in range(ctx.pick(10, 100))]
    for _ in range(ctx.pick(30, 300)):          # batches of the usual sizes and beyond
        ch = rng.choice([32, 50, 63, 64, 65, 100, 127, 128, 129, 150, 255, 256, 257, 300])
        scripts.append(script(rng, T=ch * rng.choice([1, 1, 1, 2]) + rng.choice([0, 1, 1, 2, 3, 4, 5, -1, -2]), utts=1, ch=ch, dim=rng.choice([1, 2])))
    vlib.conform(ctx, exe, "BatchTrace", scripts, "utterances", corrupt=vlib.num_corruptor(["feed", "end"], ["y"]), timeout=20)
