import vlib

ASSUMPTIONS = ["integer features and global means (window sums exact in float); outputs compared to 1/512"]


def script(rng, n, period=None):
    hi = rng.choice([5, 30, 100])
    row = lambda: " ".join(str(rng.randint(-hi, hi)) for _ in range(40))
    s = ["load %d %d" % (n, rng.choice([1, 100, 200, 64, 12345])), "gm " + row()]
    s += ["row " + row() for _ in range(period or rng.choice([1, 2, 7, 13]))]
    ks = set(k for k in (1, 2, 150, 200, 300, 399, 400, 401, 599, 600, 601, n - 1, rng.randint(1, n)) if 1 <= k <= n and rng.random() < .3)
    s += ["spike %d %d" % (k, rng.choice([1000, -1000, 700])) for k in sorted(ks)]
    return s + ["go", "run %d" % n]


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "MCCmvn", workers=8, timeout=800, consts={"MaxT": ctx.pick(7, 9)})
    exe = vlib.build(ctx, "h_cmvn", ["h_cmvn.cc"], core=["cmvn", "matrix", "vector", "util"], gemm=True)
    scripts = [script(rng, n) for n in ctx.pick([1, 2, 3, 50, 201, 399, 402, 603, 900, 1300, 700, 650, 2200, 5000], [1, 2, 5] + list(range(350, 1500, 23)) + [5000, 9000, 34000])]
    scripts.append(script(rng, 20) + script(rng, 30))
    vlib.conform(ctx, exe, "CmvnTrace", scripts, "windows", corrupt=lambda evs, r: corrupt(evs, r), timeout=200)


def corrupt(evs, rng):
    fr = [e for e in evs if e["op"] == "frame"]
    if not fr:
        return None
    e = rng.choice(fr)
    e["y"][rng.randrange(40)] += rng.choice([5, -5, 100])
    return evs
