import math
import vlib

ASSUMPTIONS = ["transforms are compared on every basis vector and on dense integer vectors, to 2^-17 of the absolute sum of the input; energies to 1/32 plus the rounding of the integer specification",
               "quantised products on matrices of integers of at most 300"]


def basis(rng, n, d):
    ps = list(range(n))
    return ["fft %d %s 1 %d %d" % (n, d, p, rng.choice([1, -1, 1, 2, -5])) for p in ps]


def dense(rng, n, d):
    k = rng.choice([2, 5, n])
    if k < n:
        v = [(rng.randrange(n), rng.randint(-9, 9)) for _ in range(k)]
        return "fft %d %s 1 %s" % (n, d, " ".join("%d %d" % x for x in v))
    m = rng.choice([1, 9, 60])
    return "fft %d %s 0 %s" % (n, d, " ".join("%d %d" % (i, rng.randint(-m, m)) for i in range(n)))


def window(rng, kind=None):
    kind = kind or rng.choice(["white", "pink", "pink", "tones", "chirp", "burst", "ramp"])
    amp = rng.choice([30, 100, 400])
    n = 400
    if kind == "white":
        return [rng.randint(-amp, amp) for _ in range(n)]
    if kind == "pink":
        x, y = [], 0.0
        for _ in range(n):
            y = 0.97 * y + rng.uniform(-amp, amp)
            x.append(int(y))
        return x
    if kind == "tones":
        fs = [(rng.uniform(0.01, 3.1), rng.uniform(0, 6), rng.uniform(.05, 1)) for _ in range(rng.randint(1, 4))]
        return [int(amp * sum(a * math.sin(w * i + p) for w, p, a in fs) + rng.uniform(-2, 2)) for i in range(n)]
    if kind == "chirp":
        r = rng.uniform(.0005, .004)
        return [int(amp * math.sin(r * i * i)) + rng.randint(-1, 1) for i in range(n)]
    if kind == "burst":
        a = rng.randrange(n - 20)
        return [rng.randint(-amp, amp) if a <= i < a + 20 else rng.randint(-1, 1) for i in range(n)]
    return [i % rng.choice([37, 50]) + rng.randint(0, 2) for i in range(n)]


def shift(x):
    m = sum(x) / len(x)
    d = [v - m for v in x]
    p = [abs(40000 * (d[i] - .97 * d[max(0, i - 1)])) for i in range(len(x))]
    return max(1, int(max(p) / 60000) + 1)


def matrix(rng, r, c):
    kind = rng.choice(["grid", "grid", "any", "any", "const", "zero", "offset", "sparse"])
    if kind == "grid":
        k = rng.choice([1, 1, 2])
        z = rng.choice([0, 255, 128, 127, 1, 254, rng.randint(0, 255)])
        lv = [rng.choice([0, 255, z, z, rng.randint(0, 255)]) for _ in range(r * c)]
        i, j = rng.sample(range(r * c), 2)
        lv[i], lv[j] = 0, 255
        v = [k * (q - z) for q in lv]
    elif kind == "const":
        v = [rng.choice([1, -1, 255, -255, 3, 100])] * (r * c)
    elif kind == "zero":
        v = [0] * (r * c)
    elif kind == "offset":
        o, w = rng.choice([(rng.randint(-200, 200), 100), (rng.randint(250, 290), rng.randint(1, 3)), (rng.randint(-290, -250), rng.randint(1, 3))])
        v = [o + rng.randint(0, w) for _ in range(r * c)]
        v[0], v[1] = o, o + w
    elif kind == "sparse":
        v = [rng.choice([0, 0, 0, rng.randint(-100, 100)]) for _ in range(r * c)]
    else:
        m = rng.choice([1, 10, 100, 300])
        v = [rng.randint(-m, m) for _ in range(r * c)]
    return " ".join(map(str, v))


def quant(rng):
    m, k, n = rng.choice([(1, 2, 2), (2, 1, 3), (3, 3, 3), (rng.randint(1, 9), rng.randint(2, 9), rng.randint(1, 9)), (rng.randint(1, 20), rng.randint(2, 25), rng.randint(1, 17))])
    if m * k < 2 or k * n < 2:
        m, k, n = 2, 2, 2
    return "quant %d %d %d %s %s" % (m, k, n, matrix(rng, m, k), matrix(rng, k, n))


def corrupt_fft(evs, rng):
    c = [e for e in evs if e["op"] == "fft" and sum(abs(v) for _, v in e["x"]) <= 10]
    if not c:
        return None
    e = rng.choice(c)
    e["y"][rng.randrange(e["n"])] += rng.choice([-1, 1]) * (16384 if e["fine"] else 64)
    return evs


def corrupt_scale(evs, rng):
    c = [(e, i) for e in evs if e["op"] == "scale" for i in range(40) if min(e["a"][i], e["b"][i]) > -150000]
    if not c:
        return None
    e, i = rng.choice(c)
    e["b"][i] += rng.choice([-60, 60])
    return evs


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "MCSpectrum", workers=8)
    exe = vlib.build(ctx, "h_num", ["h_num.cc"], core=["fbank", "srfft", "matrix", "vector", "util"], gemm=True, opt="-O2")
    scripts = []
    # every basis vector of every size, both directions
    for n in [4, 8, 16, 32, 64, 128, 256, 512, 1024]:
        for d in "fb":
            b = basis(rng, n, d)
            if n == 1024 and not ctx.thorough:
                b = rng.sample(b, 128)
            scripts += [b[i:i + 32] for i in range(0, len(b), 32)]
    for _ in range(ctx.pick(40, 600)):
        s = []
        for _ in range(6):
            n = rng.choice([4, 8, 16, 32, 64, 64, 128, 128, 256])
            s.append(dense(rng, n, rng.choice("fb")))
        scripts.append(s)
    scripts += [[dense(rng, 512, d)] for d in "fb" for _ in range(ctx.pick(2, 10))]
    vlib.conform(ctx, exe, "SpectrumTrace", scripts, "fft", corrupt=corrupt_fft, timeout=60)
    scripts = []
    for _ in range(ctx.pick(48, 600)):
        x = window(rng)
        scripts.append(["frame %d %s" % (shift(x), " ".join(map(str, x)))])
    vlib.conform(ctx, exe, "SpectrumTrace", scripts, "features", timeout=60)
    scripts = []
    for _ in range(ctx.pick(60, 600)):
        s = []
        for _ in range(5):
            x = window(rng) if rng.random() < .8 else [rng.choice([0, 1, -7, 1000, 32767, -32768])] * 400
            s.append("scale %d %s" % (rng.choice([1, -1, 3, 5, 7, 10, 15, -5, -10, -14, -15, -20]), " ".join(map(str, x))))
        s += [quant(rng) for _ in range(12)]
        scripts.append(s)
    vlib.conform(ctx, exe, "SpectrumTrace", scripts, "scale-quant", corrupt=corrupt_scale, timeout=60)
