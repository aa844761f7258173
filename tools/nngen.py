"""Random networks for the harnesses: a layer is a tuple, see lay()."""
SRC = dict(core=["nnet", "am", "matrix", "vector", "util", "configuration"], gemm=True)


def lay(l):
    t = l[0]
    j = lambda v: " ".join(map(str, v))
    if t == "linear":
        return "lay linear %d %d %s %s" % (len(l[1]), len(l[2]), " ".join(j(r) for r in l[1]), j(l[2]))
    if t == "bn":
        return "lay bn %d %s %s" % (len(l[1]), j(l[1]), j(l[2]))
    if t == "splice":
        return "lay splice " + j(l[1])
    if t == "narrow":
        return "lay narrow %d %d" % l[1:]
    return "lay " + t


def linear(rng, i, o, m=3):
    return ("linear", [[rng.choice([0, 1, -1, rng.randint(-m, m)]) for _ in range(o)] for _ in range(i)],
            [rng.randint(-9, 9) for _ in range(o)])


def batchnorm(rng, n):
    return ("bn", [rng.choice([1, 1, -1, 2, 0]) for _ in range(n)], [rng.randint(-9, 9) for _ in range(n)])


def splice(rng, a=3, b=3):
    ix = sorted(rng.sample(range(-a, b + 1), rng.randint(1, min(4, a + b + 1))))
    if rng.random() < .3:
        rng.shuffle(ix)
    return ("splice", ix)


def scorer(rng, dim, npdf, stages=None, maxctx=3):
    """An acoustic network: Splice/Narrow stages whose edge rows are removed, returns layers, left, right."""
    ls, L, R, d = [], 0, 0, dim
    pend = [0, 0]
    late = rng.random() < .3
    mag = 20
    for _ in range(stages or rng.choice([1, 1, 2, 3])):
        if rng.random() < .8:
            a, b = rng.randint(0, maxctx), rng.randint(0, maxctx)
            ix = sorted(set([-a, b] + [rng.randint(-a, b) for _ in range(2)]))
            ls.append(("splice", ix))
            d *= len(ix)
            L, R, pend = L + a, R + b, [pend[0] + a, pend[1] + b]
        o = rng.choice([1, 2, 4])
        ls.append(linear(rng, d, o, 2))
        d = o
        if rng.random() < .5:
            ls.append(batchnorm(rng, d))
        if rng.random() < .6:
            ls.append(("relu",))
        if not late and pend != [0, 0]:
            ls.append(("narrow", pend[0], pend[1]))
            pend = [0, 0]
    ls.append(linear(rng, d, npdf, 2))
    if pend != [0, 0]:
        ls.append(("narrow", pend[0], pend[1]))
    return ls, L, R
