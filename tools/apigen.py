"""Models and audio for the C API harness (units of 1/4, beam = 64 units)."""
import decgen
INF = decgen.INF
NAMES = ["hello", "a", "b", "wo", "\xe4\xb8\xad".encode("latin1").decode("latin1"), "word-5", "x" * 40, "Z", "q'r", "7"]


def hx(s):
    return s.encode("latin1").hex()


def model(rng, lm=False, neg=False, words=None, states=None, chain=False, ctx=None):
    words = words or rng.choice([1, 2, 3, 5])
    npdf = rng.choice([1, 2, 3, 4])
    L, R, chunk = ctx or (rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 1]), rng.choice([1, 1, 2, 3, 5, 7, 19, 20, 21, 50]))
    n = states or rng.choice([1, 2, 3, 4])
    mp = [0] + [rng.randrange(npdf) for _ in range(npdf + 1)]
    if chain:
        # a long chain with words: the hypothesis tells the number of frames
        n = chain
        arcs = [[[1 + q % npdf if npdf > 1 else 1, (q + 1) % n, 0, 1 + (q * 7 % words) if q % 3 != 1 else 0]] for q in range(n)]
        fin = [rng.choice([0, 0, 1, 5]) for _ in range(n)]
        g = {"start": 0, "arcs": arcs, "fin": fin}
    else:
        arcs = []
        for q in range(n):
            a = [[rng.randint(1, npdf + 1), rng.randrange(n), rng.randrange(0, 8), rng.choice([0, rng.randint(1, words)])] for _ in range(rng.randint(1, 3))]
            if rng.random() < .3 and q + 1 < n:
                a.append([0, rng.randrange(q + 1, n), rng.randrange(0, 6), rng.choice([0, rng.randint(1, words)]) if not lm else 0])
            arcs.append(a)
        fin = [INF if rng.random() < .3 else rng.randrange(0, 8) for _ in range(n)]
        g = {"start": rng.randrange(n), "arcs": arcs, "fin": fin}
    tab = [[-rng.randrange(0, 9) for _ in range(npdf)] for _ in range(2 ** (L + R + 1))]
    out = ["m", "g %d" % g["start"]]
    for f, a in zip(g["fin"], g["arcs"]):
        out.append("st %s %d %s" % ("inf" if f == INF else f, len(a), " ".join("%d %d %d %d" % tuple(x) for x in a)))
    out.append("map " + " ".join(map(str, mp)))
    bos, eos = words + 2, words + 1
    b = None
    if lm:
        b = decgen.random_lm(rng, words, wmax=8)
        bos, eos = b["bos"], b["eos"]
        out.append("lm %d %d %d" % (b["start"], bos, eos))
        b["arcs"] = [[[x[0], x[1], max(x[2], -2), x[3]] for x in a] for a in b["arcs"]]
        for f, a in zip(b["fin"], b["arcs"]):
            a = [[x[0], x[1], max(x[2], -2), x[3]] for x in a]
            out.append("lst %s %d %s" % ("inf" if f == INF else f, len(a), " ".join("%d %d %d %d" % tuple(x) for x in a)))
        out.append("sm " + " ".join(map(str, b["small"])))
    names = rng.sample(NAMES, words) if words <= len(NAMES) else list(NAMES)
    if rng.random() < .06:
        names[rng.randrange(words)] = rng.choice("abz") * rng.choice([255, 256, 700, 1500])
    syms = [(0, "<eps>")] + [(i + 1, names[i]) for i in range(words)] + [(eos, "</s>"), (bos, "<s>")]
    rng.shuffle(syms)
    out += ["sym %d %s" % (i, hx(s)) for i, s in syms]
    out.append("ctx %d %d %d" % (L, R, chunk))
    out += ["tab " + " ".join(map(str, t)) for t in tab]
    return out, dict(g=g, mp=mp, tab=tab, L=L, R=R, chunk=chunk, lm=lm, npdf=npdf, lmdef=b)


def loud(blocks, i):
    pos = 0
    for lvl, n in blocks:
        if lvl and pos < 160 * i + 400 and pos + n > 160 * i:
            return True
        pos += n
    return False


def frames_of(m, blocks):
    n = sum(b[1] for b in blocks)
    F = 0 if n < 400 else 1 + (n - 400) // 160
    out = []
    for t in range(F):
        p = 0
        for k in range(m["L"] + m["R"] + 1):
            j = min(max(t - m["L"] + k, 0), F - 1)
            if loud(blocks, j):
                p |= 1 << k
        out.append(m["tab"][p])
    return out


def audio(rng, total=None):
    """blocks of silence and noise; boundaries at 80 modulo 160 so that every frame is clearly one or the other"""
    total = total if total is not None else rng.choice([0, 1, 100, 399, 400, 401, 559, 560, 800, rng.randint(400, 4000), rng.randint(2000, 8500), rng.randint(6000, 12000)])
    cuts = sorted(set(160 * rng.randrange(0, total // 160 + 1) + 80 for _ in range(rng.choice([0, 1, 3, 6, 12]))))
    cuts = [c for c in cuts if c < total]
    blocks, pos, lvl = [], 0, rng.randrange(2)
    for c in cuts + [total]:
        blocks.append((lvl, c - pos))
        pos, lvl = c, 1 - lvl
    return blocks, total


def chunks(rng, n):
    kind = rng.choice(["one", "small", "kb", "edge", "mixed", "mixed", "odd"])
    out = []
    while n > 0:
        c = {"one": lambda: n, "small": lambda: rng.randint(50, 900), "kb": lambda: 1024, "edge": lambda: rng.choice([799, 800, 801, 319, 320, 321, 640, 1, 2, 3]),
             "mixed": lambda: rng.choice([1, 2, 3, 5, 80, 160, 320, 1000, 5000, 20000]), "odd": lambda: rng.choice([333, 777, 1001])}[kind]()
        c = min(c, n)
        out.append(c)
        n -= c
    return out


def ok_ties(m, blocks, cap=30):
    """keep the validation cheap: few equally good word sequences"""
    return decgen.ties(m["g"], m["mp"], 2, frames_of(m, blocks), cap, lm=m["lmdef"]) <= cap


SRC = dict(core=["util", "fst", "matrix", "pcm_reader", "decoder", "srfft", "fbank", "strlcpy", "nnet", "am", "vector", "symbol_table", "ce_stt", "hashtable",
                 "configuration", "cmvn"], openfst=True, gemm=True)
