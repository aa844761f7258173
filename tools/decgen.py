"""Script generators for the decoder harness (units of 1/64; beam = 1024 units)."""
INF = 999999


def lines(g, mp, am2, frames, lm=None, const=False, every=1, passes=1, acts=None, reps=None, eos=True, tail_best=True, wide=None):
    s = ["g %d" % g["start"]]
    for f, arcs in zip(g["fin"], g["arcs"]):
        s.append("st %s %d %s" % ("inf" if f == INF else f, len(arcs), " ".join("%d %d %d %d" % tuple(a) for a in arcs)))
    s.append("map " + " ".join(map(str, mp)))
    s.append("am %d" % am2)
    for q, n in (reps or {}).items():
        s.append("rep %d %d" % (q, n))
    if wide:
        s.append("wide %d %d %d %d %d" % tuple(wide))
    if lm:
        s.append("lm %d %d %d" % (lm["start"], lm["bos"], lm["eos"]))
        for f, arcs in zip(lm["fin"], lm["arcs"]):
            s.append("lst %s %d %s" % ("inf" if f == INF else f, len(arcs), " ".join("%d %d %d %d" % tuple(a) for a in arcs)))
        s.append("sm " + " ".join(map(str, lm["small"])))
    s.append("load const" if const else "load")
    for _ in range(passes):
        s.append("init")
        s.append("best")
        for i, f in enumerate(frames):
            if acts:
                s.append("act %d" % acts[i])
            s.append("f " + " ".join(map(str, f)))
            if every and (i % every == every - 1):
                s.append("best")
        if eos:
            s.append("eos")
        if tail_best:
            s.append("best")
    return s


def random_wide(rng):
    """factors of the ids (h_dec: wide): ids beyond 2^15 and 2^16 which agree in their low
    bits, or (131101) states which share a bucket of the decoder's table"""
    return [rng.choice([1, 4096, 32768, 65536, 131101]), rng.choice([1, 32768, 65536]), rng.choice([1, 32768, 65536]),
            rng.choice([1, 32768, 65536]), rng.choice([1, 4096, 32768, 65536, 131101, 131101])]


def random_graph(rng, n=None, words=4, npdf=3, wmax=120, eps=.3, dens=2.5, neg=False, loops=True):
    n = n or rng.choice([1, 2, 3, 4, 6, 8])
    ntid = npdf + rng.randrange(0, 4)
    mp = [0] + [rng.randrange(npdf) for _ in range(ntid)]
    arcs = []
    for q in range(n):
        a = []
        for _ in range(max(0, int(rng.gauss(dens, 1) + .5))):
            ol = rng.choice([0, 0, rng.randint(1, words)])
            w = rng.randrange(0, wmax)
            if rng.random() < eps:
                t = rng.randrange(n)
                if t <= q:
                    w = w + 1 if loops else 0
                    if not loops:
                        continue
                elif neg and rng.random() < .3:
                    w = -rng.randrange(0, 30)
                if neg and t <= q:
                    continue
                a.append([0, t, w, ol])
            else:
                a.append([rng.randint(1, ntid), rng.randrange(n), w - (rng.randrange(0, 60) if neg else 0), ol])
        if loops and rng.random() < .5 and (ntid > 0):
            a.append([rng.randint(1, ntid), q, rng.randrange(0, wmax), 0])
        arcs.append(a)
    fin = [INF if rng.random() < .5 else rng.randrange(0, wmax) for _ in range(n)]
    if rng.random() < .1:
        fin = [INF] * n
    return {"start": rng.randrange(n), "arcs": arcs, "fin": fin}, mp


def lm_step(lm, s, x):
    """<next LM state, cost> of word x in LM state s (as BackoffLm.tla: DeltaArc)"""
    c, q = 0, s
    while True:
        a = next((a for a in lm["arcs"][q] if a[0] == x), None)
        if a:
            return a[1], c + a[2] - lm["small"][x]
        b = next((a for a in lm["arcs"][q] if a[0] == 0), None)
        if not b:
            return s, 0
        q, c = b[1], c + b[2]


def ties(g, mp, am2, frames, cap=40, lm=None):
    """Largest number of equally cheap word sequences of one state at any frame (stops counting at cap).
    Only used to keep generated scripts cheap to validate; it decides nothing."""
    def close(T):
        ch = set(T)
        while ch:
            nxt = {}
            for q in ch:
                c, w = T[q]
                for il, ns, wt, ol in g["arcs"][q[0]]:
                    if il == 0:
                        add(nxt, (ns, q[1]), c + wt, w, ol)
            ch = set()
            for q, (c, w) in nxt.items():
                if q not in T or c < T[q][0] or (c == T[q][0] and not w <= T[q][1]):
                    T[q] = (c, w if q not in T or c < T[q][0] else T[q][1] | w)
                    ch.add(q)
            if any(len(w) > cap for _, w in T.values()):
                break
        return T

    def add(T, q, c, w, ol):
        if ol and lm:
            m, k = lm_step(lm, q[1], ol)
            q, c = (q[0], m), c + k
        # word sequences by hash: the sequences themselves are not needed
        w = frozenset(hash((x, ol)) for x in w) if ol else w
        if q not in T or c < T[q][0]:
            T[q] = (c, w)
        elif c == T[q][0]:
            T[q] = (c, T[q][1] | w)

    m0 = 0
    if lm:
        a = next((a for a in lm["arcs"][lm["start"]] if a[0] == lm["bos"]), None)
        m0 = a[1] if a else lm["start"]
    T = close({(g["start"], m0): (0, frozenset([0]))})
    m = 1
    for f in frames:
        N = {}
        for q, (c, w) in T.items():
            for il, ns, wt, ol in g["arcs"][q[0]]:
                if il:
                    add(N, (ns, q[1]), c + wt - (am2 * f[mp[il]]) // 2, w, ol)
        T = close(N)
        m = max([m] + [len(w) for _, w in T.values()])
        if m > cap:
            return m
    return m


def random_frames(rng, npdf, n, am2, lo=-300, hi=40, even=True):
    out = []
    for _ in range(n):
        f = [rng.randrange(lo, hi) for _ in range(npdf)]
        if am2 == 1:
            f = [2 * (x // 2) for x in f]
        out.append(f)
    return out


def random_lm(rng, words, wmax=100, nstates=None, miss=.1):
    """a backoff LM over word ids 1..words, </s> = words+1, <s> = words+2"""
    eos, bos = words + 1, words + 2
    n = nstates or rng.choice([1, 2, 3, 5])
    arcs, fin = [], []
    for s in range(n):
        a = []
        if s > 0:
            a.append([0, rng.randrange(0, s), rng.randrange(-20, wmax), 0])
        for x in range(1, words + 1):
            if rng.random() < (1 - miss if s == 0 else .5):
                a.append([x, rng.randrange(n), rng.randrange(0, wmax), x])
        if rng.random() < (.95 if s == 0 else .4):
            a.append([eos, 0, rng.randrange(0, wmax), eos])
        if s == 0 and rng.random() < .9:
            a.append([bos, rng.randrange(n), 0, bos])
        arcs.append(a)
        fin.append(rng.randrange(0, 20) if s == 0 else INF)
    small = [0] + [rng.randrange(0, wmax) for _ in range(words + 2)]
    return {"start": 0, "arcs": arcs, "fin": fin, "small": small, "bos": bos, "eos": eos}


SRC = dict(core=["decoder", "fst", "hashtable", "util", "vector", "symbol_table", "strlcpy"], openfst=True)
