"""The conversion tools are run as programs; inputs, exit status and output files are the trace."""
import os, sys, struct, subprocess, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
import vlib, nngen

ASSUMPTIONS = ["texts are valid UTF-8; words contain no blank characters outside ASCII, probabilities no infinities",
               "pywrapfst is not installed: convert_fstfmt.py runs on a stand-in with the interface the script uses (Fst.read, start, states, final, arcs)"]
TOOL = vlib.REPO + "/tool/"
STUB = '''
import json
class Weight:
    def __init__(self, v): self.v = v
    def __float__(self): return float(self.v)
    def __str__(self): return str(self.v)
    def __eq__(self, o): return isinstance(o, Weight) and float(self) == float(o)
    def __ne__(self, o): return not self == o
    def to_string(self): return str(self.v)
    @classmethod
    def zero(cls, t=None): return cls(float("inf"))
    @classmethod
    def one(cls, t=None): return cls(0.0)
Weight.Zero, Weight.One = Weight.zero, Weight.one
class Arc:
    def __init__(self, a): self.ilabel, self.olabel, self.weight, self.nextstate = a[1], a[2], Weight(a[3]), a[0]
class Fst:
    @staticmethod
    def read(name):
        f = Fst(); f.d = json.load(open(name)); return f
    def start(self): return self.d["start"]
    def weight_type(self): return "tropical"
    def num_states(self): return len(self.d["fin"])
    def num_arcs(self, s): return len(self.d["arcs"][s])
    def states(self): return iter(range(len(self.d["fin"])))
    def final(self, s): return Weight(self.d["fin"][s])
    def arcs(self, s): return iter([Arc(a) for a in self.d["arcs"][s]])
'''
f32 = lambda v: list(struct.pack("<f", v))
i32 = lambda v: list(struct.pack("<i", v))
codes = lambda s: list(s.encode("utf-8"))


def run(wd, cmd, files, outs, stdin=None, py="python3"):
    """files: name -> bytes; returns (exit status zero, {out name: codes or []}, stdout)"""
    d = tempfile.mkdtemp(dir=wd)
    for n, b in files.items():
        open(os.path.join(d, n), "wb").write(b)
    try:
        r = subprocess.run([py, TOOL + cmd[0]] + cmd[1:], cwd=d, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                           env=dict(os.environ, PYTHONPATH=wd, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8"))
    except subprocess.TimeoutExpired:
        shutil.rmtree(d)
        return False, {o: [] for o in outs}, b"timeout"
    got = {}
    for o in outs:
        p = os.path.join(d, o)
        got[o] = list(open(p, "rb").read()) if os.path.exists(p) else []
    shutil.rmtree(d)
    return r.returncode == 0, got, r.stdout


# ------------------------------------------------------------------ input generators
WORDS = ["a", "b", "hello", "你", "你好", "世界和平", "x" * 40, "<unk>", "<s>", "</s>", "#0", "<eps>", "é", "a=b", "=", "\\w", "-1", "0", "1e5", "[a]", "don't", "𝄞", "Straße"]


def word(rng):
    if rng.random() < .6:
        return rng.choice(WORDS)
    return "".join(rng.choice("abcdefghij你我他们的一是不了人") for _ in range(rng.randint(1, 6)))


def nl(rng, lines):
    e = rng.choice(["\n", "\n", "\n", "\r\n"])
    t = e.join(lines)
    return (t + e if rng.random() < .8 or not lines or lines[-1] == "" else t).encode("utf-8")


def gap(rng):
    return rng.choice([" ", " ", " ", "\t", "  "])


def dec(rng, wide=False):
    """a decimal text"""
    if wide:
        v = rng.choice([0, rng.randint(0, 99), rng.uniform(0, 1), rng.uniform(0, 1e9), rng.uniform(1e6, 1e9), rng.uniform(0, 1e-5)])
    else:
        v = rng.choice([0, rng.randint(0, 99), rng.uniform(0, 10), rng.uniform(0, 1), rng.randint(0, 400) / 64.])
    t = rng.choice(["%g", "%g", "%.7g", "%.4f", "%d", "%.6e", "%.9g"]) % v
    return (("-" if rng.random() < .5 else "") + t)


def gen_trans(rng):
    n = rng.choice([0, 1, 3, 10, 40, 120]) if rng.random() < .8 else 0
    tids = list(range(1, n + 1))
    if rng.random() < .3:
        rng.shuffle(tids)
    if rng.random() < .3:
        tids = [t for t in tids if rng.random() < .8]
    if rng.random() < .2:
        tids = [0] + tids
    pdfs = rng.choice([1, 5, 300, 70000])
    L = ["%d" % pdfs, "%d" % n] + ["%d%s%d" % (t, gap(rng), rng.randrange(pdfs)) for t in tids]
    if tids and rng.random() < .15:
        L.append("%d %d" % (rng.choice(tids), rng.randrange(pdfs)))
    if rng.random() < .12:
        k = rng.randrange(len(L))
        if rng.random() < .3:
            L = L[:1]
        elif k >= 2:
            L[k] = rng.choice(["", "3", "1 2 3"])
    return nl(rng, L)


def arpa(rng, words=None):
    ws = words if words is not None else list({word(rng) for _ in range(rng.choice([0, 1, 4, 12, 30]))})
    order = rng.choice([1, 1, 2, 3])
    L = [""] * rng.choice([0, 1, 2]) + ["\\data\\"]
    counts = [len(ws), 7, 3]
    eq = rng.choice(["=", "=", " = ", "= "])
    L += ["ngram %d%s%d" % (k + 1, eq, counts[k]) for k in range(order)]
    L += [""] * rng.choice([0, 1, 1]) + ["\\1-grams:"]
    for w in ws:
        g = gap(rng)
        p = "-" + dec(rng).lstrip("-") if rng.random() < .95 else dec(rng).lstrip("-")
        L.append(p + g + w + (g + dec(rng) if rng.random() < .6 else ""))
    L += [""] * rng.choice([0, 1, 1])
    for k in range(2, order + 1):
        L.append("\\%d-grams:" % k)
        for _ in range(rng.randint(0, 4)):
            L.append(gap(rng).join(["-%g" % rng.uniform(0, 3)] + [rng.choice(ws or ["z"]) for _ in range(k)] + (["-0.1"] if rng.random() < .5 else [])))
        L += [""] * rng.choice([0, 1])
    L.append("\\end\\")
    if rng.random() < .2:
        L += rng.choice([[""], ["", "trailing text"], ["\\more\\"]])
    if rng.random() < .12:
        k = rng.randrange(len(L))
        how = rng.random()
        if how < .5:
            L = L[:k]
        elif how < .7:
            L[k] = "-1 a b c d"
        else:
            L.insert(0, "text")
    return ws, L


def vocab(rng, ws):
    names = list(dict.fromkeys(list(ws) + [w for w in ["<s>", "</s>", "<eps>", "zz", "#0"] if rng.random() < .8]))
    if "<s>" not in names and rng.random() < .9:
        names.append("<s>")
    if "<unk>" in names and rng.random() < .5:
        names.remove("<unk>")
    if rng.random() < .08 and names:
        names.remove(rng.choice(names))
    rng.shuffle(names)
    ids = list(range(len(names)))
    if rng.random() < .4:
        ids = sorted(rng.sample(range(len(names) * 2 + 1), len(names)))
    if rng.random() < .4:
        rng.shuffle(ids)
    L = ["%s%s%d" % (w, gap(rng), i) for w, i in zip(names, ids)]
    if rng.random() < .05:
        L.insert(rng.randint(0, len(L)), rng.choice(["alone", "a b 3"]))
    if rng.random() < .1:
        L.insert(rng.randint(0, len(L)), "")
    return L


def gen_words(rng):
    n = rng.choice([1, 2, 5, 20, 60])
    ids = list(range(n)) if rng.random() < .6 else [rng.randrange(2 * n) for _ in range(n)]
    if rng.random() < .4:
        rng.shuffle(ids)
    L = ["%s%s%d" % (word(rng), gap(rng), i) for i in ids]
    if rng.random() < .1:
        L.insert(rng.randint(0, len(L)), rng.choice(["", "alone", "a b 3"]))
    return nl(rng, L)


def gen_cmvn(rng):
    n = rng.choice([82] * 6 + [0, 41, 81, 83, 123])
    t = [dec(rng, True) for _ in range(n)]
    if n == 82 and rng.random() < .7:
        t[81] = "0"
        t[40] = "%d" % rng.randint(100, 10 ** 7)
    half = n // 2
    L = [" ["] + ["  " + " ".join(t[:half])] + ["  " + " ".join(t[half:]) + " ]"]
    if rng.random() < .3:
        L = ["[ " + " ".join(t) + " ]"]
    return nl(rng, L)


def gen_fst(rng):
    n = rng.choice([1, 2, 3, 6, 15])
    w = lambda: struct.unpack("<f", struct.pack("<f", rng.choice([0.0, 1.0, rng.uniform(0, 20), rng.uniform(-3, 3), rng.randint(0, 99)])))[0]
    fin = [w() if rng.random() < .5 else float("inf") for _ in range(n)]
    arcs = []
    for s in range(n):
        k = rng.choice([0, 0, 1, 2, 5, 12])
        a = [[rng.randrange(n), rng.choice([0, 1, 2, 3, 70000, rng.randint(0, 9)]), rng.choice([0, 1, 5, 100000]), w()] for _ in range(k)]
        if rng.random() < .4:
            a.sort(key=lambda x: x[1])
        arcs.append(a)
    return {"start": rng.randrange(n), "fin": fin, "arcs": arcs}


# -------------------------------------------------------------------- Kaldi nnet3 texts
def gen_am(rng, ints):
    """returns (net, nodes for Kaldi.tla or None, text, input dim)"""
    num = (lambda: str(rng.choice([0, 1, -1, rng.randint(-4, 4)]))) if ints else (lambda: dec(rng))
    d0 = d = rng.randint(1, 4)
    prev, nodes, comps, kn = "input", [], [], []
    desc = ["input-node name=input dim=%d" % d]
    need = 0
    for k in range(rng.randint(1, 6)):
        t = rng.choice(["affine", "affine", "relu", "bn"])
        name = rng.choice(["tdnn%d.%s", "t%d_%s", "Layer%d.x.%s"]) % (k, t)
        offs = []
        if rng.random() < .6 and d < 9 and need < 12:
            offs = rng.sample(range(-3, 4), rng.randint(1, 3))
            if rng.random() < .7:
                offs.sort()
            if rng.random() < .1:
                offs = offs + [offs[0]]
            need += max(0, -min(offs)) + max(0, max(offs))
            parts = [prev if o == 0 and rng.random() < .7 else "Offset(%s,%s%d)" % (prev, rng.choice([" ", ""]), o) for o in offs]
            inp = "Append(" + rng.choice([", ", ","]).join(parts) + ")"
            d *= len(offs)
        else:
            inp = prev
        desc.append("component-node name=%s component=%s input=%s" % (name, name, inp))
        tail = "<RankIn> 20 <RankOut> 80 <UpdatePeriod> 4 "
        if t == "affine":
            o = rng.randint(1, 4)
            w = [[num() for _ in range(d)] for _ in range(o)]
            b = [num() for _ in range(o)]
            c = {"t": "affine", "name": codes(name), "w": [[codes(x) for x in r] for r in w], "b": [codes(x) for x in b]}
            body = ("NaturalGradientAffineComponent", rng.choice(["<LearningRate> 0.001 ", "<MaxChange> 0.75 <LearningRate> 1e-05 ", ""]) +
                    "<LinearParams>  [\n" + "\n".join("  " + " ".join(r) for r in w) + " ]\n<BiasParams>  [ " + " ".join(b) + " ]\n" + tail)
            k_ = {"t": "affine", "w": [[int(x) for x in r] for r in w], "b": [int(x) for x in b]} if ints else None
            d = o
        elif t == "relu":
            c = {"t": "relu", "name": codes(name)}
            body = ("RectifiedLinearComponent", "<Dim> %d <ValueAvg>  [ ]\n<DerivAvg>  [ ]\n<Count> 0 " % d)
            k_ = {"t": "relu"}
        else:
            eps = rng.choice([16, 32, 1, 4])                                # /64
            rms = 64 * rng.choice([1, 1, 2, 4]) if ints else 64 * rng.choice([1, 1, 2])
            mean, var, sc, off = [], [], [], []
            for _ in range(d):
                q = rng.choice([1, 1, 4]) if ints else rng.choice([1, 4, 16])
                if ints and rms == 64:
                    q = 1
                s = rms // {1: 1, 4: 2, 16: 4}[q]                          # var + eps = q
                m = 64 * rng.randint(-5, 5) if ints else 4 * rng.randint(-40, 40)
                mean.append(m)
                var.append(64 * q - eps)
                sc.append(s)
                off.append(-m * s // 64)
            c = {"t": "bn", "name": codes(name), "eps": eps, "rms": rms, "mean": mean, "var": var, "scale": sc, "off": off}
            q6 = lambda v: ("%.6f" % (v / 64.)).rstrip("0").rstrip(".")
            body = ("BatchNormComponent", "<Dim> %d <BlockDim> %d <Epsilon> %s <TargetRms> %s <TestMode> F <Count> %d <StatsMean>  [ %s ]\n<StatsVar>  [ %s ]\n" % (
                d, d, q6(eps), q6(rms), rng.randint(1, 99), " ".join(map(q6, mean)), " ".join(map(q6, var))))
            k_ = {"t": "bn", "s": [s // 64 for s in sc], "o": [o // 64 for o in off]}
        nodes.append({"comp": codes(name), "offs": offs})
        comps.append((c, "<ComponentName> %s <%s> %s</%s> " % (name, body[0], body[1], body[0])))
        kn.append({"offs": offs, "c": k_})
        prev = name
    if not ints and rng.random() < .7:
        name = "output.logsoftmax"
        desc.append("component-node name=%s component=%s input=%s" % (name, name, prev))
        nodes.append({"comp": codes(name), "offs": []})
        comps.append(({"t": "logsoftmax", "name": codes(name)}, "<ComponentName> %s <LogSoftmaxComponent> <Dim> %d <ValueAvg> [ ]\n</LogSoftmaxComponent> " % (name, d)))
        prev = name
    desc.append("output-node name=output input=%s objective=linear" % prev)
    if rng.random() < .3:
        rng.shuffle(comps)
    prior = [dec(rng).lstrip("-") for _ in range(rng.randint(1, 5))]
    text = ("<TransitionModel> <Topology> </Topology> </TransitionModel>\n" if rng.random() < .3 else "") + \
        "<Nnet3> \n\n" + "\n".join(desc) + "\n\n<NumComponents> %d \n" % len(comps) + "\n".join(c[1] for c in comps) + \
        "\n</Nnet3> <LeftContext> %d <RightContext> %d <Priors>  [ %s ]\n" % (1, 2, " ".join(prior))
    net = {"nodes": nodes, "comps": [c[0] for c in comps], "prior": [codes(p) for p in prior]}
    return net, kn, text, d0


def make(ctx, wd, kind, rng):
    """one event (or the pieces of one), ready to run in a thread"""
    if kind == "trans":
        b = gen_trans(rng)

        def go():
            ok, o, _ = run(wd, ["convert_trans.py", "in.txt", "out"], {"in.txt": b}, ["out"])
            return {"op": "trans", "text": list(b), "ok": ok, "out": o["out"]}
    elif kind == "prune":
        ws, L = arpa(rng)
        b = nl(rng, L)

        def go():
            ok, o, so = run(wd, ["prune_lm.py"], {}, [], stdin=b)
            return {"op": "prune", "text": list(b), "ok": ok, "out": list(so)}
    elif kind == "uni":
        ws, L = arpa(rng)
        v = nl(rng, vocab(rng, ws))
        b = nl(rng, L)

        def go():
            ok, o, _ = run(wd, ["convert_unigram.py", "lm", "v", "out"], {"lm": b, "v": v}, ["out"])
            return {"op": "uni", "text": list(b), "vocab": list(v), "ok": ok, "out": o["out"]}
    elif kind == "words":
        b = gen_words(rng)

        def go():
            ok, o, _ = run(wd, ["convert_words.py", "in", "out"], {"in": b}, ["out"])
            return {"op": "words", "text": list(b), "ok": ok, "out": o["out"]}
    elif kind == "cmvn":
        b = gen_cmvn(rng)

        def go():
            ok, o, _ = run(wd, ["convert_cmvn_stats.py", "in", "out"], {"in": b}, ["out"])
            return {"op": "cmvn", "text": list(b), "ok": ok, "out": o["out"]}
    elif kind == "fst":
        f = gen_fst(rng)
        cmd = ["convert_fstfmt.py", "in", "out"] + (["binary"] if rng.random() < .5 else [])

        def go():
            ok, o, _ = run(wd, cmd, {"in": json.dumps(f).encode()}, ["out"])
            return {"op": "fst", "ok": ok, "out": o["out"], "fst": {
                "start": f["start"], "fin": [f32(x) for x in f["fin"]],
                "arcs": [[i32(a[0]) + i32(a[1]) + i32(a[2]) + f32(a[3]) for a in s] for s in f["arcs"]]}}
    else:
        ints = rng.random() < .6
        net, kn, text, d0 = gen_am(rng, ints)
        xs = []
        if ints:
            for _ in range(3):
                R = rng.randint(1, 14)
                xs.append("x %d %d %s" % (R, d0, " ".join(str(rng.randint(-3, 3)) for _ in range(R * d0))))

        def go():
            ok, o, _ = run(wd, ["convert_am.py", "in", "am"], {"in": text.encode()}, ["am.nnet", "am.prior"], py="python3-vt")
            return {"op": "am", "ok": ok, "net": net, "nodes": kn if ints else [], "out": o["am.nnet"], "prior": o["am.prior"], "xs": xs}
    return go


KIND = {"trans": "veci", "uni": "vecf", "cmvn": "vecf", "fst": "fst", "am": "net"}
hx = lambda b: "".join("%02x" % x for x in b)


def corrupt(evs, rng):
    """one byte of an output file"""
    c = [e for e in evs if e.get("ok") and e.get("out") and e["op"] in ("trans", "words", "fst", "prune")]
    if not c:
        return None
    e = rng.choice(c)
    if e["op"] == "fst":
        i = rng.randrange(36, len(e["out"]))                 # the name field is padded
    elif e["op"] == "prune":
        i = rng.choice([k for k, x in enumerate(e["out"]) if x > 32])
    else:
        i = rng.randrange(len(e["out"]))
    e["out"][i] = e["out"][i] ^ 1
    return evs


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "MCBigNat", workers=4)
    vlib.model(ctx, "MCKaldi", workers=8, consts={"MaxT": ctx.pick(6, 8), "MaxOff": ctx.pick(2, 3)}, timeout=1800)
    exe_f = vlib.build(ctx, "h_file", ["h_file.cc"], core=["matrix", "vector", "util", "fst", "nnet", "symbol_table", "strlcpy"], gemm=True)
    exe_n = vlib.build(ctx, "h_nn", ["h_nn.cc"], **nngen.SRC)
    wd = tempfile.mkdtemp(dir=ctx.tmp)
    open(wd + "/pywrapfst.py", "w").write(STUB)
    kinds = ["trans", "prune", "uni", "words", "cmvn", "fst", "am"]
    per = ctx.pick(60, 700)
    jobs = [make(ctx, wd, k, rng) for k in kinds for _ in range(per)]
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        evs = list(ex.map(lambda g: g(), jobs))
    ctx.log("ran %d conversions, %d refused" % (len(evs), sum(not e["ok"] for e in evs)))
    # the engine's own readers on the converted files
    lines = ["read %s %d %d %s" % (KIND[e["op"]], 0, 1, hx(b)) for e in evs if e["ok"] and e["op"] in KIND
             for b in [e["out"]]]
    lines += ["read vecf 0 1 " + hx(e["prior"]) for e in evs if e["ok"] and e["op"] == "am"]
    scripts = [lines[i:i + 25] for i in range(0, len(lines), 25)]
    vlib.conform(ctx, exe_f, "ModelFileTrace", scripts, "read-back", timeout=30)
    # the engine runs the converted networks
    nets = [e for e in evs if e["op"] == "am" and e["ok"] and e["xs"]]
    ran = vlib.run_scripts(ctx, exe_n, [["hexnet " + hx(e["out"])] + e["xs"] for e in nets], timeout=20, label="networks")
    after = {id(e): r[1][1:] for e, r in zip(nets, ran)}
    traces = []
    for k, e in enumerate(evs):
        more = after.get(id(e), [])
        e.pop("xs", None)
        traces.append((["%s #%d" % (e["op"], k)], [{"op": "new", "k": k}, e] + more))
    vlib.check_traces(ctx, "ConvertTrace", traces, "tools", None, corrupt=corrupt)
    for op in kinds:
        if not any(e["ok"] for e in evs if e["op"] == op):
            raise vlib.CheckError("no successful run of " + op)
