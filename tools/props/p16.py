import itertools
import vlib

ASSUMPTIONS = ["ids in other spellings than plain decimal or with a NUL byte, looking up a word with a NUL byte by its id, and a line that starts with a blank or ends in a single one are left open",
               "ids up to 100000 are looked up"]


def hx(b):
    return b.hex() or "-"


def textruns(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6, 12])):
        n = rng.choice([0, 1, 2, 5, 30, 4093, 4094, 4095, 4096, 4097, 8189, 8190, 8191, 8192, 12285, 12288, rng.randint(0, 9000)])
        if n:
            out.append((rng.choice([97, 98, 32, 255, 61, 0]), n))
            if rng.random() < .3:
                out.append((rng.choice([99, 9, 13, 200, 0]), rng.choice([1, 2, 4094, 4095])))
        t = rng.choice([[(10, 1)], [(10, 1)], [(13, 1), (10, 1)], [(13, 2), (10, 1)], [(10, 2)], [(10, 3)], [(13, 1), (10, 1), (13, 1), (10, 1)]])
        out += t
    if rng.random() < .4 and out:
        out.append((100, rng.choice([1, 3, 4094, 4095, 4096, 8190])))
        if rng.random() < .3:
            out.append((13, 1))
    return out


WORDS = [b"<s>", b"</s>", b"<eps>", b"a", b"b", b"hello", b"\xe4\xb8\xad\xe6\x96\x87", b"#0", b"a=b", b"<S>", b"12", b"-", b"w\tx", b"</s", b"<s", b"s>", b"n\0l", b"n", b"\0", b"<s>\0"]
BADIDS = [b"-1", b"x", b"1x", b"", b"1.5", b"2147483648", b"4294967296", b"4294967299", b"9223372036854775808", b"99999999999999999999", b"-2147483648", b"--1", b"1-", b"one", b"1,",
          b"-99999999999999999999", b"0x", b"g", b"1e", b"1_"]


def symfile(rng):
    ws = [b"<s>", b"</s>"] + rng.sample(WORDS[2:], rng.randint(0, 8))
    if rng.random() < .1:
        ws.remove(rng.choice([b"<s>", b"</s>"]))
    rng.shuffle(ws)
    mode = rng.choice(["seq", "seq", "gap", "dup", "big"])
    lines, used = [], []
    for i, w in enumerate(ws):
        x = {"seq": i, "gap": rng.randrange(40), "dup": rng.randrange(4), "big": rng.choice([65535, 65536, 65537, 99999, 100000, i])}[mode]
        lines.append([w, b"%d" % x])
    if rng.random() < .3 and lines:
        w = rng.choice(ws)
        lines.insert(rng.randrange(len(lines) + 1), [w, b"%d" % rng.randrange(12)])
    lines = [b" ".join(x) for x in lines]
    if rng.random() < .35:
        p = rng.randrange(len(lines) + 1)
        bad = rng.choice([b"", b"a", b"a 1 2", b"a  1", b"a\t1", b"a 1 b", b"1", b"a ", b"a 1  ", b"  a 1"] + [b"a " + x for x in BADIDS])
        lines.insert(p, bad)
    if rng.random() < .05:
        lines.insert(rng.randrange(len(lines) + 1), b"w" * rng.choice([4090, 4093, 4096, 9000]) + b" 7")
    b = b"".join(x + rng.choice([b"\n", b"\n", b"\r\n"]) for x in lines)
    if rng.random() < .3 and b.endswith(b"\n"):
        b = b[:-1]
    return b, lines


def corrupt(evs, rng):
    if not any(e["op"] == "i" for e in evs):
        return None                                   # only files that are certainly well-formed
    return vlib.num_corruptor(["sym", "w"], ["ok", "bos", "eos", "id"])(evs, rng)


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "TextImpl", workers=8, timeout=800, consts={"MaxLen": ctx.pick(6, 9)})
    vlib.model(ctx, "TextImpl", workers=8, timeout=800, consts={"MaxLen": ctx.pick(5, 8), "Chunk": 2})
    vlib.model(ctx, "MCSymTab", workers=8, timeout=800, consts={"MaxLines": ctx.pick(4, 5)})
    exe = vlib.build(ctx, "h_text", ["h_text.cc"], core=vlib.CORE, openfst=True, gemm=True)
    scripts = []
    fl = lambda r: " ".join("%d %d" % x for x in r)
    small = [list(c) for n in range(0, ctx.pick(6, 8)) for c in itertools.product([97, 10, 13], repeat=n)]
    small += [list(c) for n in range(1, ctx.pick(5, 6)) for c in itertools.product([97, 10, 13, 0], repeat=n) if 0 in c]
    for i in range(0, len(small), 25):
        scripts.append([rng.choice(["file ", "bfile "]) + fl((c, 1) for c in x) for x in small[i:i + 25]])
    for n in list(range(4090, 4100)) + list(range(8185, 8200)):
        for tail in ([], [(10, 1)], [(13, 1), (10, 1)], [(10, 1), (98, 1)], [(10, 2), (98, 4095), (10, 1)]):
            scripts.append(["file " + fl([(97, n)] + tail)])
    for n in [16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 131073, 262145, 1048577] + ctx.pick([], [8388609, 16777217]):
        scripts.append(["file " + fl([(97, n), (10, 1), (98, 3), (10, 1)]), "bfile " + fl([(97, n)])])
    for _ in range(ctx.pick(200, 3000)):
        scripts.append([rng.choice(["file ", "file ", "bfile "]) + fl(textruns(rng)) for _ in range(3)])
    vlib.conform(ctx, exe, "TextTrace", scripts, "lines", corrupt=vlib.num_corruptor(["line"], ["got", "t"]))
    scripts = [["nosym"]]
    # all ids at one place
    for x in BADIDS:
        scripts.append(["sym " + hx(b"<s> 0\na " + x + b"\n</s> 1\n")])
    for n in range(0, ctx.pick(4, 5)):
        fs = [b"\n".join(c) + e for c in itertools.product([b"<s> 0", b"</s> 1", b"a 1", b"", b"a 1 2", b"</s> 3"], repeat=n) for e in (b"", b"\n")]
        for i in range(0, len(fs), 10):
            s = []
            for f in fs[i:i + 10]:
                s.append("sym " + hx(f))
                s += ["w " + hx(w) for w in (b"<s>", b"</s>", b"a", b"zz")]
            scripts.append(s)
    for _ in range(ctx.pick(500, 6000)):
        b, lines = symfile(rng)
        s = ["sym " + hx(b)]
        good, mx = True, -1
        for x in lines:
            f = x.split(b" ")
            if len(f) != 2 or not f[1].isdigit() or int(f[1]) > 100000 or not f[0]:
                good = False
            else:
                mx = max(mx, int(f[1]))
        if good and {b"<s>", b"</s>"} <= {x.split(b" ")[0] for x in lines}:
            for w in rng.sample(WORDS, 8) + [b"zz", b""] + [x.split(b" ")[0] for x in lines if len(x) < 100]:
                s.append("w " + hx(w))
            ids = {int(x.split(b" ")[1]) for x in lines} | {rng.randint(0, mx) for _ in range(3)} | {0, mx}
            s += ["i %d" % i for i in sorted(ids)]
        scripts.append(s)
    # words longer than any fixed buffer, and many lines
    for n in (255, 256, 300, 1023, 1024, 5000, 70000):
        scripts.append(["sym " + hx(b"<s> 0\n</s> 1\n" + b"w" * n + b" 2\n" + b"w" * (n - 1) + b" 3\n"), "i 2", "i 3", "w " + hx(b"w" * n), "w " + hx(b"w" * (n - 1))])
    n = ctx.pick(1200, 5000)
    scripts.append(["sym " + hx(b"".join(b"%s %d\n" % (w, i) for i, w in enumerate([b"<s>", b"</s>"] + [b"v%d" % i for i in range(n)])))] +
                   ["i %d" % rng.randrange(n) for _ in range(10)] + ["w " + hx(b"v%d" % rng.randrange(n)) for _ in range(10)])
    big = [["bigsym %d %s" % (n, " ".join(str(i) for i in [2, 9, 10, n // 2, n - 2, n - 1, n, n + 1, 10 * n, 65535, 65536, 65537, 32768, 131072]))]
           for n in [10000, 32769, 65535, 65536, 65537, 70000, 131075, 200000, 300000, 530000, 1050000] + ctx.pick([], [2097153, 4200000])]
    vlib.conform(ctx, exe, "TextTrace", big, "large vocabularies", corrupt=vlib.num_corruptor(["bigsym"], ["bos", "eos", "q"]))
    vlib.conform(ctx, exe, "TextTrace", scripts, "symbols", corrupt=corrupt)
