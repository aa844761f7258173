import itertools
import vlib

ASSUMPTIONS = ["a line with an empty key, integers with an explicit plus sign or a NUL byte are left open"]
NAMES = ["t.conf", "sub/t.conf", "./t.conf", "sub/../t.conf", "@/t.conf", "@/sub/x/t.conf", "sub/x/t.conf", "@//sub/t.conf"]
PIECES = [b"key", b"KEY", b"Key", b"k", b"b", b"fst", b"Fst", b"=", b"=", b"=", b" ", b"\t", b"#", b"\n", b"\r\n", b"\n", b"\r", b"\v\f",
          b"value", b"/abs/p", b"rel/p", b"../up", b"1", b"-7", b"0", b"007", b"2147483647", b"2147483648", b"-2147483648", b"-2147483649",
          b"99999999999999999999", b"1x", b"x1", b"0x10", b"1 2", b"- 1", b"-", b"1.5", b"1e3", b"\xc3\x84", b"\xff", b"a b", b";", b"//", b".", b"1\t",
          b"KeY", b"B", b"~", b"\0", b"\0"]
INTS = [b"1", b"-7", b"0", b"-0", b"007", b"2147483647", b"2147483648", b"-2147483648", b"-2147483649", b"4294967296", b"4294967297",
        b"9223372036854775807", b"9223372036854775808", b"99999999999999999999", b"-99999999999999999999", b"1x", b"x1", b"0x10", b"1 2", b"- 1", b"-",
        b"--1", b"1-", b"1.5", b"1e3", b"+1", b"one", b"00000000000000000000012", b"12 #c", b"'1'", b"1,000"]


def line(rng):
    kind = rng.random()
    ws = lambda: rng.choice([b"", b"", b"", b" ", b"\t", b"  ", b" \t", b"\v"])
    key = rng.choice([b"key", b"KEY", b"Key", b"k", b"b", b"B", b"am.fst", b"left_context", b"a b", b"\xc3\x84x", b"kEY", b"k\0y", b"key\0"])
    val = rng.choice([b"value", b"/abs/p", b"rel/p", b"../up", b"x y", b"1", b"#v", b"v#c", b"./w", b"V", b"\xe4\xb8\xad", b"v\0w", b"\0", b"1\0"] + INTS)
    if kind < .65:
        return ws() + key + ws() + b"=" + ws() + val + ws()
    if kind < .8:
        return rng.choice([b"", b" ", b"\t", b"#", b"# c", b" #a=b=c", b"#=", b"  "])
    if kind < .9:
        return ws() + key + ws() + rng.choice([b"", b"=", b"= ", b"==", b"=a=", b"=a=b", b"==a", b" a", b"= =", b"=\t="]) + ws()
    return b"".join(rng.choice(PIECES) for _ in range(rng.randint(0, 6))).replace(b"\n", b"")


def keys(rng):
    return rng.sample([b"key", b"KEY", b"kEy", b"k", b"b", b"B", b"am.fst", b"AM.FST", b"LEFT_context", b"a b", b"A B", b"missing", b"\xc3\x84x", b"ke", b"keyy", b"K\0Y", b"key\0"], 4)


def hx(b):
    return b.hex() or "-"


def corrupt(evs, rng):
    """changes an answer about a file that is certainly well-formed"""
    good, cand = False, []
    for i, e in enumerate(evs):
        if e["op"] == "conf":
            good = e["ok"] and not any(x.strip().startswith(b"=") for x in bytes(e["b"]).split(b"\n"))
            if good:
                cand.append((i, "ok"))
        elif e["op"] == "q" and good:
            cand += [(i, f) for f in ("sok", "pok", "sdef", "pdef")]
    if not cand:
        return None
    i, f = rng.choice(cand)
    v = evs[i][f]
    evs[i][f] = (not v) if isinstance(v, bool) else v + [33]
    return evs


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "MCConfig", workers=8, timeout=800, consts={"MaxLen": ctx.pick(5, 7)})
    vlib.model(ctx, "MCConfig", workers=8, timeout=800, consts={"MaxLen": ctx.pick(5, 7), "Codes": "{97, 61, 13, 32, 10}"})
    exe = vlib.build(ctx, "h_text", ["h_text.cc"], core=vlib.CORE, openfst=True, gemm=True)
    scripts = []
    # every content over a small alphabet
    alpha = [b"a", b"A", b"=", b"#", b" ", b"\n"]
    conts = [b"".join(c) for n in range(0, ctx.pick(4, 6)) for c in itertools.product(alpha, repeat=n)]
    conts += [b"a=a" + b"".join(c) for c in itertools.product([b"a", b"A", b"=", b"#", b" ", b"\n", b"\r\n"], repeat=ctx.pick(3, 5))]
    for i in range(0, len(conts), 25):
        s = []
        for b in conts[i:i + 25]:
            s.append("conf %s %s" % (rng.choice(NAMES), hx(b)))
            s += ["q 61", "q 41", "q 6161"]
        scripts.append(s)
    for v in INTS:
        s = []
        for w in (b"", b" ", b"\t"):
            s += ["conf t.conf %s" % hx(b"n=" + w + v + w + b"\n"), "q " + hx(b"N")]
        scripts.append(s)
    # keys, values and lines longer than any fixed buffer, and many keys
    for n in ctx.pick([127, 255, 256, 1020, 1023, 1024, 2050, 4093, 4096, 9000], [127, 255, 256, 1020, 1023, 1024, 2050, 4093, 4094, 4095, 4096, 4097, 8191, 8192, 9000, 20000, 70000]):
        b = b"long=" + b"v" * n + b"\n" + b"K" * n + b" = 12\n# " + b"c" * n + b"\npad=" + b" " * n + b"x\nlast=7"
        scripts.append(["conf t.conf " + hx(b), "q " + hx(b"long"), "q " + hx(b"k" * n), "q " + hx(b"k" * (n - 1)), "q " + hx(b"PAD"), "q " + hx(b"last")])
    n = ctx.pick(1000, 3000)
    b = b"".join(b"key%d = %d\n" % (i % (n * 2 // 3), i) for i in range(n))
    scripts.append(["conf sub/t.conf " + hx(b)] + ["q " + hx(b"key%d" % rng.randrange(n)) for _ in range(12)])
    for _ in range(ctx.pick(300, 4000)):
        s = ["noconf"] if rng.random() < .1 else []
        for _ in range(3):
            n = rng.choice([1, 1, 2, 3, 5, 9])
            good = rng.random() < .5
            ls = []
            while len(ls) < n:
                x = line(rng)
                # mostly well-formed files, so that queries are made
                if good and (x.count(b"=") != 1 or x.strip().endswith(b"=") or x.strip().startswith(b"=")) and x.strip() and not x.strip().startswith(b"#"):
                    continue
                ls.append(x)
            b = b"".join(x + rng.choice([b"\n", b"\n", b"\r\n"]) for x in ls)
            if rng.random() < .3:
                b = b[:-1]
            if rng.random() < .03:
                b = b"#" + b"x" * rng.choice([4093, 4094, 4095, 4096, 8190]) + b"\n" + b
            s.append("conf %s %s" % (rng.choice(NAMES), hx(b)))
            s += ["q " + hx(k) for k in keys(rng)]
        scripts.append(s)
    vlib.conform(ctx, exe, "TextTrace", scripts, "configurations", corrupt=corrupt)
