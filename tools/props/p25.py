import itertools
import vlib

ASSUMPTIONS = ["numbers with a NUL byte or beyond 18 decimal (7 hexadecimal, 10 octal) digits, formats of floating point numbers and empty delimiters are left open",
               "error reports are required to contain the texts they are about, not to have a certain wording"]
BITS = [b"{}", b"{}", b"{", b"}", b"{{}}", b"{}{}", b"a", b" ", b"in {}: ", b"'{}'", b"%s", b"\0", b"\xe4\xb8\xad", b"{0}", b"{ }", b"}{"]
BLANKS = [b" ", b"\t", b"\n", b"\v", b"\f", b"\r"]


def hx(b):
    return b.hex() or "-"


def text(rng, n=5):
    return b"".join(rng.choice(BITS) for _ in range(rng.randint(0, n)))


def arg(rng):
    k = rng.random()
    if k < .5:
        return "s" + hx(text(rng, 3))
    if k < .7:
        return "c" + hx(text(rng, 3).replace(b"\0", b""))
    if k < .85:
        return "i%d" % rng.choice([0, 1, -1, 42, 2147483647, -2147483648, rng.randint(-10 ** 6, 10 ** 6)])
    return "l%d" % rng.choice([0, -1, 2 ** 31, 10 ** 15, -2 ** 62, rng.randint(-10 ** 12, 10 ** 12)])


def number(rng):
    s = rng.choice([b"", b"", b"-", b"+", b"--", b"+-", b"- "])
    b = rng.choice([b"", b"", b"0", b"0x", b"0X", b"x", b"00", b"0x0"])
    d = b"".join(rng.choice([b"0", b"1", b"7", b"8", b"9", b"a", b"F", b"g", b"2", b"3"] if rng.random() < .3 else [b"0", b"1", b"2", b"7"]) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 7, 9, 10, 12, 17, 18, 19, 25])))
    t = rng.choice([b""] * 6 + [b"L", b".", b".5", b"e3", b" 1", b"\0", b"\0x", b"u"])
    w = lambda: b"".join(rng.choice(BLANKS) for _ in range(rng.choice([0, 0, 0, 1, 2])))
    return w() + s + b + d + t + w()


NAMES = [b"t.conf", b"{}.conf", b"a{}/t.conf", b"{}/{}/t.conf", b"x'y.conf", b"%s.conf", b"{}", b"a b/c d.conf", b"\xc3\x84{}/t.conf", b"sub/../{}.conf", b"n" * 120 + b"{}"]
KEYS = [b"key", b"KEY", b"{}", b"a{}b", b"{}{}", b"k'", b"%d", b"in {}", b"\xc3\x84", b"fst", b"}{", b"K{}"]
VALUES = [b"1", b"-7", b"x", b"{}", b"{}{}", b"1{}", b"{} {}", b"2147483648", b"-", b"1.5", b"\xe4\xb8\xad", b"0x{}", b"v" * 50 + b"{}", b"12 {}"]
BADLINES = [b"junk", b"{}", b"{} {}", b"{}={}={}", b"a{}=", b"=", b"a==b", b"{}=b=", b"  {}  ", b"k{} = \t", b"'{}'"]


def reports(rng):
    s = []
    for _ in range(4):
        n = rng.choice(NAMES)
        r = rng.random()
        if r < .12:
            s.append("conf " + hx(b"gone/" + n))
            continue
        L = [rng.choice(KEYS) + rng.choice([b"=", b" = "]) + rng.choice(VALUES) for _ in range(rng.randint(0, 5))]
        if r < .4:
            L.insert(rng.randint(0, len(L)), rng.choice(BADLINES))
            if rng.random() < .3:
                L.append(rng.choice(BADLINES))
        s.append("conf %s %s" % (hx(n), hx(rng.choice([b"\n", b"\r\n"]).join(L + [b""]))))
        if r >= .4:
            s += ["get " + hx(rng.choice(KEYS)) for _ in range(5)]
    return s


def binary(rng):
    s = []
    for _ in range(3):
        n = rng.choice(NAMES)
        if rng.random() < .15:
            s.append("open " + hx(b"gone/" + n))
            continue
        parts = [rng.choice([b"LAY0", b"{}", b"MAT0", b"V", b"\0\0", b"abc{}", bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 9])))]) for _ in range(rng.randint(0, 6))]
        b = b"".join(parts)
        s.append("open %s %s" % (hx(n), hx(b)))
        for p in parts + [b"x"]:
            q = rng.random()
            if q < .4:
                s.append("read %d" % rng.choice([len(p), len(p), 0, 1, 4, 2]))
            else:
                e = p if rng.random() < .7 else rng.choice([b"LAY1", b"{}", b"ab", b"{}{}{}{}"])
                e = e.replace(b"\0", b"z")
                s.append("expect " + hx(e))
    return s


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "StringsImpl", workers=8, timeout=800, consts={"MaxLen": ctx.pick(4, 6), "Ops": '{"trim", "split", "format"}'})
    vlib.model(ctx, "StringsImpl", workers=8, timeout=800, consts={"MaxLen": ctx.pick(6, 8), "Ops": '{"copy"}', "Codes": "{0, 97}"})
    vlib.model(ctx, "StringsImpl", workers=4, timeout=800, consts={"Rescan": "TRUE", "Ops": '{"format"}'}, expect_violation="Right")
    exe = vlib.build(ctx, "h_str", ["h_str.cc"], core=["util", "configuration", "strlcpy"])
    lines = []
    ab = [bytes(c) for n in range(0, ctx.pick(6, 7)) for c in itertools.product(b" a\n", repeat=n)]
    lines += ["trim " + hx(x) for x in ab]
    lines += ["trim " + hx(b"".join(rng.choice(BLANKS + [b"x", b"\0", b"\xa0", b"\x85", b"\x1f", b"\x08", b"\x0e"]) for _ in range(rng.randint(0, 9)))) for _ in range(ctx.pick(200, 3000))]
    lines += ["low " + hx(bytes(range(a, a + 32))) for a in range(0, 256, 32)] + ["low " + hx(bytes(rng.randrange(256) for _ in range(rng.randint(0, 40)))) for _ in range(50)]
    for d in (b"a", b"ab", b"aa", b"aba", b"\0", b" "):
        al = b"ab" if d[0] in b"ab" else d + b"x"
        lines += ["split %s %s" % (hx(bytes(c)), hx(d)) for n in range(0, ctx.pick(7, 9)) for c in itertools.product(al, repeat=n)]
    lines += ["split %s %s" % (hx(bytes(rng.choice(b"xyz==") for _ in range(rng.randint(0, 60)))), hx(rng.choice([b"=", b"==", b"x=", b"xyx", b"=x="]))) for _ in range(ctx.pick(200, 2000))]
    # every short format with every short argument list
    for n in range(0, ctx.pick(6, 7)):
        for f in itertools.product(b"{}", repeat=n):
            for a in ([], [b""], [b"{}"], [b"{}", b"x"], [b"{", b"}"], [b"x", b"{}", b"y"], [b"{}{}", b"{}", b"{"]):
                lines.append(" ".join(["fmt " + hx(bytes(f))] + ["s" + hx(x) for x in a]))
    lines += [" ".join(["fmt " + hx(text(rng, 8))] + [arg(rng) for _ in range(rng.randint(0, 5))]) for _ in range(ctx.pick(800, 10000))]
    lines += ["long " + hx(number(rng)) for _ in range(ctx.pick(1200, 15000))]
    lines += ["long " + hx(x) for x in (b"", b" ", b"0", b"-0", b"0x", b"08", b"1e3", b"0x1F", b"-0x10", b"017", b"+7", b"0b1", b"1 1", b"\xb9")]
    for n in range(0, 10):
        for m in range(0, ctx.pick(12, 14)):
            lines.append("cpy %s %d" % (hx(bytes(rng.choice(b"xyz{}") for _ in range(n))), m))
    lines += ["cpy %s %d" % (hx(bytes(rng.choice(b"xy\0z") for _ in range(rng.randint(0, 300)))), rng.choice([0, 1, 2, 5, 64, 255, 256, 257])) for _ in range(100)]
    rng.shuffle(lines)
    scripts = [lines[i:i + 40] for i in range(0, len(lines), 40)]
    vlib.conform(ctx, exe, "StringsTrace", scripts, "helpers", corrupt=vlib.num_corruptor(["trim", "split", "fmt", "low"], ["r"]))
    kinds = ["ok", "io", "corrupt", "todo", "run", "info"]
    scripts = [["st %s %s" % (k, hx(text(rng))) for k in rng.sample(kinds, 6) + [rng.choice(kinds) for _ in range(4)]] for _ in range(ctx.pick(20, 200))]
    scripts += [reports(rng) for _ in range(ctx.pick(400, 5000))]
    scripts += [binary(rng) for _ in range(ctx.pick(300, 4000))]
    vlib.conform(ctx, exe, "StringsTrace", scripts, "reports", corrupt=vlib.num_corruptor(["st"], ["ok"]))
