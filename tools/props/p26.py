"""conv_chartok.sh is run as a program; input text, output text and the output of a second run are the trace."""
import os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import vlib

ASSUMPTIONS = ["texts are valid UTF-8 and contain no blank characters outside ASCII"]
TOOL = vlib.REPO + "/tool/conv_chartok.sh"
MARKS = ["[noise]", "<unk>", "!SIL", "<s>", "</s>", "[", "]", "<", ">", "a[b]c", "]x[", "><", "<>", "[]", "!SI", "SIL!SIL", "a!SILb", "[<]>",
         "!sil", "[[", "<a", "b>", "$x", "%d", "\\n", "a\"b", "'", "!", "{}", "#", "@F", "a>b<c>", "[]]", "(x)", "!!SIL"]
CHARS = "abzAZ09_-.,!<>[]$@%\\'\"#" + "\u4f60\u597d\u4e16\u754c\u00e9\u00df\u0416\u3042\uac00\U00020000\U0001f600"


def word(rng):
    r = rng.random()
    if r < .25:
        return rng.choice(MARKS)
    if r < .35:
        return "".join(rng.choice(["[", "]", "<", ">", "!SIL", "a", "\u4f60"]) for _ in range(rng.randint(1, 6)))
    return "".join(rng.choice(CHARS) for _ in range(rng.choice([1, 1, 2, 3, 5, 12])))


def text(rng, lines=None, words=None):
    out = []
    for k in range(rng.randint(0, 8) if lines is None else lines):
        ws = ["utt%d" % k if rng.random() < .7 else word(rng)]
        ws += [word(rng) for _ in range(rng.choice([0, 1, 2, 4, 9]) if words is None else words)]
        if rng.random() < .08:
            ws = []
        sep = lambda: " " if rng.random() < .9 else rng.choice(["  ", "\t", " \t ", "\x0b", "\x0c", "\r"])
        s = "".join(w + sep() for w in ws)
        if rng.random() < .8:
            s = s.strip(" \t\r\x0b\x0c")
        if rng.random() < .05:
            s = sep() + s
        out.append(s + ("\r" if rng.random() < .05 else ""))
    t = "\n".join(out)
    return t + ("\n" if t and rng.random() < .8 else "")


def convert(d, a, b):
    try:
        r = subprocess.run(["bash", TOOL, a, b], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                           env=dict(os.environ, LC_ALL="C"))
        got = open(os.path.join(d, b), "rb").read().decode("utf-8")
        return r.returncode == 0 and not r.stdout, got
    except (OSError, subprocess.TimeoutExpired, UnicodeDecodeError):
        return False, ""


def one(ctx, t):
    d = tempfile.mkdtemp(dir=ctx.tmp)
    open(os.path.join(d, "hyp.txt"), "wb").write(t.encode("utf-8"))
    cp = lambda s: [ord(c) for c in s]
    ok, o = convert(d, "hyp.txt", "chars.txt")
    ok2, o2 = convert(d, "chars.txt", "again.txt")
    ok = ok and open(os.path.join(d, "hyp.txt"), "rb").read() == t.encode("utf-8")
    shutil.rmtree(d)
    return [{"op": "new"}, {"op": "conv", "in": cp(t), "ok": ok, "out": cp(o)}, {"op": "again", "ok": ok2, "out": cp(o2)}]


def check(ctx):
    rng = ctx.rng
    beh = vlib.model(ctx, "MCCharTok", consts={"DoPrint": "TRUE"}, collect="BEH", workers=4)
    vlib.model(ctx, "MCCharTok", consts={"MaxLen": ctx.pick(5, 6), "Codes": "{97, 32, 10, 60, 62, 91, 93}"}, workers=8, timeout=850)
    vlib.model(ctx, "MCCharTok", consts={"MaxLen": 8, "Codes": "{33, 83, 73, 76}" if ctx.pick(1, 0) else "{33, 83, 73, 76, 32}"}, workers=8, timeout=850)
    vlib.model(ctx, "MCCharTok", consts={"Greedy": "TRUE", "MaxLen": 7, "Codes": "{97, 32, 91, 93}"}, workers=8, expect_violation="Same")
    texts = ["".join(map(chr, b)) for b in beh]
    files = [t for t in texts if len(t) <= 2]                       # each for itself
    rest = [t for t in texts if len(t) > 2]
    files += ["\n".join(rest[i:i + 60]) for i in range(0, len(rest), 60)]
    files += [text(rng) for _ in range(ctx.pick(250, 3000))]
    files += [text(rng, lines=1, words=300), text(rng, lines=300, words=2), "u " + "x" * 1500 + " y\n", "u [" + "x" * 1500 + "] y\n", "u1 " + "\u4f60" * 700]
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        evs = list(ex.map(lambda t: one(ctx, t), files))
    ctx.log("ran %d conversions" % (2 * len(evs)))
    traces = [([repr(t)[:300]], e) for t, e in zip(files, evs)]
    vlib.check_traces(ctx, "CharTokTrace", traces, "chartok", lambda s: next((s, one(ctx, t)) for t in files if repr(t)[:300] == s[0]),
                      corrupt=vlib.num_corruptor(("conv", "again"), ("out",)))
