import vlib

ASSUMPTIONS = ["tables of at most 200000 elements, of which 70000 collide"]


def bulk(rng, kind, cap, n):
    """tens of thousands of elements, with kind const all in one probe sequence"""
    lo = rng.randrange(-40000, 10)
    s = ["tab %d %s" % (cap, kind), "ir %d %d 3 1" % (lo, lo + n - 1), "f %d -7" % (lo - 1), "f %d -7" % (lo + n), "all %d %d %d -1" % (lo - 5 * (n // 300), lo + n + 1000, n // 300)]
    k = lo + rng.randrange(n // 2)
    s += ["ir %d %d 1 5" % (k, k + 50), "all %d %d 1 -1" % (k - 20, k + 70), "i %d 4" % (lo + n), "f %d 0" % (lo + n), "f %d -7" % (lo + n + 1)]
    if rng.random() < .5:
        s += ["x", "all %d %d %d -1" % (lo, lo + n, n // 20), "i 3 4", "f 3 0"]
    return s


def random_script(rng, n, big):
    kind = rng.choice(["int", "int", "const", "div", "pair", "default"])
    s = ["tab %d %s" % (rng.choice([0, 1, 2, 3, 4, 5, 6, 11, 12, 100, 1000, 1500]), kind)]
    rngk = rng.choice([3, 10, 40, 300, 5000])
    mult = rng.choice([1, 1, 1, 5, 11, 37, 257])
    if kind == "const":
        n = min(n, 200)
    lo = -rngk if rng.random() < .7 else 0
    used = []
    for _ in range(n):
        r = rng.random()
        if r < .02:
            s.append("x")
        elif r < .55 or not used:
            k = rng.randint(lo, rngk) * mult
            if rng.random() < .03 and kind in ("int", "pair"):
                k = rng.choice([2**31 - 1, -2**31 + 1, 2**30, 65536, -65536, 65537 * 3])
            used.append(k)
            s.append("i %d %d" % (k, rng.randint(-5, 100000)))
        else:
            k = rng.choice(used) if rng.random() < .6 else rng.randint(lo - 3, rngk + 3) * mult
            s.append("f %d %d" % (k, rng.choice([-1, 0, 7])))
    if rngk <= 300:
        s.append("all %d %d %d -1" % (lo * mult, rngk * mult, mult))
    return s


def fill_script(rng, kind, cap, n):
    """grow across many table sizes, checking everything after each growth"""
    s = ["tab %d %s" % (cap, kind)]
    ks = list(range(-n // 2, n - n // 2))
    rng.shuffle(ks)
    for j, k in enumerate(ks):
        s.append("i %d %d" % (k, k * 3 + 1))
        if j & (j + 1) == 0 or rng.random() < .01:
            s.append("all %d %d 1 -999" % (-n // 2 - 2, n - n // 2 + 2))
    s.append("all %d %d 1 -999" % (-n // 2 - 2, n - n // 2 + 2))
    s.append("x")
    s.append("all %d %d 1 -999" % (-n // 2 - 2, n - n // 2 + 2))
    s.append("i 5 6")
    s.append("all -20 20 1 -999")
    return s


def check(ctx):
    for hd in (0, 2, 100):
        for ip in (1, 3):
            vlib.model(ctx, "HashImpl", consts={"HashDiv": hd, "InitPrime": ip, "Depth": ctx.pick(5, 7)}, workers=8)
    exe = vlib.build(ctx, "h_hash", ["h_hash.cc"], core=["hashtable"])
    corr = vlib.num_corruptor(["find", "all"], ["v", "vs"])
    beh = vlib.model(ctx, "HashImpl", consts={"KeyNums": "{2, 3, 5, 8}", "Vals": "{1, 2}", "Depth": ctx.pick(4, 5), "DoPrint": "TRUE"},
                     workers=8, collect="BEH")
    scripts = []
    for b in beh:
        s = ["tab %d %s" % (ctx.rng.choice([0, 1, 2, 3, 5]), ctx.rng.choice(["int", "const", "div", "pair"]))]
        for e in b:
            s.append(" ".join(map(str, e)))
            s.append("f %d -9" % ctx.rng.choice([-1, 0, 2, 5, 7]))
        s += ["all -3 6 1 -9"]
        scripts.append(s)
    joined = [sum(scripts[i:i + 20], []) for i in range(0, len(scripts), 20)]
    vlib.conform(ctx, exe, "HashTrace", joined, "enumerated", corrupt=corr)
    rs = [random_script(ctx.rng, ctx.rng.choice([20, 100, 400]), False) for _ in range(ctx.pick(150, 2500))]
    for kind, n in (("int", 1500), ("const", 300), ("div", 700), ("pair", 1200)):
        for cap in (0, 3, 17):
            rs.append(fill_script(ctx.rng, kind, cap, n if ctx.thorough else n // 2))
    vlib.conform(ctx, exe, "HashTrace", rs, "random", corrupt=corr, timeout=30)
    rs = [bulk(ctx.rng, k, c, n) for k, c, n in ctx.pick([("const", 4, 32768), ("const", 70000, 65000), ("const", 0, 33000), ("div", 3, 150000), ("pair", 17, 150000), ("int", 0, 200000)],
                                                     [("const", 4, 67000), ("const", 40000, 32769), ("const", 140000, 66000), ("const", 4, 32768), ("const", 0, 65000), ("div", 3, 200000), ("pair", 17, 200000), ("int", 0, 200000)])]
    vlib.conform(ctx, exe, "HashTrace", rs, "bulk", timeout=200)
