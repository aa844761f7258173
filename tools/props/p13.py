import vlib

ASSUMPTIONS = ["cells are integers below 2^24 so that float arithmetic is exact; source and destination of a copy or product do not overlap"]
LIM = 1 << 22


class Gen:
    """Tracks only shapes and magnitude bounds, not values."""
    def __init__(self, rng, maxd, dbl):
        self.rng, self.maxd, self.dbl = rng, maxd, dbl
        self.m = {i: (0, 0) for i in (1, 2, 3)}
        self.v = {i: 0 for i in (1, 2, 3)}
        self.mb = {i: 5 for i in (1, 2, 3)}
        self.vb = {i: 5 for i in (1, 2, 3)}
        self.out = ["type d"] if dbl else ["type f"]

    def rect(self, i, r=None, c=None):
        R, C = self.m[i]
        rng = self.rng
        r = r or (R if rng.random() < .3 else rng.randint(1, R))
        c = c or (C if rng.random() < .3 else rng.randint(1, C))
        if r > R or c > C:
            return None
        return (rng.randint(0, R - r), r, rng.randint(0, C - c), c)

    def place(self, n=None):
        rng = self.rng
        c = [(0, k, self.v[k]) for k in self.v if self.v[k]] + [(i, None, self.m[i][1]) for i in self.m if self.m[i][0]]
        c = [x for x in c if n is None or x[2] >= n]
        if not c:
            return None
        k, a, d = rng.choice(c)
        n = n or (d if rng.random() < .3 else rng.randint(1, d))
        if k:
            a = rng.randrange(self.m[k][0])
        return (k, a, rng.randint(0, d - n), n)

    def bound(self, p, b=None):
        t, key = (self.vb, p[1]) if p[0] == 0 else (self.mb, p[0])
        if b is not None:
            t[key] = max(t[key], b)
        return t[key]

    def step(self):
        rng = self.rng
        op = rng.choice(["resize"] * 3 + ["vresize"] * 2 + ["fill"] * 3 + ["mscale", "mzero", "mtrans", "mtrans", "mcopy", "mcopy", "mcopy",
                        "mswap", "vswap", "vmove", "vmove", "vset", "vzero", "vput", "vput", "vscale", "vadd", "vcopy", "vcopy",
                        "vaddv", "vmul", "vfloor", "vdot", "mmul", "mmul"])
        s = lambda *a: self.out.append(" ".join(" ".join(map(str, x)) if isinstance(x, (tuple, list)) else str(x) for x in a))
        D = self.maxd
        full = [i for i in self.m if self.m[i][0]]
        val = lambda: rng.choice([0, 1, -1, 2, 3, rng.randint(-50, 50)])
        if op == "resize":
            i = rng.choice([1, 2, 3])
            if rng.random() < .1:
                r = c = 0
            elif rng.random() < .15 and self.m[i][0]:
                r, c = self.m[i]
            elif rng.random() < .3:
                r = c = rng.randint(1, D)
            else:
                r, c = rng.randint(1, D), rng.randint(1, D)
            k = rng.choice([0, 1, 2, 2])
            s(op, i, r, c, k, rng.randint(0, 1))
            self.m[i] = (r, c)
            if k != 2:
                self.mb[i] = 5
        elif op == "vresize":
            i = rng.choice([1, 2, 3])
            n, k = rng.choice([0] + list(range(1, D + 1)) * 2 + [self.v[i]]), rng.choice([0, 1, 2, 2])
            s(op, i, n, k)
            self.v[i] = n
        elif op == "fill" and full:
            i = rng.choice(full)
            x = self.rect(i)
            s(op, i, x, [val() for _ in range(x[1] * x[3])])
            self.mb[i] = max(self.mb[i], 50)
        elif op in ("mscale", "mzero") and full:
            i = rng.choice(full)
            x = self.rect(i)
            if op == "mzero":
                s(op, i, x)
            else:
                k = rng.choice([0, 1, -1, 2, -3])
                if self.mb[i] * 3 > LIM:
                    return
                self.mb[i] *= max(1, abs(k))
                s(op, i, x, k)
        elif op == "mtrans" and full:
            i = rng.choice(full)
            n = min(self.m[i])
            n = n if rng.random() < .5 else rng.randint(1, n)
            s(op, i, self.rect(i, n, n))
        elif op == "mcopy" and len(full) > 1:
            i, j = rng.sample(full, 2)
            y = self.rect(j)
            tr = rng.randint(0, 1)
            x = self.rect(i, *( (y[3], y[1]) if tr else (y[1], y[3])))
            if not x:
                return
            s(op, i, x, j, y, tr)
            self.mb[i] = max(self.mb[i], self.mb[j])
        elif op == "mswap":
            i, j = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
            s(op, i, j)
            self.m[i], self.m[j] = self.m[j], self.m[i]
            self.mb[i], self.mb[j] = self.mb[j], self.mb[i]
        elif op == "vswap":
            i, j = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
            s(op, i, j)
            self.v[i], self.v[j] = self.v[j], self.v[i]
            self.vb[i], self.vb[j] = self.vb[j], self.vb[i]
        elif op == "vmove":
            i, j = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
            s(op, i, j, rng.randint(0, 1))
            if i != j:
                self.v[i], self.v[j] = self.v[j], 0
                self.vb[i] = self.vb[j]
        elif op == "mmul" and len(full) == 3 and not self.dbl:
            i, j, k = rng.sample(full, 3)
            kk = min(self.m[j][1], self.m[k][0])
            kk = kk if rng.random() < .6 else rng.randint(1, kk)
            rr = min(self.m[i][0], self.m[j][0])
            cc = min(self.m[i][1], self.m[k][1])
            rr = rr if rng.random() < .6 else rng.randint(1, rr)
            cc = cc if rng.random() < .6 else rng.randint(1, cc)
            b = self.mb[j] * self.mb[k] * kk
            if b > LIM:
                return
            s(op, i, self.rect(i, rr, cc), j, self.rect(j, rr, kk), k, self.rect(k, kk, cc), rng.randint(0, 1))
            self.mb[i] = max(self.mb[i], b)
        elif op in ("vset", "vzero", "vput", "vscale", "vadd", "vfloor"):
            p = self.place()
            if not p:
                return
            b = self.bound(p)
            if op == "vset":
                s(op, p, val())
                self.bound(p, 50)
            elif op == "vzero":
                s(op, p)
            elif op == "vput":
                s(op, p, [val() for _ in range(p[3])])
                self.bound(p, 50)
            elif op == "vscale" and b * 3 < LIM:
                s(op, p, rng.choice([0, 1, -1, 2, -3]))
                self.bound(p, b * 3)
            elif op == "vadd" and b + 50 < LIM:
                s(op, p, val())
                self.bound(p, b + 50)
            elif op == "vfloor":
                s(op, p, val())
                self.bound(p, 50)
        elif op in ("vcopy", "vaddv", "vmul", "vdot"):
            p = self.place()
            q = p and self.place(p[3])
            if not p or not q:
                return
            same = p[:2] == q[:2]
            bp, bq = self.bound(p), self.bound(q)
            overlap = same and p[2] < q[2] + q[3] and q[2] < p[2] + p[3]
            if op != "vdot" and overlap:
                return
            if op == "vcopy":
                s(op, p, q)
                self.bound(p, bq)
            elif op == "vaddv" and bp + 3 * bq < LIM:
                s(op, p, q, rng.choice([1, 1, -1, 2, -3, 0]))
                self.bound(p, bp + 3 * bq)
            elif op == "vmul" and bp * bq < LIM:
                s(op, p, q)
                self.bound(p, bp * bq)
            elif op == "vdot" and bp * bq * p[3] < LIM:
                s(op, p, q)


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "MatImpl", consts={"Depth": ctx.pick(3, 4)}, workers=8, timeout=850)
    exe = vlib.build(ctx, "h_mat", ["h_mat.cc"], core=["matrix", "vector", "util"], gemm=True)
    scripts = []
    for _ in range(ctx.pick(250, 2500)):
        g = Gen(rng, rng.choice([2, 3, 4, 5, 8, 11]), rng.random() < .3)
        while len(g.out) < 40:
            g.step()
        scripts.append(g.out)
    for _ in range(ctx.pick(40, 400)):
        g = Gen(rng, rng.choice([17, 20, 33, 40]), rng.random() < .3)
        while len(g.out) < 16:
            g.step()
        n = rng.choice([17, 19, 32, 33, 40])
        g.m[1], g.mb[1] = (n, n), 50
        g.out += ["resize 1 %d %d 1 0" % (n, n), "fill 1 0 %d 0 %d %s" % (n, n, " ".join(str(rng.randint(-99, 99)) for _ in range(n * n)))]
        k = rng.randint(17, n)
        g.out.append("mtrans 1 %d %d %d %d" % (rng.randint(0, n - k), k, rng.randint(0, n - k), k))
        scripts.append(g.out)
    # products over every small shape, with both strides and both implementations
    dims = [1, 2, 3, 4, 5, 8, 9, 16, 17]
    shapes = [(a, b, c) for a in dims for b in dims for c in dims]
    rng.shuffle(shapes)
    groups = [shapes[i:i + 6] for i in range(0, ctx.pick(120, len(shapes)), 6)]
    groups += [[(rng.choice([1, 2, 40, 70]), rng.choice([33, 64, 129, 260]), rng.choice([1, 7, 40, 65]))] for _ in range(ctx.pick(6, 40))]
    for group in groups:
        o = []
        for a, k, c in group:
            v = lambda n: " ".join(str(rng.randint(-9, 9)) for _ in range(n))
            for how in (0, 1):
                o += ["resize 1 %d %d 0 %d" % (a, k, rng.randint(0, 1)), "fill 1 0 %d 0 %d %s" % (a, k, v(a * k)),
                      "resize 2 %d %d 0 %d" % (k, c, rng.randint(0, 1)), "fill 2 0 %d 0 %d %s" % (k, c, v(k * c)),
                      "resize 3 %d %d 1 %d" % (a, c, rng.randint(0, 1)),
                      "mmul 3 0 %d 0 %d 1 0 %d 0 %d 2 0 %d 0 %d %d" % (a, c, a, k, k, c, how), "resize 1 0 0 0 0", "resize 2 0 0 0 0"]
        scripts.append(o)
    ops = ["resize", "vresize", "fill", "mcopy", "mtrans", "mmul", "vaddv", "vfloor", "vdot", "mswap", "vmove"]
    vlib.conform(ctx, exe, "MatTrace", scripts, "values", corrupt=vlib.num_corruptor(ops, ["m", "v", "ret"]), timeout=20)
