import struct
import vlib, nngen

ASSUMPTIONS = ["damaged matrix headers that still declare a matrix of less than 2^31 cells but more than 2^26 are not generated (allocation of that much memory may fail)"]
ES = {"vecf": 4, "veci": 4, "vecd": 8, "vecb": 1, "matf": 4, "matd": 8}
i32 = lambda v: struct.pack("<i", v)


def vec(rng, n, es):
    return b"VEC0" + i32(n * es + 4) + i32(n) + bytes(rng.randrange(256) for _ in range(n * es))


def mat(rng, r, c, es):
    return b"MAT0" + i32(8) + i32(r) + i32(c) + b"".join(vec(rng, c, es) for _ in range(r))


def fst(rng, ns):
    idx, arcs, n = [], b"", 0
    for s in range(ns):
        k = rng.choice([0, 1, 1, 2, 3])
        idx.append(n if k else -1)
        n += k
    arcs = bytes(rng.randrange(256) for _ in range(16 * n))
    return (b"pk::fst_0".ljust(32, b"\0") + i32(12 + 8 * ns + 16 * n) + i32(ns) + i32(n) + i32(rng.randrange(max(1, ns))) +
            bytes(rng.randrange(256) for _ in range(4 * ns)) + b"".join(i32(x) for x in idx) + arcs)


def net(rng):
    n = rng.choice([0, 1, 2, 3, 5])
    o = b"NN02" + i32(rng.randint(0, 20)) + i32(rng.randint(0, 20)) + i32(n)
    for _ in range(n):
        t = rng.choice([0, 0, 1, 2, 3, 6, 7, 8, 9])
        o += b"LAY0" + i32(t)
        if t == 0:
            r, c = rng.randint(1, 3), rng.randint(1, 3)
            o += mat(rng, r, c, 4) + vec(rng, c, 4)
        elif t == 6:
            k = rng.randint(0, 4)
            o += i32(k) + b"".join(i32(rng.randint(-5, 5)) for _ in range(k))
        elif t == 7:
            k = rng.randint(1, 3)
            o += vec(rng, k, 4) + vec(rng, k, 4)
        elif t == 9:
            o += i32(rng.randint(0, 5)) + i32(rng.randint(0, 5))
    return o


def valid(rng, kind):
    if kind.startswith("vec"):
        return vec(rng, rng.choice([0, 1, 2, 5, 9]), ES[kind])
    if kind.startswith("mat"):
        r, c = rng.randint(1, 4), rng.randint(1, 5)
        return mat(rng, *((0, 0) if rng.random() < .1 else (r, c)), ES[kind])
    return fst(rng, rng.choice([0, 1, 2, 4, 6])) if kind == "fst" else net(rng)


def big(b):
    """declares a matrix that is too large to be allocated here, but not refused for its size"""
    i = b.find(b"MAT0")
    while i >= 0:
        if len(b) >= i + 16:
            r, c = struct.unpack("<ii", b[i + 8:i + 16])
            if r > 0 and c > 0 and r * c < 2 ** 31 and r * (c + 3) > 2 ** 26:
                return True
        i = b.find(b"MAT0", i + 1)
    return False


def big_seq(b):
    return b.startswith(b"pk::fst") and len(b) > 44 and (struct.unpack("<i", b[32:36])[0] > 2 ** 26)


FIELD = [0, 1, -1, 2, 3, 5, 7, 8, 9, 2 ** 31 - 1, -2 ** 31, 65536, 2 ** 16 + 1, 2 ** 30, 2 ** 28, 0x10000001, 0x20000003, 12, 20, 100]


def damage(rng, b, thorough):
    """mutants of one file"""
    out = [b[:n] for n in range(len(b))]
    for i in range(min(len(b), 400)):
        for v in {b[i] ^ (1 << rng.randrange(8)), b[i] ^ 0x80, rng.choice([0, 1, 255])}:
            out.append(b[:i] + bytes([v]) + b[i + 1:])
    for i in range(0, len(b) - 3, 4):
        for v in (FIELD if thorough else rng.sample(FIELD, 6)):
            out.append(b[:i] + i32(v) + b[i + 4:])
        d = struct.unpack("<i", b[i:i + 4])[0]
        for v in (d + 1, d - 1, d + 4, d - 4, d * 2):
            if -2 ** 31 <= v < 2 ** 31:
                out.append(b[:i] + i32(v) + b[i + 4:])
    # a field change together with a matching size
    if b.startswith(b"VEC0"):
        n = struct.unpack("<i", b[8:12])[0]
        for k in (n + 1, n + 2, max(0, n - 1)):
            for es in (1, 4, 8):
                out.append(b[:4] + i32(k * es + 4) + i32(k) + b[12:])
    return [x for x in out if x != b and not big(x) and not big_seq(x)]


def odd(rng, kind):
    """files whose parts are well-formed but do not fit together"""
    es = ES.get(kind, 4)

    def ragged(r, c):
        rows = [c] * r
        for _ in range(rng.choice([1, 1, 2])):
            if r:
                rows[rng.randrange(r)] = max(0, rng.choice([c - 1, c + 1, c + 2, 0, 1, 2 * c]))
        return b"MAT0" + i32(rng.choice([8, 8, 8, 0, 12])) + i32(r) + i32(c) + b"".join(vec(rng, k, es) for k in rows)
    if kind.startswith("vec"):
        n, d = rng.randint(0, 6), rng.randint(0, 6)
        return b"VEC0" + i32(d * rng.choice([1, 4, 8, es, es]) + rng.choice([0, 4, 4, 4, 8])) + i32(n) + bytes(rng.randrange(256) for _ in range(d * es))
    if kind.startswith("mat"):
        if rng.random() < .7:
            return ragged(rng.randint(1, 6), rng.randint(1, 5))
        r, c = rng.randint(0, 3), rng.randint(0, 3)
        other = rng.choice([1, 4, 8])
        return b"MAT0" + i32(8) + i32(r) + i32(c) + b"".join(vec(rng, c, other) for _ in range(rng.choice([r, r, r + 1, max(0, r - 1)])))
    if kind == "fst":
        ns, n = rng.randint(0, 4), rng.randint(0, 4)
        dn, da = rng.choice([ns, ns, ns + 1, max(0, ns - 1)]), rng.choice([n, n, n + 1, max(0, n - 1)])
        size = 12 + 8 * rng.choice([ns, dn]) + 16 * rng.choice([n, da]) + rng.choice([0, 0, 0, 4, -4, 8, 16])
        name = rng.choice([b"pk::fst_0".ljust(32, b"\0")] * 5 + [b"pk::fst_0".ljust(31, b"\0") + b"x", b"pk::fst_0x".ljust(32, b"\0"), b"pk::fst_".ljust(32, b"\0"), b"pk::fst_0\0junk".ljust(32, b"j")])
        return name + i32(size) + i32(dn) + i32(da) + i32(rng.randint(-1, ns)) + bytes(rng.randrange(256) for _ in range(4 * ns)) + b"".join(i32(rng.randint(-1, n)) for _ in range(ns)) + bytes(rng.randrange(256) for _ in range(16 * n))
    n = rng.randint(1, 4)
    o = b"NN02" + i32(rng.randint(0, 3)) + i32(rng.randint(0, 3)) + i32(rng.choice([n, n, n + 1, max(0, n - 1)]))
    for _ in range(n):
        t = rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 9, 10, -1])
        o += rng.choice([b"LAY0"] * 9 + [b"LAY1"]) + i32(t)
        if t == 0:
            r, c = rng.randint(1, 3), rng.randint(1, 3)
            o += (ragged(r, c) if rng.random() < .4 else mat(rng, r, c, 4)) + vec(rng, rng.choice([c, c, c + 1]), 4)
        elif t == 6:
            k = rng.randint(0, 4)
            o += i32(k) + b"".join(i32(rng.randint(-5, 5)) for _ in range(rng.choice([k, k, k, k + 1])))
        elif t == 7:
            k = rng.randint(1, 3)
            o += vec(rng, k, 4) + vec(rng, rng.choice([k, k, k + 1]), 4)
        elif t == 9:
            o += i32(rng.randint(0, 5)) + i32(rng.randint(0, 5))
    return o


def check(ctx):
    rng = ctx.rng
    vlib.model(ctx, "MCModelFile", workers=8, timeout=800, consts={"MaxDim": ctx.pick(2, 2), "Vals": ctx.pick("{0, 200}", "{0, 1, 200}")})
    exe = vlib.build(ctx, "h_file", ["h_file.cc"], core=["matrix", "vector", "util", "fst", "nnet", "symbol_table", "strlcpy"], gemm=True)
    kinds = ["vecf", "veci", "vecd", "vecb", "matf", "matd", "fst", "fst", "net", "net"]
    lines = []

    def add(kind, b, intact):
        skip = rng.choice([0, 0, 0, 1, 4, 33])
        tail = b"" if not intact or rng.random() < .5 else rng.choice([b"VEC0", b"\0", b"LAY0\1\0\0\0", b"xyzw1234"])
        lines.append("read %s %d %d %s" % (kind, skip, intact, (bytes(rng.randrange(256) for _ in range(skip)) + b + tail).hex() or "-"))
    for _ in range(ctx.pick(300, 3000)):
        k = rng.choice(kinds)
        add(k, valid(rng, k), 1)
    for k in kinds:
        for _ in range(ctx.pick(3, 30)):
            for m in damage(rng, valid(rng, k), ctx.thorough):
                add(k, m, 0)
    for k in kinds:
        for _ in range(ctx.pick(60, 800)):
            add(k, odd(rng, k), 0)
    rng.shuffle(lines)
    ctx.cov["files"] = len(lines)
    n = 25
    scripts = [lines[i:i + n] for i in range(0, len(lines), n)]
    vlib.conform(ctx, exe, "ModelFileTrace", scripts, "files", corrupt=vlib.num_corruptor(["read"], ["ok", "pos", "val", "fin", "arcs", "left"]),
                 timeout=60)
