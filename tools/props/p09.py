import struct
import vlib

ASSUMPTIONS = ["headers with more than one channel, widths that are not a multiple of 8 bits, or byte rates from 2^31 to 2^32 are left open"]


def header(rate=16000, bits=16, ch=1, fmt=1, size1=16, riff=b"RIFF", wave=b"WAVE", fm=b"fmt ", data=b"data",
           brate=None, align=None, csize=0x1234, dsize=99):
    if brate is None:
        brate = (rate * bits // 8)
    if align is None:
        align = bits // 8
    m32 = lambda v: struct.pack("<I", v & 0xffffffff)
    m16 = lambda v: struct.pack("<H", v & 0xffff)
    return (riff + m32(csize) + wave + fm + m32(size1) + m16(fmt) + m16(ch) + m32(rate) + m32(brate) + m16(align) +
            m16(bits) + data + m32(dsize))


def files(ctx):
    rng = ctx.rng
    out = []
    tail = bytes([0, 2, 3, 255, 0, 6, 7, 8, 9])
    for bits in (8, 16, 32):
        h = header(bits=bits)
        for n in range(45):
            out.append(h[:n])
        out.append(h + tail)
    base = header() + tail
    vals = range(256) if ctx.thorough else [0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 24, 32, 64, 100, 127, 128, 129, 254, 255]
    for n in range(44):
        for v in sorted(set(list(vals) + [base[n] ^ 1, base[n] ^ 32, base[n] ^ 128, (base[n] + 1) % 256])):
            b = bytearray(base)
            b[n] = v
            out.append(bytes(b))
    for _ in range(ctx.pick(1500, 20000)):
        k = {}
        if rng.random() < .7:
            k["rate"] = rng.choice([16000, 16000, 8000, 44100, 48000, 16001, 0, 1, 192000, 2**20, 15999, 2**31 - 1, -16000])
        k["bits"] = rng.choice([8, 16, 32, 16, 24, 64, 12, 0, 40, 4, 128])
        if rng.random() < .15:
            k["ch"] = rng.choice([0, 2, 6, 255, 256, -1])
        if rng.random() < .15:
            k["fmt"] = rng.choice([0, 2, 3, 6, 7, 65534, 257])
        if rng.random() < .15:
            k["size1"] = rng.choice([0, 14, 18, 40, 272, 16 + 65536, 15, 17, -1])
        for t in ("riff", "wave", "fm", "data"):
            if rng.random() < .07:
                k[t] = rng.choice([b"RIFX", b"LIST", b"fact", b"WAVE", b"RIFF", b"data", b"fmt ", b"fmt\0", b"DATA", b"\0\0\0\0"])
        if rng.random() < .2:
            k["brate"] = rng.choice([32000, 16000, 64000, 0, 1, 8000, 32001])
        if rng.random() < .2:
            k["align"] = rng.choice([0, 1, 2, 4, 3, 258])
        if rng.random() < .2:          # products beyond 32 bits, also with the byte rate of an overflowing product
            k["rate"] = rng.choice([2**24, 2**26, 2**27 + 2000, 2**28, 2**28 + 16000, 2**29, 2**30, 2**31 - 1, 2**30 + 4000])
            w = (k["rate"] * k["bits"] + 2**31) % 2**32 - 2**31
            if rng.random() < .6:
                k["brate"] = int(w / 8)
        k["csize"] = rng.choice([0, 36, 2**31, 2**32 - 1, 1000])
        k["dsize"] = rng.choice([0, 1, 2**31, 2**32 - 1, 1000])
        b = header(**k)
        n = rng.choice([0, 1, 2, 3, 4, 5, 8, 20, 60])
        body = bytes(rng.choice([0, 0, 255, 255, rng.randrange(256)]) for _ in range(n))
        if k["bits"] == 32:            # samples that a float holds exactly
            body = b"".join(bytes([rng.randrange(256), rng.randrange(256), rng.randrange(256),
                                   rng.choice([0, 255])]) for _ in range(n // 4)) + bytes(n % 4)
        b += body
        if rng.random() < .1:
            b = b[:rng.randrange(len(b) + 1)]
        out.append(b)
    return out


def check(ctx):
    vlib.model(ctx, "MCWavHeader")
    exe = vlib.build(ctx, "h_pcm", ["h_pcm.cc"], core=vlib.CORE, openfst=True, gemm=True)
    fs = files(ctx)
    scripts = []
    for i in range(0, len(fs), 6):
        scripts.append(["file " + (f.hex() or "-") for f in fs[i:i + 6]])
    corr = vlib.num_corruptor(["hdr", "chdr", "wav"], ["ok", "ch", "rate", "bits", "rest", "pos", "out"])
    ctx.cov["files"] = len(fs)
    vlib.conform(ctx, exe, "WavHeaderTrace", scripts, "headers", corrupt=corr)
