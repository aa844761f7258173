"""Common machinery: build harnesses from /repo's working tree, run TLC models, run scripts in the
harness, validate recorded traces against the TLA+ trace specifications."""
import os, sys, re, json, time, shutil, subprocess, tempfile, random, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
EVID = os.path.join(ROOT, "evidence")
NCPU = max(2, min(8, os.cpu_count() or 2))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

CORE = ["util", "fst", "matrix", "pcm_reader", "decoder", "srfft", "fbank", "strlcpy", "cmvn", "nnet",
        "am", "vector", "symbol_table", "ce_stt", "hashtable", "configuration"]
OPENFST = ["compat", "flags", "fst", "mapped-file", "properties", "symbol-table",
           "symbol-table-ops", "weight", "util"]
GEMM = ["gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm"]


class CheckError(Exception):
    """The check itself could not run (exit code 2: no verdict)."""


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "models": {}, "events_validated": 0, "scripts": {}, "selftest_rejections": 0}
        self.assumptions = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


# ----------------------------------------------------------------------------- build

def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(ctx, name, sources, core=(), openfst=False, gemm=False, san="address", opt="-O1", extra=(),
          main_from=None, link=()):
    """Compile harness sources + the named engine sources from /repo into an executable."""
    san_flags = []
    if san:
        san_flags = ["-fsanitize=" + san, "-fno-omit-frame-pointer"]
    flags = ["-std=c++11", "-g1", opt, "-w", "-pthread"] + list(extra)
    inc = ["-I" + REPO + "/src", "-I" + REPO + "/src/openfst/include", "-I" + REPO + "/src/gemmlowp",
           "-I" + HARN]
    cache = os.environ.get("VERIF_CACHE")          # development only
    outdir = os.path.join(ctx.tmp, "obj-" + name)
    os.makedirs(outdir, exist_ok=True)
    hdr = ""
    if cache:
        os.makedirs(cache, exist_ok=True)
        h = hashlib.sha1()
        for base in (REPO + "/src", HARN):
            for dp, dn, fn in sorted(os.walk(base)):
                for f in sorted(fn):
                    if f.endswith(".h"):
                        h.update(open(os.path.join(dp, f), "rb").read())
        hdr = h.hexdigest()

    def comp(job):
        src, sf = job
        obj = os.path.join(outdir, re.sub(r"[^A-Za-z0-9]", "_", src) + ".o")
        if os.path.exists(obj):
            return obj, None
        cmd = ["g++", "-c", src, "-o", obj] + flags + sf + inc
        key = None
        if cache:
            key = os.path.join(cache, hashlib.sha1((hdr + " ".join(flags + sf) + src).encode() +
                                                   open(src, "rb").read()).hexdigest() + ".o")
            if os.path.exists(key):
                return key, None
        r = _run(cmd)
        if r.returncode != 0:
            return obj, r.stdout
        if key:
            shutil.copy(obj, key + ".tmp%d" % os.getpid())
            os.rename(key + ".tmp%d" % os.getpid(), key)
        return obj, None

    def attempt(core, openfst, gemm):
        jobs = [(os.path.join(HARN, s), san_flags) for s in sources]
        jobs += [(s if s.startswith("/") else REPO + "/src/" + s + ".cc", san_flags) for s in core]
        jobs += [(REPO + "/src/" + s + ".cc", san_flags) for s in ([main_from] if main_from else [])]
        if openfst:
            jobs += [(REPO + "/src/openfst/lib/" + s + ".cc", []) for s in OPENFST]
        if gemm:
            jobs += [(REPO + "/src/" + s + ".cc", []) for s in GEMM]
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(comp, jobs))
        for obj, err in res:
            if err:
                raise CheckError("compilation failed:\n" + err[-4000:])
        exe = os.path.join(ctx.tmp, name)
        cmd = ["g++", "-o", exe] + [o for o, _ in res] + san_flags + ["-pthread", "-ldl"] + list(link)
        if gemm:
            cmd += ["-lopenblas"]
        cmd += ["-lm"]
        r = _run(cmd)
        return exe, (r.stdout if r.returncode != 0 else None)

    exe, err = attempt(core, openfst, gemm)
    if err:
        # the working tree may have moved code between files: link everything
        every = sorted(os.path.join(REPO, "src", f) for f in os.listdir(REPO + "/src")
                       if f.endswith(".cc") and f != "main.cc")
        exe, err2 = attempt(every, True, True)
        if err2:
            raise CheckError("link failed:\n" + err[-2000:] + err2[-2000:])
    ctx.log("built", name)
    return exe


# ----------------------------------------------------------------------------- TLC

def _java(args, cwd, timeout, env=None, heap="3g", gc="-XX:+UseParallelGC"):
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    tmpd = tempfile.mkdtemp(prefix="jtmp-", dir=args[args.index("-metadir") + 1])
    cmd = ["java", gc, "-Djava.io.tmpdir=" + tmpd, "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC"] + args
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out: " + " ".join(args))
    return r.returncode, r.stdout


_re_states = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def model(ctx, name, cfg=None, workers=4, timeout=600, collect=None, heap="4g", simulate=None,
          deadlock=False, consts=None, expect_violation=None):
    """Model-check spec/<name>.tla with spec/<cfg>.cfg. Returns printed lines starting with `collect`.
    consts: dict of CONSTANT overrides, written into a generated cfg."""
    cfg = cfg or name
    meta = tempfile.mkdtemp(prefix="meta-", dir=ctx.tmp)
    cfgpath = os.path.join(SPEC, cfg + ".cfg")
    if consts:
        txt = open(cfgpath).read()
        for k, v in consts.items():
            txt, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=).*$" % re.escape(k), r"\g<1> %s" % v, txt)
            if n != 1:
                raise CheckError("constant %s not found in %s" % (k, cfgpath))
        cfgpath = os.path.join(meta, cfg + ".cfg")
        open(cfgpath, "w").write(txt)
    args = ["-config", cfgpath, "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE"]
    if not deadlock:
        args += ["-deadlock"]
    if simulate:
        args += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(ctx.seed)]
    args += [name + ".tla"]
    t = time.time()
    rc, out = _java(args, SPEC, timeout, heap=heap)
    m = None
    for m in _re_states.finditer(out):
        pass
    if expect_violation:
        # a deliberately wrong variant of the model: the invariants must notice it
        if not re.search(r"Invariant (%s) is violated" % expect_violation, out):
            raise CheckError("model %s %s: no violation of %s found" % (name, consts, expect_violation))
        ctx.cov["models"][cfg + ":" + ",".join("%s=%s" % kv for kv in (consts or {}).items())] = {"expected_violation": expect_violation, "wall_s": round(time.time() - t, 1)}
        ctx.log("model %s %s: wrong variant rejected" % (cfg, consts))
        return []
    if rc != 0:
        tail = "\n".join(l for l in out.splitlines() if not (collect and l.startswith('"' + collect)))[-3000:]
        raise CheckError("model %s (%s) did not pass:\n%s" % (name, cfg, tail))
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    lines = []
    if collect:
        for l in out.splitlines():
            if l.startswith('"' + collect):
                s = json.loads(l) if l.endswith('"') else None
                if s is not None:
                    lines.append(json.loads(s[len(collect):]))
    ctx.cov["states"] += dist
    ctx.cov["transitions"] += gen
    label = cfg if not consts else cfg + ":" + ",".join("%s=%s" % kv for kv in consts.items())
    ctx.cov["models"][label] = {"states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1)}
    if collect:
        ctx.cov["models"][label]["behaviours"] = len(lines)
    ctx.log("model %s: %d distinct states, %d transitions%s" % (label, dist, gen,
            ", %d behaviours" % len(lines) if collect else ""))
    return lines


def _validate_one(ctx, tla, path, timeout, heap, env):
    """Returns (accepted, matched_events, output)."""
    meta = tempfile.mkdtemp(prefix="tv-", dir=ctx.tmp)
    args = ["-config", os.path.join(SPEC, tla + ".cfg"), "-metadir", meta, "-workers", "1",
            "-noGenerateSpecTE", "-deadlock", tla + ".tla"]
    e = {"TRACE": path}
    e.update(env or {})
    rc, out = _java(args, SPEC, timeout, env=e, heap=heap, gc="-XX:+UseSerialGC")
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"TRACE-MATCHED (\d+) OF (\d+)", out)
    if not m:
        # an invariant violation or an evaluation error at some step
        if re.search(r"Invariant \w+ is violated", out):
            mm = re.findall(r"(?m)^/\\ l = (\d+)", out)
            return False, int(mm[-1]) - 1 if mm else 0, out
        if "The error occurred when TLC was evaluating" in out and "StackOverflow" not in out and "OutOfMemory" not in out:
            # a logged value for which the specification has no meaning (e.g. a state that does not exist)
            st = re.findall(r"(?m)^State (\d+):", out)
            return False, int(st[-1]) - 1 if st else 0, out
        raise CheckError("trace validation %s gave no verdict:\n%s" % (tla, out[-3000:]))
    matched, total = int(m.group(1)), int(m.group(2))
    return matched == total, matched, out


def validate(ctx, tla, traces, timeout=800, heap="2g", env=None, chunks=None, label=None):
    """traces: list of (script, [event dict, ...]). Every list of events starts with its own 'new'
    event. Raises Violation on the first trace the specification does not explain."""
    if not traces:
        raise CheckError("no traces to validate")
    nev = sum(len(t[1]) for t in traces)
    k = chunks or max(1, min(NCPU, nev // 400 + 1))
    size = (nev + k - 1) // k
    groups, cur, n = [], [], 0
    for t in traces:
        cur.append(t)
        n += len(t[1])
        if n >= size:
            groups.append(cur)
            cur, n = [], 0
    if cur:
        groups.append(cur)

    def work(gi):
        g = groups[gi]
        path = os.path.join(ctx.tmp, "trace-%s-%d-%d.ndjson" % (tla, gi, random.getrandbits(40)))
        with open(path, "w") as f:
            for _, evs in g:
                for e in evs:
                    f.write(json.dumps(e, separators=(",", ":")) + "\n")
        ok, matched, out = _validate_one(ctx, tla, path, timeout, heap, env)
        os.unlink(path)
        if ok:
            return None
        pos = 0
        for script, evs in g:
            if matched < pos + len(evs):
                return script, evs, matched - pos, out
            pos += len(evs)
        return g[-1][0], g[-1][1], len(g[-1][1]) - 1, out

    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(work, range(len(groups))))
    bad = [r for r in res if r]
    ctx.cov["traces_validated_against_impl"] += len(traces) - len(bad)
    ctx.cov["events_validated"] += nev
    ctx.log("validated %d traces / %d events against %s: %d rejected" % (len(traces), nev, tla, len(bad)))
    return bad


def selftest(ctx, tla, traces, corrupt, env=None, n=3):
    """corrupt(events, rng) -> corrupted copy or None. Every corrupted trace must be rejected."""
    done = 0
    cand = list(traces)
    ctx.rng.shuffle(cand)
    jobs = []
    for script, evs in cand:
        c = corrupt(json.loads(json.dumps(evs)), ctx.rng)
        if c is not None and c != evs:
            jobs.append(c)
            if len(jobs) >= n:
                break
    if not jobs:
        raise CheckError("self test: no corruptible trace for " + tla)

    def work(c):
        path = os.path.join(ctx.tmp, "self-%s-%d.ndjson" % (tla, random.getrandbits(40)))
        with open(path, "w") as f:
            for e in c:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        ok, _, _ = _validate_one(ctx, tla, path, 300, "1g", env)
        return ok

    with ThreadPoolExecutor(NCPU) as ex:
        for c, ok in zip(jobs, ex.map(work, jobs)):
            if ok:
                raise CheckError("self test: %s accepted a corrupted trace: %s" % (tla, json.dumps(c)[:1500]))
            done += 1
    ctx.cov["selftest_rejections"] += done
    ctx.log("self test: %d corrupted traces rejected by %s" % (done, tla))


# ----------------------------------------------------------------------------- harness

def run_scripts(ctx, exe, scripts, timeout=10, env=None, label="scripts", args=()):
    """scripts: list of lists of lines. Returns list of (script, events). Split over NCPU processes;
    each script runs in its own child of the harness process (see harness/vh.h)."""
    k = max(1, min(NCPU, len(scripts)))
    parts = [scripts[i::k] for i in range(k)]
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["VH_TIMEOUT"] = str(timeout)
    e.update(env or {})

    def work(i):
        sp = os.path.join(ctx.tmp, "scr-%s-%d-%d" % (label, i, random.getrandbits(40)))
        with open(sp, "w") as f:
            for s in parts[i]:
                f.write("BEGIN\n")
                for l in s:
                    f.write(l + "\n")
                f.write("END\n")
        wd = tempfile.mkdtemp(prefix="wd-", dir=ctx.tmp)
        try:
            r = subprocess.run([exe, sp, sp + ".out"] + list(args), cwd=wd, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=850, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("harness timed out")
        shutil.rmtree(wd, ignore_errors=True)
        if r.returncode != 0:
            raise CheckError("harness failed (%d): %s" % (r.returncode, r.stdout[-2000:]))
        groups, cur = [], None
        with open(sp + ".out") as f:
            for l in f:
                l = l.strip()
                if not l:
                    continue
                try:
                    ev = json.loads(l)
                except ValueError:
                    # torn line of a crashed child
                    continue
                if ev["op"] == "new":
                    cur = []
                    groups.append(cur)
                cur.append(ev)
        os.unlink(sp)
        os.unlink(sp + ".out")
        if len(groups) != len(parts[i]):
            raise CheckError("harness returned %d traces for %d scripts" % (len(groups), len(parts[i])))
        return groups, r.stdout

    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(work, range(k)))
    out = [None] * len(scripts)
    for i, (groups, so) in enumerate(res):
        for j, g in enumerate(groups):
            out[i + j * k] = (parts[i][j], g)
    ctx.cov["scripts"][label] = ctx.cov["scripts"].get(label, 0) + len(scripts)
    return out


def replay_file(ctx, name, script, events, pos, out):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (ctx.prop, name))
    tail = [l for l in out.splitlines() if l.strip()][-60:] if out else []
    with open(path, "w") as f:
        json.dump({"property": ctx.prop, "seed": ctx.seed, "tier": ctx.tier, "script": script,
                   "rejected_event_index": pos,
                   "rejected_event": events[pos] if events and 0 <= pos < len(events) else None,
                   "events": events, "tlc_output_tail": tail}, f, indent=1)
    return path


def conform(ctx, exe, tla, scripts, label, corrupt=None, timeout=10, env=None, tenv=None, sample=None,
            run_env=None, keep=None, heap="2g"):
    """run scripts -> validate traces -> on rejection re-run the script once more and, if it is
    rejected again, raise Violation."""
    traces = run_scripts(ctx, exe, scripts, timeout=timeout, env=run_env, label=label)
    if keep is not None:
        keep.extend(traces)
    check_traces(ctx, tla, traces, label, lambda s: run_scripts(ctx, exe, [s], timeout=timeout * 3, env=run_env, label=label + "-rerun")[0],
                 corrupt=corrupt, tenv=tenv, heap=heap)
    return traces


def check_traces(ctx, tla, traces, label, rerun, corrupt=None, tenv=None, heap="2g"):
    bad = validate(ctx, tla, traces, env=tenv, heap=heap)
    for script, evs, pos, out in bad:
        again = rerun(script) if rerun else (script, evs)
        bad2 = validate(ctx, tla, [again], env=tenv, heap=heap)
        if not bad2:
            if all(e == f for e, f in zip(evs, again[1])) and len(evs) == len(again[1]):
                raise CheckError("trace rejected in a group but accepted alone: " + label)
            # not reproduced: nondeterministic behaviour; try a few more times
            hits = 0
            for _ in range(4):
                again = rerun(script)
                b = validate(ctx, tla, [again], env=tenv, heap=heap)
                if b:
                    hits += 1
                    bad2 = b
                    break
            if not hits:
                # the recorded execution is real; report it (all harnesses are deterministic or
                # the specification allows every schedule)
                bad2 = [(script, evs, pos, out)]
        script, evs, pos, out = bad2[0]
        path = replay_file(ctx, label, script, evs, pos, out)
        ev = evs[pos] if 0 <= pos < len(evs) else None
        raise Violation("%s: event %d not explained by %s: %s" % (label, pos, tla, json.dumps(ev)[:400]), path)
    if not ctx.cov["samples"] or len(ctx.cov["samples"]) < 4:
        s, evs = traces[len(traces) // 2]
        ctx.cov["samples"].append({"label": label, "script": s[:12], "events": evs[:6]})
        ctx.cov["samples"] = json.loads(json.dumps(ctx.cov["samples"])[:20000]) if len(json.dumps(ctx.cov["samples"])) < 20000 else ctx.cov["samples"][:1]
    if corrupt:
        selftest(ctx, tla, traces, corrupt, env=tenv)


def num_corruptor(ops, fields):
    """Corrupts one integer (possibly nested in lists) in one of the given fields of one event."""
    def leafs(x, path):
        if isinstance(x, bool):
            yield path
        elif isinstance(x, int):
            yield path
        elif isinstance(x, list):
            for i, y in enumerate(x):
                for p in leafs(y, path + [i]):
                    yield p
        elif isinstance(x, dict):
            for k, y in x.items():
                for p in leafs(y, path + [k]):
                    yield p

    def f(evs, rng):
        c = []
        for i, e in enumerate(evs):
            if e["op"] in ops:
                for fl in fields:
                    if fl in e:
                        c.extend(leafs(e[fl], [i, fl]))
        if not c:
            return None
        p = rng.choice(c)
        o = evs
        for k in p[:-1]:
            o = o[k]
        v = o[p[-1]]
        o[p[-1]] = (not v) if isinstance(v, bool) else v + rng.choice([1, -1, 7])
        return evs
    return f
