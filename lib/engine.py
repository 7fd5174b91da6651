"""Engine shared by all checks.

A check = a list of parts; every part binds one TLA+ specification to the real
code of /repo and returns counts or rejections:

  mc      TLC enumerates the specification exhaustively within the constants of
          an MC config, checks its invariants and action properties, and emits
          one behaviour per transition; the harness replays every behaviour on
          the real code and compares each result.
  sim     as mc, but TLC random simulation with larger constants (deep histories).
  trace   the harness drives the real code through generated histories and
          records each call with its result; TLC accepts or rejects every step.

Verdicts: VIOLATION only for behaviour of the real code that the specification
rejects (and that shows again when the history is re-run, where it is
deterministic).  A spec-internal property failure, a crash of TLC or of the
harness itself is an error (exit 2).
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


def go_env():
    e = dict(os.environ)
    e.update(PATH="/opt/veriftools/go1.24.13/bin:" + e.get("PATH", "/usr/bin:/bin"),
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("HOME", "/root")
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:exitcode=66"
    return e


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = self.steps = 0
        self.ops = {}
        self.samples = []
        self.parts = []
        self.rejections = []
        self.notes = []
        self.bins = {}

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # -- harness ---------------------------------------------------------
    def binary(self, pkg, tags="", race=False, env=None, asan=False):
        key = (pkg, tags, race, asan)
        with self.lock:
            if key in self.bins:
                return self.bins[key]
            out = os.path.join(self.tmp, "bin_%d" % len(self.bins))
            cmd = ["go", "build", "-o", out]
            if tags:
                cmd += ["-tags", tags]
            if race:
                cmd += ["-race"]
                if pkg == "host":
                    cmd += ["-gcflags=all=-d=checkptr=0"]  # handles that are numbers are no pointers
            if asan:
                cmd += ["-asan", "-gcflags=all=-d=checkptr=0"]
            e = go_env()
            if env:
                e.update(env)
            p = subprocess.run(cmd + ["./" + pkg], cwd=os.path.join(VERIF, "harness"), env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise CheckError("harness build failed:\n" + p.stdout[-4000:])
            if asan:  # where the sanitizer cannot start, do without
                p = subprocess.run([out], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if p.returncode != 2 or "usage: harness" not in p.stderr:
                    self.notes.append("the address sanitizer does not start here")
                    p = subprocess.run([x for x in cmd if x != "-asan"] + ["./" + pkg], cwd=os.path.join(VERIF, "harness"), env=e,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if p.returncode != 0:
                        raise CheckError("harness build failed:\n" + p.stdout[-4000:])
            self.bins[key] = out
            return out

    def harness(self, binp, args, stdin=None, timeout=600, env=None):
        e = go_env()
        if env:
            e.update(env)
        try:
            p = subprocess.run([binp] + args, input=stdin, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=self.tmp)
        except subprocess.TimeoutExpired:
            raise CheckError("harness timed out: " + " ".join(args))
        return p

    # -- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, extra=(), env=None, workers=4, timeout=800, heap="3g"):
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE",
               "-config", cfg] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        if env:
            e.update(env)
        out = os.path.join(d, "out.txt")
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s %s" % (module, cfg))
        return rc, out

    def reject(self, part, history, step, why):
        with self.lock:
            self.rejections.append(dict(part=part, history=history, step=step, why=why))


def aborted(p):
    """Did the code under test bring the process down (rather than the machine or the driver)?"""
    if "out of memory" in p.stderr or "fork/exec" in p.stderr:
        return False
    return any(x in p.stderr for x in ("fatal error:", "WARNING: DATA RACE", "SIGSEGV", "SIGABRT", "SIGBUS", "ERROR: AddressSanitizer: ")) \
        or p.returncode in (-11, -6, -7, -4, -8)


RE_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
RE_SIM = re.compile(r"The number of states generated: (\d+)")


def tail(path, n=60):
    with open(path) as f:
        ls = [x for x in f if not x.startswith('<<"HIST"')]
    return "".join(ls[-n:])


def count_ops(ctx, hs, last_only):
    with ctx.lock:
        for h in hs:
            for it in (h[-1:] if last_only else h):
                k = it["e"].get("op", "?")
                ctx.ops[k] = ctx.ops.get(k, 0) + 1


def replay(ctx, name, binp, domain, path, serial=False):
    """Runs the behaviours in a file (TLC output or one JSON history per line) on the real code."""
    r = ctx.harness(binp, ["replay", "-domain", domain, "-in", path, "-par", "1" if serial else "6"])
    m = re.search(r"^REPLAY (.*)$", r.stderr, re.M)
    if r.returncode != 0 or not m:
        if aborted(r):
            ctx.reject(name, None, None, "the real code aborted during replay:\n" + r.stderr[-5000:])
            return dict(histories=0, steps=0, ops={}, sample=None)
        raise CheckError("replay harness failed: " + r.stderr[-2000:])
    rep = json.loads(m.group(1))
    for line in r.stdout.splitlines():
        b = json.loads(line)
        ctx.reject(name, b["history"], b["step"], "specification demands %s, code returned %s" %
                   (json.dumps(b["expected"]), json.dumps(b["got"])))
    if rep["bad"] and not ctx.rejections:
        raise CheckError("replay reported mismatches without showing them")
    return rep


def part_mc(ctx, name, module, cfg, binp, domain, workers=4, min_ops=(), sim=None, timeout=800, heap="3g", env=None, serial=False):
    extra = []
    if sim:
        extra = ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1] + 1), "-seed", str(ctx.seed * 7919 + 13)]
        workers = 1
    rc, out = ctx.tlc(module, cfg, extra, workers=workers, timeout=timeout, heap=heap, env=env)
    if rc != 0:
        raise CheckError("specification %s (%s) fails on its own:\n%s" % (module, cfg, tail(out)))
    txt = tail(out, 40)
    if sim:
        m = RE_SIM.search(txt)
        gen = int(m.group(1)) if m else 0
        dist = 0
    else:
        m = RE_STATES.search(txt)
        if not m:
            raise CheckError("no TLC statistics for %s:\n%s" % (module, txt))
        gen, dist = int(m.group(1)), int(m.group(2))
    rep = replay(ctx, name, binp, domain, out, serial)
    os.remove(out)
    if not rep["histories"] and not ctx.rejections:
        raise CheckError("%s emitted no behaviour" % module)
    with ctx.lock:
        for k, v in rep["ops"].items():
            ctx.ops[k] = ctx.ops.get(k, 0) + v
        ctx.states += dist if not sim else gen
        ctx.transitions += gen
        ctx.traces += rep["histories"]
        ctx.steps += rep["steps"]
        if rep["sample"]:
            ctx.samples.append(dict(part=name, direction="specification -> code", history=rep["sample"][:8]))
        ctx.parts.append(dict(part=name, kind="simulation" if sim else "exhaustive", config=cfg, generated=gen,
                              distinct=dist, behaviours_replayed=rep["histories"], steps_replayed=rep["steps"]))
    for o in min_ops:
        if not ctx.ops.get(o):
            raise CheckError("vacuous: operation %s never exercised by %s" % (o, cfg))


def has_panic(res):
    return isinstance(res, dict) and "panic" in res


def wide(x):
    """An integer TLC could not hold."""
    if isinstance(x, dict):
        return any(wide(v) for v in x.values())
    if isinstance(x, list):
        return any(wide(v) for v in x)
    return isinstance(x, int) and not -2**31 <= x < 2**31


def part_trace(ctx, name, module, cfg, binp, domain, workers=4, n=None, timeout=800, deterministic=True,
               min_ops=(), heap="3g", harness_env=None, record_args=(), shards=1):
    tr = os.path.join(ctx.tmp, "trace_%s.json" % name)
    args = ["record", "-domain", domain, "-seed", str(ctx.seed), "-tier", ctx.tier, "-out", tr] + list(record_args)
    if n is not None:
        args += ["-n", str(n)]
    p = ctx.harness(binp, args, env=harness_env)
    if p.returncode != 0:
        if aborted(p):
            ctx.reject(name, None, None, "the real code aborted while recording:\n" + p.stderr[:6000])
            return
        raise CheckError("record harness failed: " + p.stderr[-2000:])
    hs = [json.loads(l) for l in open(tr) if l.strip()]
    hs = [h for h in hs if h]
    panics = [h for h in hs if has_panic(h[-1]["res"])]
    for h in panics[:3]:
        ctx.reject(name, h, len(h) - 1, "the real code panicked or hung: %s" % h[-1]["res"]["panic"])
    if panics:
        # the prefixes are still validated
        hs = [h[:-1] if has_panic(h[-1]["res"]) else h for h in hs]
        hs = [h for h in hs if h]
    # no step of a specification has an output beyond TLC's integers
    for i, h in enumerate(hs):
        k = next((k for k, x in enumerate(h) if wide(x)), None)
        if k is not None:
            ctx.reject(name, h[:k + 1], k, "the recorded output is none the specification can have: %s" % json.dumps(h[k])[:1500])
            hs[i] = h[:k]
    hs = [h for h in hs if h]
    count_ops(ctx, hs, False)
    gen = dist = 0
    shards = max(1, min(shards, len(hs)))
    jobs = []
    for s in range(shards):
        part = hs[s::shards]
        f = os.path.join(ctx.tmp, "trace_%s_%d.json" % (name, s))
        with open(f, "w") as fo:
            for h in part:
                fo.write(json.dumps(h) + "\n")
        jobs.append((part, f))

    def one(job):
        part, f = job
        rc, out = ctx.tlc(module, cfg, env={"TRACE": f}, workers=workers, timeout=timeout, heap=heap)
        return part, rc, out
    with cf.ThreadPoolExecutor(shards) as ex:
        results = list(ex.map(one, jobs))
    for part, rc, out in results:
        txt = open(out).read()
        if deterministic:
            # an output the specification cannot even evaluate (a missing field, a value of another
            # kind) is rejected like any other
            unfit = rc == 75 and "The error occurred when TLC was evaluating" in txt and re.search(r"^/\\ t = \d+", txt, re.M)
            if rc == 11 or "Deadlock reached" in txt or unfit:
                ts = re.findall(r"^/\\ t = (\d+)", txt, re.M)
                ls = re.findall(r"^/\\ l = (\d+)", txt, re.M)
                if not ts or not ls:
                    raise CheckError("cannot parse rejection:\n" + txt[-3000:])
                h, step = part[int(ts[-1]) - 1], int(ls[-1]) - 1
                if step >= len(h):
                    raise CheckError("rejection beyond the history:\n" + txt[-3000:])
                confirm(ctx, name, binp, domain, h, step, harness_env)
                continue
            if rc != 0:
                raise CheckError("trace validation of %s ended with %d:\n%s" % (name, rc, txt[-4000:]))
            m = RE_STATES.search(txt)
            g, d = int(m.group(1)), int(m.group(2))
            want = sum(len(h) + 1 for h in part)
            if d != want:
                raise CheckError("trace validation of %s visited %d states, expected %d" % (name, d, want))
            gen += g
            dist += d
        else:
            if rc == 75 and "The error occurred when TLC was evaluating" in txt:
                ts = re.findall(r"^/\\ t = (\d+)", txt, re.M)
                ls = re.findall(r"^/\\ l = (\d+)", txt, re.M)
                if ts and ls and int(ls[-1]) - 1 < len(part[int(ts[-1]) - 1]):
                    ctx.reject(name, part[int(ts[-1]) - 1], int(ls[-1]) - 1, "the recorded output is none the specification can have")
                    continue
            if rc != 0:
                raise CheckError("trace validation of %s ended with %d:\n%s" % (name, rc, txt[-4000:]))
            m = RE_STATES.search(txt)
            gen += int(m.group(1))
            dist += int(m.group(2))
            done = set(int(x) for x in re.findall(r'^<<"DONE", (\d+)>>', txt, re.M))
            far = {}
            for a, b in re.findall(r'^<<"AT", (\d+), (\d+)>>', txt, re.M):
                far[int(a)] = max(far.get(int(a), 0), int(b))
            for i, h in enumerate(part):
                if (i + 1) not in done:
                    ctx.reject(name, h, far.get(i + 1), "no behaviour of the specification explains this recorded history")
    with ctx.lock:
        ctx.states += dist
        ctx.transitions += gen
        ctx.traces += len(hs)
        ctx.steps += sum(len(h) for h in hs)
        if hs:
            ctx.samples.append(dict(part=name, direction="code -> specification", history=hs[len(hs) // 2][:8]))
        ctx.parts.append(dict(part=name, kind="trace validation", config=cfg, histories=len(hs),
                              steps=sum(len(h) for h in hs), states=dist))
    for o in min_ops:
        if not ctx.ops.get(o):
            raise CheckError("vacuous: operation %s never recorded by %s" % (o, domain))


def confirm(ctx, name, binp, domain, h, step, env=None):
    """A rejected step is reported when the real code shows it again."""
    p = ctx.harness(binp, ["run", "-domain", domain], stdin=json.dumps(h) + "\n", env=env)
    if p.returncode != 0 and aborted(p):
        ctx.reject(name, h[:step + 1], step, "the specification rejects step %d, and the real code aborted on re-execution:\n%s" % (step + 1, p.stderr[:4000]))
        return
    if p.returncode != 0:
        raise CheckError("confirmation run failed: " + p.stderr[-2000:])
    g = json.loads(p.stdout.splitlines()[0])
    same = step < len(g) and g[step]["res"] == h[step]["res"]
    ctx.reject(name, h[:step + 1], step, "the specification rejects step %d: %s returned %s%s" %
               (step + 1, json.dumps(h[step]["e"]), json.dumps(h[step]["res"]),
                "" if same else " (on re-execution: %s)" % json.dumps(g[step]["res"] if step < len(g) else None)))


# -- outcome --------------------------------------------------------------
def load_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(line)
    return out


def run_check(pid, tier, fn, assumptions=(), level="model_checking"):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    code = 0
    try:
        fn(ctx)
        viol = len(ctx.rejections)
        if viol:
            rp = os.path.join(ev_dir, "%s.replay.json" % pid)
            with open(rp, "w") as f:
                json.dump(dict(property=pid, seed=seed, tier=tier, rejections=ctx.rejections[:20]), f, indent=1)
            for r in ctx.rejections[:5]:
                print("# %s: %s" % (r["part"], r["why"][:1500]))
                if r["history"]:
                    print("#   history: " + json.dumps([x["e"] for x in r["history"]])[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            code = 1
        cov = dict(states=ctx.states, transitions=ctx.transitions,
                   traces_validated_against_impl=ctx.traces, steps_checked=ctx.steps,
                   operations=ctx.ops, parts=ctx.parts, samples=ctx.samples[:6])
        if ctx.notes:
            cov["notes"] = ctx.notes
        ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=viol)
        with open(os.path.join(ev_dir, "%s.json" % pid), "w") as f:
            json.dump(ev, f, indent=1)
        if code == 0:
            print("OK property=%s tier=%s seed=%d states=%d traces=%d steps=%d wall=%.1fs" %
                  (pid, tier, seed, ctx.states, ctx.traces, ctx.steps, time.time() - t0))
    except CheckError as e:
        if ctx.rejections:
            rp = os.path.join(ev_dir, "%s.replay.json" % pid)
            with open(rp, "w") as f:
                json.dump(dict(property=pid, seed=seed, tier=tier, rejections=ctx.rejections[:20]), f, indent=1)
            for r in ctx.rejections[:5]:
                print("# %s: %s" % (r["part"], r["why"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            code = 1
        else:
            print("ERROR property=%s %s" % (pid, e))
            code = 2
    finally:
        ctx.close()
    return code


def parallel(*fns):
    with cf.ThreadPoolExecutor(max(1, len(fns))) as ex:
        fs = [ex.submit(f) for f in fns]
        err = None
        for f in fs:
            try:
                f.result()
            except CheckError as e:
                err = err or e
        if err:
            raise err
