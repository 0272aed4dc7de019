"""Engine shared by all checks: enumerates cases, runs them on the real code in parallel, records evidence.

A check module provides
    LEVEL = "model_checking" | "exploration" | "fault_enumeration"
    RULE  = how cases are enumerated and when one counts as non-trivial
    def cases(ctx): yields (description, function, *args)
Each case calls the code under test and compares with a reference; it raises Violation (or any exception at all)
if the property is broken, else returns a hashable digest of what was observed, or None if the case was trivial.
Case enumeration is deterministic, so a case is identified by its index (see --replay).
"""
import contextlib, hashlib, importlib, json, mmap, os, pickle, resource, shutil, signal, struct, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
MAXVIOL = int(os.environ.get("MC_MAXVIOL", "5"))


class Violation(Exception):
    pass


class Timeout(BaseException):
    pass


def check(cond, fmt="", *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def same(got, want, what="result"):
    if got != want:
        raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)))


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[: n - 20] + "...(%d chars)" % len(s)


def digest(*x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "little")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.repo = REPO
        self.scratch = None
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.extra = {}

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def state(self, *key):
        self.states.add(digest(*key))

    def step(self, n=1):
        self.transitions += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def path(self, name):
        return os.path.join(self.scratch, name)


def load(pid):
    return importlib.import_module("checks." + pid.lower())


def run_case(ctx, fn, args, limit):
    def onalarm(*_):
        raise Timeout()

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        return True, fn(ctx, *args)
    except Violation as e:
        return False, str(e)
    except Timeout:
        return False, "did not terminate within %d s" % limit
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%s" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        return False, "raised %s: %s (%s)" % (type(e).__name__, short(str(e), 200), where)
    finally:
        signal.alarm(0)


def worker(ctx, mod, w, n, prog, pipe):
    """Runs every n-th case; prog is shared memory holding the index of the case in progress and a heartbeat."""
    limit = getattr(mod, "CASE_LIMIT", 60)
    memory = getattr(mod, "MEMORY", 6 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
    os.makedirs(ctx.scratch)
    os.chdir(ctx.scratch)
    evals = 0
    outcomes, viol, samples = set(), [], []
    i = -1
    for i, case in enumerate(mod.cases(ctx)):
        if i % n != w:
            continue
        prog[w * 16:w * 16 + 8] = struct.pack("=q", i)
        desc, fn, args = case[0], case[1], case[2:]
        ok, res = run_case(ctx, fn, args, limit)
        evals += 1
        if not ok:
            viol.append((i, short(desc, 2500), res))
            if len(viol) >= MAXVIOL:
                break
        elif res is not None:
            if not isinstance(res, int):
                res = digest(res)
            if len(outcomes) < 500000:
                outcomes.add(res)
            if len(samples) < 2 and (evals % 37 == 1):
                samples.append({"index": i, "case": short(desc, 400)})
    prog[w * 16:w * 16 + 8] = struct.pack("=q", -2)
    data = pickle.dumps((evals, outcomes, viol, samples, ctx.states, ctx.transitions, ctx.traces, ctx.extra, i + 1))
    with os.fdopen(pipe, "wb") as f:
        f.write(data)


def prepare():
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    sys.path.insert(1, os.path.join(VERIF, "mc"))
    os.environ["PYTHONPATH"] = src
    os.environ["TQDM_DISABLE"] = "1"
    os.environ["TZ"] = os.environ.get("TZ", "UTC")
    import warnings
    warnings.simplefilter("ignore")


def explore(ctx, mod):
    n = int(os.environ.get("MC_WORKERS", getattr(mod, "WORKERS", 0) or min(8, os.cpu_count() or 1)))
    stall = getattr(mod, "CASE_LIMIT", 60) * 3 + 60
    prog = mmap.mmap(-1, 16 * n)
    top = tempfile.mkdtemp(prefix="mc-%s-" % ctx.pid)
    ctx.top = top
    procs = []
    try:
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        sys.stdout.flush(); sys.stderr.flush()
        for w in range(n):
            r, wr = os.pipe()
            prog[w * 16:w * 16 + 8] = struct.pack("=q", -1)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    os.close(r)
                    if not os.environ.get("MC_DEBUG"):      # keep the code's own logging out of the report
                        null = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(null, 1)
                        os.dup2(null, 2)
                    ctx.scratch = os.path.join(top, "w%d" % w)
                    worker(ctx, mod, w, n, prog, wr)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                finally:
                    os._exit(code)
            os.close(wr)
            procs.append([pid, r, b"", -3, time.time(), w])
        import select
        live = {p[1]: p for p in procs}
        results, lost = [], []
        while live:
            rd, _, _ = select.select(list(live), [], [], 1.0)
            for fd in rd:
                p = live[fd]
                d = os.read(fd, 1 << 20)
                if d:
                    p[2] += d
                    continue
                os.close(fd)
                del live[fd]
                _, st = os.waitpid(p[0], 0)
                idx = struct.unpack("=q", prog[p[5] * 16:p[5] * 16 + 8])[0]
                if p[2]:
                    results.append(pickle.loads(p[2]))
                else:
                    lost.append((idx, st, "process running the case died (status %d)" % st))
            for p in list(live.values()):
                idx = struct.unpack("=q", prog[p[5] * 16:p[5] * 16 + 8])[0]
                if idx != p[3]:
                    p[3], p[4] = idx, time.time()
                elif idx >= 0 and time.time() - p[4] > stall:
                    with contextlib.suppress(OSError):
                        os.killpg(p[0], signal.SIGKILL)
                    lost.append((idx, 0, "case did not terminate"))
                    p[4] = time.time() + 1e9
        return results, lost, top
    finally:
        for p in procs:
            with contextlib.suppress(OSError):
                os.killpg(p[0], signal.SIGKILL)
        shutil.rmtree(top, ignore_errors=True)


def known_findings(pid):
    """Committed list of accepted findings: lines 'known: property=<id> match=<text> : <what fails>'."""
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("known: property=%s match=" % pid):
                m, _, what = line.split("match=", 1)[1].partition(" : ")
                out.append((m.strip(), what.strip()))
    return out


def report(pid, tier, seed, level, coverage, viol, t0, assumptions):
    """viol: list of (index, description, what).  Writes evidence and replays, prints lines, returns exit code."""
    known = known_findings(pid)
    new, old = [], []
    for v in viol:
        for m, what in known:
            if m in v[1] or m in v[2]:
                old.append((m, what))
                break
        else:
            new.append(v)
    for m, what in sorted(set(old)):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    code = 0
    os.makedirs(os.path.join(VERIF, "out", "replays"), exist_ok=True)
    for k, (idx, desc, what) in enumerate(new[:MAXVIOL]):
        path = os.path.join(VERIF, "out", "replays", "%s-%s-%d.json" % (pid, tier, k))
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "case": idx, "description": desc, "what": what,
                       "replay": "/verif/check %s --tier %s --replay %s" % (pid, tier, idx)}, f, indent=1)
        print("  %s\n  in case %s: %s" % (what, idx, desc))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "wall_s": round(time.time() - t0, 2), "violations": len(new), "assumptions": assumptions}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("%s %s: %s violations=%d wall=%.1fs" % (pid, tier, " ".join("%s=%s" % (k, v) for k, v in coverage.items() if isinstance(v, int)), len(new), ev["wall_s"]))
    return code


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    a = argv[1:]
    while a:
        o = a.pop(0)
        if o == "--tier":
            tier = a.pop(0)
        elif o == "--replay":
            replay = a.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    prepare()
    try:
        mod = load(pid)
    except Exception as e:   # the code under test does not even import
        traceback.print_exc()
        return report(pid, tier, seed, "other", {"explanation": "import of the code under test failed"}, [(-1, "import", "import failed: %r" % e)], t0, [])
    if hasattr(mod, "run"):      # checks with their own explorer
        return mod.run(pid, tier, seed, t0, replay)
    ctx = Ctx(pid, tier, seed)
    if replay is not None:
        ctx.top = tempfile.mkdtemp(prefix="mc-")
        ctx.scratch = os.path.join(ctx.top, "w")
        os.makedirs(ctx.scratch)
        os.chdir(ctx.scratch)
        try:
            if hasattr(mod, "setup"):
                mod.setup(ctx)
            for i, case in enumerate(mod.cases(ctx)):
                if i == int(replay):
                    print(case[0])
                    ok, res = run_case(ctx, case[1], case[2:], 300)
                    print("held" if ok else "VIOLATED", res)
                    return 0 if ok else 1
        finally:
            shutil.rmtree(ctx.top, ignore_errors=True)
        return 2
    results, lost, _ = explore(ctx, mod)
    evals = sum(r[0] for r in results)
    outcomes, states = set(), set()
    viol, samples, extra = [], [], {}
    trans = traces = 0
    for r in results:
        outcomes |= r[1]
        viol += r[2]
        samples += r[3]
        states |= r[4]
        trans += r[5]
        traces += r[6]
        for k, v in r[7].items():
            extra[k] = extra.get(k, 0) + v
    viol.sort()
    for idx, st, what in lost:
        viol.append((idx, "case %d" % idx, what))
    cov = {"rule": mod.RULE, "samples": samples[:8]}
    if mod.LEVEL == "model_checking":
        cov.update(states=len(states), transitions=trans, traces_validated_against_impl=traces or evals)
    cov.update(evaluations=evals, distinct_nontrivial=len(outcomes))
    cov.update(extra)
    return report(pid, tier, seed, mod.LEVEL, cov, viol, t0, getattr(mod, "ASSUMPTIONS", []))


if __name__ == "__main__":
    sys.modules["engine"] = sys.modules["__main__"]
    sys.exit(main(sys.argv[1:]))
