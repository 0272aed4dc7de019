"""Search, correct, search again: the rate printed by the command line removes the offset when given to the compiled corrector."""
import os
import subprocess
import sys
import numpy as np
from engine import check, same, digest, REPO
import fpfind.fpfind
from fpfind.lib.utils import normalize_timestamps
import streams
import ts

F = sys.modules["fpfind.fpfind"]
LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of a bounded grid of clock relations x search parameters x direction x file format, running the real command line and the compiled corrector in a loop "
             "and checking every common event's remaining delay against the known truth")
RULE = "every admissible point of the grid runs search -> correct -> search; outcomes are distinct (rate, second rate) pairs"
ASSUMPTIONS = ["event streams are pseudo-random with enumerated seeds and strong correlations, as for C24"]
CASE_LIMIT = 200


def setup(ctx):
    ctx.exe = os.path.join(ctx.top, "freqcd")
    r = os.path.join(REPO, "src/fpfind")
    p = subprocess.run(["gcc", "-w", "-o", ctx.exe, r + "/freqcd.c", r + "/lib/getopt.c"], capture_output=True, text=True)
    ctx.build = p.stderr[-300:] if p.returncode else ""


def loop(ctx, seed, q, R, r, sep, k, dt, df, target, legacy, off, how, pre=None):
    check(not ctx.build, "freqcd does not build: %s", ctx.build)
    p = streams.Pair("%d/c28/%s" % (ctx.seed, seed), q, R, k, sep, dt, df, nc=700, na=150, nb=500)
    fmt = "a1x" if legacy else "a1"
    X = ["-X"] if legacy else []
    p.normalized(normalize_timestamps)
    cnt = lambda x: [int(v * 256) + off for v in x]
    ca, cb = map(cnt, p.common)
    a = sorted(set(cnt(p.a)))
    b = sorted(set(cnt(p.b)))
    # detectors mark common events, so that they can be followed through the files
    sa = {t: i % 1000 + 1 for i, t in enumerate(ca)}
    sb = {t: i % 1000 + 1 for i, t in enumerate(cb)}
    ts.put(ctx.path("a"), ts.encode(fmt, [(t, sa.get(t, 0)) for t in a]))
    ts.put(ctx.path("b"), ts.encode(fmt, [(t, sb.get(t, 0)) for t in b]))
    conf = ["-q", q, "-R", R, "-r", r, "-s", sep, "-k", k] + X
    scan = []
    if pre is not None:
        scan = ["-P", "--precomp-start=%r" % pre, "--precomp-stop", 0]
        p.df = (1 + df) / (1 + pre) - 1     # left to the search
    code, out = ts.cli(F.main, "-t", ctx.path("a"), "-T", ctx.path("b"), *conf, *scan, "-V", 7 if target else 6)
    same(code, 0, "exit of the search")
    f = int(out.strip())
    src, dst = ("b", "c") if target else ("a", "c")
    args = ["-f", str(f)] + (["-x"] if legacy else [])
    if how == 0:
        p1 = subprocess.run([ctx.exe, "-i", ctx.path(src), "-o", ctx.path(dst)] + args, capture_output=True, timeout=60)
        check(p1.returncode == 0, "corrector exit %s: %s", p1.returncode, p1.stderr[-200:])
    else:
        with open(ctx.path(src), "rb") as i, open(ctx.path(dst), "wb") as o:
            p1 = subprocess.run([ctx.exe] + args, stdin=i, stdout=o, stderr=subprocess.PIPE, timeout=60)
        check(p1.returncode == 0, "corrector exit %s: %s", p1.returncode, p1.stderr[-200:])
    # every common event is followed by its position
    raw = ts.decode(fmt, ts.get(ctx.path(src)))
    cor = ts.decode(fmt, ts.get(ctx.path(dst)))
    same([l for _, l in cor], [l for _, l in raw], "low bits after correction")
    moved = {t: u for (t, _), (u, _) in zip(raw, cor)}
    other = ca if target else cb
    span = max(cb[-1] - cb[0], ca[-1] - ca[0]) / 256
    d = np.array([moved[x] - y for x, y in zip(cb if target else ca, other)], dtype=float) / 256
    # resolution of the estimate, of the correction, and of the timestamps
    est = p.tolerance(r) * 2 / (p.Ts + p.Ta)
    tol = span * (est + 2.0 ** -34 + abs(df) * 2.0 ** -20) + 0.02
    check(np.ptp(d) <= tol, "rate %d for offset %g: remaining delay varies by %.3f ns over %.3f ms (allowed %.3f)", f, df, np.ptp(d), span * 1e-6, tol)
    names = (ctx.path("a"), ctx.path("c")) if target else (ctx.path("c"), ctx.path("b"))
    code, out = ts.cli(F.main, "-t", names[0], "-T", names[1], *conf, "-V", 2)
    same(code, 0, "exit of the second search")
    g, t = out.split()
    check(abs(int(g)) <= (est * 2 + 3 * r / p.Ts) * (1 << 34) + 2, "second search reports %s after correcting by %d (true offset %g)", g, f, df)
    want = d[0] if target else -d[0]
    check(abs(int(t) - want) <= p.tolerance(r) * 2 + tol, "second search reports a delay of %s ns, the streams are %.2f ns apart", t, want)
    ctx.count("loops")
    ctx.count("events_followed", len(d))
    return digest(f, g)


def cases(ctx):
    conf = [(16, 16, 1, 100, 1), (14, 16, 1, 300, 1), (14, 32, 2, 100, 2), (16, 16, 4, 60, 1), (15, 16, 1, 12, 1)]
    if ctx.thorough:
        conf += [(16, 16, 1, 1000, 1), (18, 16, 1, 60, 1), (13, 16, 1, 2000, 1), (17, 64, 8, 100, 1), (18, 16, 1, 6, 1)]
    # long spans, where the square of a large offset matters
    for df in (1e-4, -1.1e-4, 6e-5):
        for dt in (0, -20000.5):
            for target in (False, True):
                for seed in range(ctx.pick(1, 3)):
                    q, R, r, sep, k, off = 16, 16, 1, 1000, 1, 1 << 40
                    yield ("q=%d R=%d r=%d sep=%g k=%d dt=%g df=%g %s long seed=%d" % (q, R, r, sep, k, dt, df, "target" if target else "reference", seed),
                           loop, "long%d" % seed, q, R, r, sep, k, dt, df, target, target, off, seed % 2)
    # a precompensation that leaves little for the search
    for df, pre in ((1e-4, 1e-4), (-1.1e-4, -1.1e-4), (6e-5, 6e-5), (9e-5, 8e-5)):
        for target in (False, True):
            q, R, r, sep, k, off = 16, 16, 1, 2500, 1, 1 << 40
            yield ("q=%d R=%d r=%d sep=%g k=%d df=%g %s precompensation=%g" % (q, R, r, sep, k, df, "target" if target else "reference", pre),
                   loop, "pre", q, R, r, sep, k, -20000.5, df, target, target, off, 0, pre)
    n = 0
    for q, R, r, sep, k in conf:
        for df in (0, 3e-8, 1e-6, -1e-6, 1e-5, -5e-5, 1e-4, -1.15e-4):
            for dt in (0, 1000.5, -20000, 150000):
                for target in (False, True):
                    for legacy in (False, True):
                        for off in (1 << 40, (1 << 54) - (1 << 46), 1 << 30):
                            for seed in range(ctx.pick(1, 2)):
                                n += 1
                                if not ctx.thorough and n % 7:
                                    continue
                                N = 1 << q
                                if abs(dt) + abs(df) * (sep + 2) * N * R * k > 0.42 * N * R or abs(df) + 3 * max(R, 2 * abs(df) * N * R * k) / (sep * N * R * k) > 2.0 ** -13:
                                    continue
                                yield ("q=%d R=%d r=%d sep=%g k=%d dt=%g df=%g %s legacy=%s offset=%d seed=%d" % (q, R, r, sep, k, dt, df, "target" if target else "reference", legacy, off, seed),
                                       loop, seed, q, R, r, sep, k, dt, df, target, legacy, off, n % 2)
