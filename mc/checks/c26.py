"""Searches without a trustworthy peak: exhaustive small event sets, thresholds, delay/frequency limits, flat and uncorrelated streams."""
import os
import random
import sys
import numpy as np
from engine import check, same, digest
import fpfind.fpfind
from fpfind.lib.utils import normalize_timestamps
import streams
import ts

F = sys.modules["fpfind.fpfind"]
LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of event subsets over window positions, of thresholds around independently computed significances, and of delays and frequency offsets around the limits, "
             "running the real search and classifying success, search failure and any other error against a reference")
RULE = "every subset pair of a set of event positions x search parameters, every threshold between neighbouring significances, limits -/+ margins; distinct outcomes are counted"
ASSUMPTIONS = ["uncorrelated streams are dense enough that chance coincidences stay below the threshold (sparse ones can exceed any threshold by chance)"]
CASE_LIMIT = 200
LIMIT = 2.0 ** -13


def search(*a):
    try:
        dt, df = F.time_freq(*a)
        return float(dt), float(df)
    except ValueError as e:
        return str(e) or "failed"


def bounded(g, N, R, k):
    check(g[0] == g[0] and abs(g[1]) < LIMIT, "returned dt=%s df=%s", g[0], g[1])


def subsets(ctx, q, R, r, sep, k, S, kind, A):
    N = 1 << q
    Ta = N * R * k
    Ts = sep * Ta
    pos = [0, 3 * R + .5, Ta * .7, Ts + .25 * R, Ts + Ta * .6, Ts + 1.5 * Ta]
    a = np.array([p for i, p in enumerate(pos) if A >> i & 1], dtype=kind)
    out = []
    for B in range(1 << len(pos)):
        b = np.array([p + 5 for i, p in enumerate(pos) if B >> i & 1], dtype=kind)
        g = search(a, b, k, N, R, r, S, Ts)
        # contents of the first pair of windows
        if len(a) == 0 or len(b) == 0:
            empty = True
        else:
            dur = min(k, int(min(a[-1], b[-1]) // (N * R))) * N * R
            empty = any(((w >= s) & (w < s + dur)).sum() == 0 for w in (a, b) for s in (0, Ts))
        if empty:
            check(isinstance(g, str), "events a=%s b=%s: returned %s although an analysed window is empty", list(a), list(b), g)
        if not isinstance(g, str):
            bounded(g, N, R, k)
        # what the scan makes of it
        try:
            h = tuple(map(float, F.fpfind(a, b, k, N, R, r, S, Ts, [0])))
        except ValueError:
            h = None
        check((h is None) == isinstance(g, str) and (h is None or (abs(h[0] - g[0]) < 1e-6 and abs(h[1] - g[1]) < 1e-15)), "events a=%s b=%s: scan gives %s, search %s", list(a), list(b), h, g)
        out.append(g if isinstance(g, str) else "ok")
        ctx.count("failed" if isinstance(g, str) else "returned")
    return digest(out)


def significances(a, b, N, R):
    """Height of the tallest bin over the nearer half of the rest, as bins are merged in pairs up to 10 us."""
    ha = np.bincount(((a // R) % N).astype(np.int64), minlength=N)
    hb = np.bincount(((b // R) % N).astype(np.int64), minlength=N)
    x = np.rint(np.fft.irfft(np.conj(np.fft.rfft(ha)) * np.fft.rfft(hb), N))
    out = []
    while R <= 1e4 and len(x) >= 8:
        i = int(np.argmax(x))
        bg = np.concatenate([x[i // 2:i], x[i + 1:(len(x) + i) // 2 + 1]])
        sd = bg.std()
        out.append((R, float((x[i] - bg.mean()) / sd) if sd > 1e-6 else 0.0, i))
        x = x.reshape(-1, 2).sum(axis=1)
        R *= 2
    return out


def jittered(ctx, seed, N, R, jitter, nc, nn, dt):
    """Correlation peak of some width on top of uncorrelated events."""
    rnd = random.Random("%d %s %s" % (ctx.seed, seed, jitter))
    Ta = N * R
    span = 12.3 * Ta
    c = [rnd.uniform(0, span) for _ in range(int(nc * 12.3))]
    a = sorted([x + rnd.uniform(0, jitter) for x in c] + [rnd.uniform(0, span) for _ in range(int(nn * 12.3))])
    b = sorted([x + dt + rnd.uniform(0, jitter) for x in c] + [rnd.uniform(0, span) for _ in range(int(nn * 12.3))])
    a = np.array([0.0] + a)
    b = np.array([0.0] + [x for x in b if x > 0])
    return a, b


def threshold(ctx, seed, q, R, jitter, nc, nn, dt, sep):
    N = 1 << q
    Ta = N * R
    a, b = jittered(ctx, seed, N, R, jitter, nc, nn, dt)
    cut = lambda x: x[x < Ta]
    sig = significances(cut(a), cut(b), N, R)
    levels = sorted({s for _, s, _ in sig if s > 0})
    trials = []
    for s in levels:
        trials += [s * 0.99 - 0.002, s * 1.01 + 0.002]
    trials += [0.001, 6, levels[-1] * 1.5, 1e9]
    seen = []
    for S in trials:
        if any(abs(S - s) < 0.005 * s + 0.001 for s in levels):
            continue
        hit = None
        for Rj, s, i in sig:
            if s == 0:
                break
            if s >= S:
                hit = Rj, i
                break
        ctx.count("thresholds")
        if hit is None:
            g = search(a, b, 1, N, R, 1, S, sep * Ta)
            if len(sig) and sig[-1][0] * 2 <= 1e4:      # runs down to a handful of bins, where rounding noise decides
                if not isinstance(g, str):
                    bounded(g, N, R, 1)
            else:
                check(isinstance(g, str), "S=%g: returned %s, significances %s", S, g, sig)
            seen.append("fail")
        else:
            # target resolution equal to the accepted one: a single pass
            g = search(a, b, 1, N, R, hit[0], S, sep * Ta)
            seen.append(hit[0])
            M = N * R // hit[0]
            first = min(hit[1], M - hit[1]) * hit[0] * (1 if hit[1] <= M - hit[1] else -1)
            if not isinstance(g, str):
                check(abs(abs(g[0]) - abs(first)) < 1e-3 and (abs(first) * 2 == N * R or abs(g[0] - first) < 1e-3), "S=%g: dt=%s, expected %s (resolution %s)", S, g[0], first, hit[0])
                bounded(g, N, R, 1)
            else:
                # only excusable if the correction would be too large, which a strong peak excludes
                check(sig[0][1] < 12 or M < 64 or nc < 4 * nn ** 0.5, "S=%g: %s, significances %s", S, g, sig)
                ctx.count("late_failed")
    return digest(seen)


def drift(ctx, bins, sep, r, dt):
    """Streams whose late windows are shifted by a whole number of bins: the drift is known exactly."""
    q, R = 12, 16
    N, Ta = 1 << q, 16 << 12
    Ts = sep * Ta
    rnd = random.Random("%d drift" % ctx.seed)
    ev = [sorted(rnd.sample(range(64, N - 64), 900)) for _ in range(3)]
    a, b = [0], [0]
    for w, t in ((0, 0), (1, Ts), (2, Ts + Ta)):
        a += [t + x * R for x in ev[w]]
        b += [t + x * R + dt + (bins * R if w else 0) for x in ev[w]]
    a, b = (np.array(sorted(x) + [Ts + 2 * Ta]) * 1.0 for x in (a, b))
    g = search(a, b, 1, N, R, r, 6, Ts)
    if abs(bins) * R / Ts >= LIMIT:
        check(isinstance(g, str), "drift of %d bins over %d ns (limit %g): returned %s", bins, Ts, LIMIT * Ts / R, g)
    else:
        check(not isinstance(g, str), "drift of %d bins over %d ns (limit %g): %s", bins, Ts, LIMIT * Ts / R, g)
        bounded(g, N, R, 1)
        if r == R:
            check(g[0] == dt and abs(g[1] - bins * R / Ts) < 1e-15, "drift of %d bins over %d ns, delay %d: returned %s", bins, Ts, dt, g)
    for c in (0.0, 1e-4):
        f = (1 + c)
        try:
            h = F.fpfind(a, b * f, 1, N, R, r, 6, Ts, [c])
        except ValueError:
            h = None
        check((h is None) == isinstance(g, str) or (c and abs(bins) * R / Ts > 0.99 * LIMIT), "drift of %d bins with candidate %g: scan gives %s, search %s", bins, c, h, g)
    return digest(g if isinstance(g, str) else "ok", bins)


def near(ctx, q, R, r, sep, dt, df):
    """Offsets near the limit, which passes approach from either side: whatever is returned is within it."""
    p = streams.Pair("%d/c26n/%s" % (ctx.seed, dt), q, R, 1, sep, dt, df)
    a, b = p.normalized(normalize_timestamps)
    g = search(a, b, 1, p.N, R, r, 6, p.Ts)
    ctx.count("failed" if isinstance(g, str) else "returned")
    if not isinstance(g, str):
        bounded(g, p.N, R, 1)
    for c in (0.0, df / 3):
        try:
            h = F.fpfind(a, b, 1, p.N, R, r, 6, p.Ts, [c])
        except ValueError:
            continue
        check(abs((1 + float(h[1])) / (1 + c) - 1) < LIMIT, "offset %g with candidate %g: returned %s", df, c, h)
    return digest(g if isinstance(g, str) else "ok", df)


def delay(ctx, q, R, dt, df, seed, r=1):
    """First delay on either side of 100 ms."""
    p = streams.Pair("%d/c26/%s" % (ctx.seed, seed), q, R, 1, 4, dt, df, nc=900, na=200, nb=600)
    # windows relative to a common origin, so that the delay is not aliased
    a, b = p.a, p.b
    keep = b >= 0
    g = search(a, b[keep], 1, p.N, R, r, 6, p.Ts)
    if abs(dt) > 1e8 + 2 * R:
        check(isinstance(g, str), "delay of %g ms: returned %s", dt * 1e-6, g)
    elif abs(dt) < 1e8 - 2 * R:
        check(not isinstance(g, str), "delay of %g ms: %s", dt * 1e-6, g)
        bounded(g, p.N, R, 1)
        check(abs(g[0] - dt) < 3 * R, "delay of %g ms: found %s", dt * 1e-6, g)
    return digest(g if isinstance(g, str) else "ok", dt)


def frequency(ctx, q, R, r, sep, k, dt, df, seed):
    p = streams.Pair("%d/c26f/%s" % (ctx.seed, seed), q, R, k, sep, dt, df)
    a, b = p.normalized(normalize_timestamps)
    g = search(a, b, k, p.N, R, r, 6, p.Ts)
    margin = 3 * p.coarse() / p.Ts
    if abs(df) > LIMIT + margin:
        check(isinstance(g, str), "offset %g: returned %s", df, g)
    elif abs(df) < LIMIT - margin:
        check(not isinstance(g, str), "offset %g: %s", df, g)
        bounded(g, p.N, R, k)
    elif not isinstance(g, str):
        bounded(g, p.N, R, k)
    for c in (0.0, df):
        try:
            h = F.fpfind(a, b, k, p.N, R, r, 6, p.Ts, [c])
        except ValueError:
            check(abs((1 + df) / (1 + c) - 1) > LIMIT - margin, "offset %g with candidate %g: failed", df, c)
        else:
            x = (1 + float(h[1])) / (1 + c) - 1
            check(abs(x) < LIMIT and abs((1 + df) / (1 + c) - 1) < LIMIT + margin, "offset %g with candidate %g: returned %s", df, c, h)
    return digest(g if isinstance(g, str) else "ok", df)


def flat(ctx, q, R, k, S, per, which, sep):
    N = 1 << q
    Ta = N * R * k
    n = int((sep + 1.2) * N * k)
    base = np.arange(n) * float(R)
    even = np.sort(np.concatenate([base + R * (j + 0.5) / per for j in range(per)]))
    rnd = np.random.RandomState(ctx.seed + q)
    other = np.sort(rnd.uniform(0, n * R, n // 3))
    a, b = ((even, even + R * 0.1), (even, other), (other, even))[which]
    g = search(a, b, k, N, R, 1, S, sep * Ta)
    check(isinstance(g, str), "flat correlation: returned %s", g)
    return digest(g[:8])


def uncorrelated(ctx, q, R, density, S, k, seed):
    N = 1 << q
    rnd = np.random.RandomState(1000 * ctx.seed + seed)
    Ta = N * R * k
    n = int(density * N * 9 * k)
    a = np.sort(rnd.uniform(0, 9 * Ta, n))
    b = np.sort(rnd.uniform(0, 9 * Ta, n))
    g = search(a, b, k, N, R, 1, S, 6 * Ta)
    check(isinstance(g, str), "streams without common events: returned %s", g)
    return digest(seed, g[:5])


def short(ctx, q, R, k, sep, frac, kind):
    """Streams covering only part of the required span."""
    N = 1 << q
    Ta = N * R * k
    rnd = random.Random("%d short %s" % (ctx.seed, frac))
    span = frac * Ta
    c = [0.0] + sorted(rnd.uniform(0, span) for _ in range(int(1200 * frac) + 2))
    a = np.array(c, dtype=kind)
    b = np.array([x + 20 for x in c], dtype=kind)
    g = search(a, b, k, N, R, 1, 6, sep * Ta)
    if frac < 1 / k or frac < sep:
        check(isinstance(g, str), "%.2f of a window of data, separation %g: returned %s", frac, sep, g)
    elif not isinstance(g, str):
        bounded(g, N, R, k)
        check(abs(g[0] - 20) < 2 * R, "dt=%s", g)
    else:
        check(frac < sep + 1 or sep < 2, "%s with enough data", g)
    return digest(frac, g if isinstance(g, str) else "ok")


def command(ctx, what, precomp):
    """The command line fails with an error, and prints nothing to be taken for a result."""
    rnd = random.Random("%d cmd" % ctx.seed)
    q, R = 12, 16
    Ta = (1 << q) * R
    ev = lambda n, lo, hi: sorted(int(rnd.uniform(lo, hi) * 256) for _ in range(n))
    if what == "uncorrelated":
        a, b = ev(25000, 0, 8.5 * Ta), ev(25000, 0, 8.5 * Ta)
    elif what == "short":
        a = ev(500, 0, 0.5 * Ta)
        b = a
    elif what == "window":
        a = ev(2000, 0, 1.5 * Ta) + ev(1, 8.1 * Ta, 8.2 * Ta)
        b = a
    elif what == "disjoint":
        a, b = ev(2000, 0, 9 * Ta), ev(2000, 20 * Ta, 29 * Ta)
    elif what == "single":
        a = b = [1000 * 256]
    else:                   # offset too large
        a = ev(30000, 0, 9 * Ta)
        b = [int(x * 1.0006) for x in a]
    for name, e in (("a", a), ("b", b)):
        ts.put(ctx.path(name), ts.encode("a1", [(x, 1) for x in e]))
    args = ["-t", ctx.path("a"), "-T", ctx.path("b"), "-q", q, "-R", R] + precomp
    try:
        code, out = ts.cli(F.main, *args)
    except Exception as e:
        if what in ("uncorrelated", "window", "offset"):
            check(isinstance(e, ValueError), "%s: raised %r", what, e)
        return digest(what, type(e).__name__)
    check(code != 0 and not out.strip(), "%s: exit %s, printed %r", what, code, out)
    return digest(what, code)


def cases(ctx):
    confs = [(8, 16, 1, 6, 1, 6), (10, 1, 1, 6, 1, 0), (12, 16, 1, 6, 1, 0.1), (4, 16, 1, 6, 2, 6), (1, 16, 1, 6, 2, 0), (10, 16, 3, 2, 3, 5)]
    if ctx.thorough:
        confs += [(q, R, 1, sep, k, S) for q in (3, 9, 13) for R in (1, 16, 100) for sep in (1, 1.5, 6) for k in (1, 2) for S in (0, 6)]
    for conf in confs:
        for kind in (np.float64, np.longdouble):
            for A in range(64):
                if not ctx.thorough and (A + (kind is np.float64)) % 2:
                    continue
                yield ("subsets of a: q=%d R=%d r=%d sep=%g k=%d S=%g" % conf + " a=%s %s" % (bin(A), kind.__name__), subsets) + conf + (kind, A)
    for q, R in ((12, 16), (10, 16), (13, 4), (11, 100)) + (((14, 2), (15, 16)) if ctx.thorough else ()):
        for jitter in (0, 3 * R, 20 * R):
            for nc, nn in ((300, 300), (60, 300), (0, 900), (900, 900)):
                for dt in (0, 12.5 * R, -31.2 * R):
                    for seed in range(ctx.pick(1, 4)):
                        yield ("threshold q=%d R=%d jitter=%g common=%d other=%d dt=%g seed=%d" % (q, R, jitter, nc, nn, dt, seed), threshold, seed, q, R, jitter, nc, nn, dt, 9)
    for q, R in ((16, 5000), (15, 9000), (14, 9999), (17, 2000)):
        for dt in (0, 5e6, -6e7, 9.5e7, 9.9e7, 9.997e7, 1.0003e8, 1.001e8, 1.3e8, -9.5e7, -9.9e7, -9.997e7, -1.0003e8, -1.001e8, -1.3e8, -8e7):
            if abs(dt) > 0.5 * (1 << q) * R:
                continue
            for seed in range(ctx.pick(1, 3)):
                yield ("delay q=%d R=%d dt=%g seed=%d" % (q, R, dt, seed), delay, q, R, dt, 0, seed)
            yield ("delay q=%d R=%d dt=%g single pass" % (q, R, dt), delay, q, R, dt, 0, 0, R)
    for sep in (16, 32, 48):
        for n in {0, 1, 2, sep // 4, sep // 2 - 2, sep // 2 - 1, sep // 2, sep // 2 + 1, sep // 2 + 2, sep}:
            for bins in sorted({n, -n}):
                for r in (16, 1):
                    for dt in (0, 320, -160):
                        yield ("drift of %d bins, separation %d, target %d, dt=%d" % (bins, sep, r, dt), drift, bins, sep, r, dt)
    for i in range(ctx.pick(24, 100)):
        for s in (1, -1):
            for q, R, sep in ((12, 64, 16), (13, 16, 24), (11, 100, 12)):
                df = 1.18e-4 + i * 1e-5 / ctx.pick(24, 100)
                for r in (1, R / 4):
                    yield ("near the limit q=%d R=%d r=%g sep=%d df=%g" % (q, R, r, sep, s * df), near, q, R, r, sep, (0, 1000, -700)[i % 3], s * df)
    for q, R, r, sep, k in ((16, 16, 1, 30, 1), (14, 16, 1, 60, 1), (15, 8, 8, 40, 2)):
        for df in (1e-4, 1.15e-4, 1.19e-4, 1.22e-4, 1.25e-4, 1.3e-4, 1.5e-4, 1.7e-4, 2e-4, 3e-4, 4e-4):
            for s in (1, -1):
                for dt in (0, -50000):
                    if abs(dt) + df * (sep + 2) * (1 << q) * R * k < 0.45 * (1 << q) * R:
                        yield ("frequency q=%d R=%d r=%d sep=%d k=%d dt=%g df=%g" % (q, R, r, sep, k, dt, s * df), frequency, q, R, r, sep, k, dt, s * df, 0)
    for q in (2, 4, 8, 12, 16):
        for R in (1, 16, 100):
            for k in (1, 2):
                for S in (0, 6):
                    for per in (1, 2, 3):
                        for which in (0, 1, 2):
                            yield ("flat q=%d R=%d k=%d S=%g per=%d which=%d" % (q, R, k, S, per, which), flat, q, R, k, S, per, which, 2)
    for q, R in ((14, 16), (16, 16), (15, 50), (18, 4)):
        for density in (0.3, 1, 3):
            for S in (8, 60):
                for seed in range(ctx.pick(2, 12)):
                    if R << (q - 1) < 2e5:
                        continue
                    yield ("uncorrelated q=%d R=%d density=%g S=%g seed=%d" % (q, R, density, S, seed), uncorrelated, q, R, density, S, 1, seed)
    for q, R in ((14, 16), (12, 64)):
        for k in (1, 2, 4):
            for sep in (1, 2, 6):
                for i in range(1, ctx.pick(16, 64)):
                    frac = i * (sep + 1.5) / ctx.pick(16, 64)
                    yield ("short q=%d R=%d k=%d sep=%g span=%g" % (q, R, k, sep, frac), short, q, R, k, sep, frac, (np.float64, np.longdouble)[i % 2])
    for what in ("uncorrelated", "short", "window", "disjoint", "single", "offset"):
        for precomp in ([], ["-P", "--precomp-stop", "2e-7"], ["-P", "--precomp-stop", "2e-7", "--precomp-fullscan"], ["-P", "--precomp-ordered", "--precomp-stop", "3e-7", "-V", "7"]):
            yield ("command %s %s" % (what, precomp), command, what, precomp)
