"""Searches followed step by step: what fails, why, with which numbers, and what an interrupted refinement returns."""
import math
import random
import re
import sys
import numpy as np
from engine import check, digest
import fpfind.fpfind

F = sys.modules["fpfind.fpfind"]
LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of stream relations x search parameters x thresholds, running the real search and an independent reference search machine (direct counting, exact "
             "decisions) side by side and comparing outcome, reason and every reported number")
RULE = ("every stream pair of a grid (common part, delay, frequency offset, density, seed) x bins, width, target width, separation, wraps x thresholds on either side of each significance; "
        "an outcome is a distinct sequence of decisions of the reference machine")
ASSUMPTIONS = ["histograms with two equally tall maxima, or decisions within rounding of their limit, leave the choice open: such searches are only required to end in a result within bounds or an error"]
CASE_LIMIT = 300
LIMIT = 2.0 ** -13


class Open(Exception):
    """Rounding decides."""


def counts(x, N, R, eps):
    y = x / R
    n = np.floor(y)
    d = np.abs(y - np.rint(y))
    edge = int(((d > 0) & (d < 8 * eps * (np.abs(y) + 1))).sum()) if eps else 0
    if eps and edge == 0:
        edge = int((d == 0).sum())
    return np.bincount((n % N).astype(np.int64), minlength=N), edge


def correlate(a, b, N, R, eps):
    (x, i), (y, j) = counts(a, N, R, eps), counts(b, N, R, eps)
    return np.rint(np.fft.irfft(np.conj(np.fft.rfft(x)) * np.fft.rfft(y), N)), (i + j) * int(max(x.max(), y.max()))


def peak(h, R, slack):
    """Signed position and significance of the tallest bin."""
    i = int(np.argmax(h))
    rest = np.delete(h, i)
    if len(rest) and rest.max() >= h[i] - 2 * slack:
        raise Open("tie")
    M = len(h)
    if 2 * i == M:
        raise Open("half way")
    bg = np.concatenate([h[i // 2:i], h[i + 1:(M + i) // 2 + 1]])
    if len(bg) == 0:
        raise Open("no background")
    sd = bg.std()
    if len(bg) > 1 and sd < 1e-6 or slack and sd < 0.1:
        raise Open("flat")                      # only rounding gives it a deviation
    return (i if 2 * i < M else i - M) * R, float((h[i] - bg.mean()) / sd) if sd > 1e-9 else 0.0


def side(x, limit, eps):
    """x >= limit, unless rounding decides."""
    if x != limit and abs(x - limit) <= eps * abs(limit):
        raise Open("limit")
    return x >= limit


def window(x, start, length):
    y = x - start
    return y[(y >= 0) & (y < length)]


def machine(a, b, k, N, R, target, S, Ts):
    """Reference search: ('ok', dt, df, how it ended) or ('failed', reason, numbers); raises Open."""
    end = min(a[-1], b[-1])
    span = k * R * N
    dt, f, passes, slack = 0, 1, 0, 0
    eps = 0
    trail = []
    while True:
        passes += 1
        have = float(end) / (R * N)
        if abs(have - round(have)) < 1e-9 and have != round(have):
            raise Open("wraps")
        want = span / (R * N)
        if abs(want - math.floor(want) - 0.5) < 1e-9:
            raise Open("wraps")
        D = min(round(want), math.floor(have)) * R * N
        ea, eb = window(a, 0, D), window(b, 0, D)
        if len(ea) == 0 or len(eb) == 0:
            return ("failed", "empty", {}, trail)
        h, slack = correlate(ea, eb, N, R, eps)
        if passes == 1:
            while True:
                d1, s = peak(h, R, slack)
                if s == 0:
                    return ("failed", "Bin saturation", {"S": 0.0, "r": R, "dt1": d1}, trail)
                if abs(s - S) < 0.001:
                    raise Open("threshold")
                if s >= S:
                    break
                trail.append("merged")
                if len(h) % 2:
                    raise Open("no bins left")
                h = h[::2] + h[1::2]
                R *= 2
                if R > 1e4:
                    return ("failed", "Resolution OOB", {"S": s, "r": R, "dt1": d1}, trail)
        else:
            d1, s = peak(h, R, slack)
        if abs(d1) > 1e8:
            return ("failed", "Time delay OOB", {"S": s, "r": R, "dt1": d1}, trail + ["pass %d" % min(passes, 3)])
        la, lb = window(a, Ts, D), window(b, Ts, D)
        if len(la) == 0 or len(lb) == 0:
            return ("failed", "empty", {}, trail)
        h, slack = correlate(la, lb, N, R, eps)
        d2, _ = peak(h, R, slack)
        df = (d2 - d1) / Ts
        if passes > 1:
            ldt, ldf = 10 * max(abs(dt), 1), 10 * max(abs(f - 1), 1e-9)
            for x, l in ((d1, ldt), (d2, ldt), (df, ldf)):
                if x and abs(abs(x) - l) < 1e-6 * l:
                    raise Open("jump")
            if abs(d1) > ldt or abs(d2) > ldt or abs(df) > ldf:
                return ("ok", dt, f - 1, trail + ["interrupted in pass %d" % min(passes, 3)])
        dt += f * d1
        f *= 1 + df
        if side(abs(f - 1), LIMIT, 1e-9):
            return ("failed", "Compensation OOB", {"S": s, "r": R, "dt1": d1, "dt2": d2, "dt": dt, "df": (f - 1) * 1e6}, trail + ["pass %d" % min(passes, 3)])
        if R == target:
            return ("ok", dt, f - 1, trail + ["%d passes" % passes])
        if d1 or df:
            b = (b - d1) / (1 + df)
            eps = float(np.finfo(b.dtype).eps)
        R = R / (Ts / span / math.sqrt(2))
        if abs(R - target) < 1e-9 * R and R != target:
            raise Open("target")
        R = max(R, target)
        if passes > 40:
            raise Open("long")


def numbers(text):
    out = {}
    for m in re.finditer(r"(\w+)=\s*([-+\d.einfa]+)", text):
        out[m.group(1)] = float(m.group(2))
    return out


def follow(a, b, k, N, R, target, S, Ts, what):
    try:
        try:
            want = machine(a, b, k, N, R, target, S, Ts)
        except Open as e:
            want = ("open", str(e))
        got = tuple(map(float, F.time_freq(a, b, k, N, R, target, S, Ts)))
    except ValueError as e:
        got = str(e)
    if want[0] == "open":
        if not isinstance(got, str):
            check(got[0] == got[0] and abs(got[1]) < LIMIT, "%s: returned %s", what, got)
        return "open " + want[1]
    if want[0] == "ok":
        check(not isinstance(got, str), "%s: %s, expected dt=%s df=%s (%s)", what, got, *want[1:])
        check(abs(got[0] - want[1]) < 1e-3 + 1e-9 * abs(want[1]) and abs(got[1] - want[2]) < 1e-13, "%s: returned dt=%s df=%s, expected dt=%s df=%s (%s)", what, *got, *want[1:])
        return " ".join(want[3])
    reason, num, trail = want[1:]
    check(isinstance(got, str), "%s: returned %s, expected failure: %s %s", what, got, reason, num)
    if reason != "empty":
        check(got.startswith(reason), "%s: failed with %r, expected %s %s", what, got, reason, num)
        seen = numbers(got)
        for name, v in num.items():
            check(name in seen, "%s: %r lacks %s=%s", what, got, name, v)
            tol = {"S": 0.0011 + 1e-6 * abs(v), "r": 0.51, "df": 0.000051}.get(name, 0.51 + 1e-9 * abs(v))
            check(abs(seen[name] - v) <= tol, "%s: %r, expected %s=%s", what, got, name, v)
    else:
        check(not any(got.startswith(r) for r in ("Bin sat", "Resolution", "Time delay", "Compensation")), "%s: failed with %r, but a window is empty", what, got)
    return reason + " " + " ".join(trail)


def relation(ctx, q, R, k, sep, nc, nn, dt, df, seed, kind):
    """Streams b = a (1 + df) + dt with private events, searched with every target width and threshold."""
    N = 1 << q
    Ta = N * R * k
    rnd = random.Random("%d c36 %d %d %d %d %s %s %d" % (ctx.seed, seed, q, nc, nn, dt, df, k))
    Ts = sep * Ta
    out = []
    end = Ts + 1.4 * Ta
    spans = [(0.0, 1.4 * Ta), (Ts - 0.2 * Ta, end)] if sep > 2 else [(0.0, end)]
    pick = lambda n: [rnd.uniform(x, y) for x, y in spans for _ in range(int(n * k * (y - x) / Ta) + 1)]
    c = pick(nc) if nc else []
    a = np.array(sorted([0.0] + c + pick(nn)), dtype=kind)
    b = np.array(sorted([0.0] + [x for x in (y * (1 + df) + dt for y in c) if x > 0] + pick(nn)), dtype=kind)
    a.flags.writeable = b.flags.writeable = False
    for target in dict.fromkeys((R, max(1, R / 4), 1)):
        for S in (0, 2, 3.3, 4.5, 6, 9, 20, 1e6):
            what = "q=%d R=%g wraps=%d separation=%g common=%d private=%d dt=%g df=%g seed=%d target=%g threshold=%g" % (q, R, k, sep, nc, nn, dt, df, seed, target, S)
            how = follow(a, b, k, N, R, target, S, Ts, what)
            ctx.count(how)
            out.append(how)
    return digest(out)


def lost(ctx, q, R, sep, first, second, kind):
    """Streams whose first pass sees one pair of delays, and whose second pass, over a shorter window, another."""
    N = 1 << q
    Ta = N * R
    Ts = sep * Ta
    rnd = random.Random("%d c36 lost" % ctx.seed)
    cut = round(sep / math.sqrt(2)) / (sep / math.sqrt(2))          # what the second pass still covers
    a, b = [0.0], [0.0]
    for start, d1, d2 in ((0, first[0], second[0]), (Ts, first[1], second[1])):
        for n, lo, hi, d in ((500, cut + 0.01, 1.0, d1), (150, 0.0, cut - 0.01, d2)):
            c = [start + rnd.uniform(lo, hi) * Ta for _ in range(n)]
            a += c
            b += [x + d for x in c]
    a.append(Ts + 1.5 * Ta)
    b.append(Ts + 1.5 * Ta)
    a, b = (np.array(sorted(x for x in y if x >= 0), dtype=kind) for y in (a, b))
    out = []
    for target in (R, R / 2, R / 5):
        how = follow(a, b, 1, N, R, target, 6, Ts, "q=%d R=%g separation=%g delays %s, then %s, target=%g" % (q, R, sep, first, second, target))
        ctx.count(how)
        out.append(how)
    return digest(out)


def cases(ctx):
    kinds = (np.float64, np.longdouble)
    i = 0
    for q, R, k, sep in ((8, 16, 1, 6), (10, 16, 1, 6), (11, 16, 2, 20), (9, 100, 3, 2.5), (12, 64, 1, 48), (10, 3000, 1, 4), (10, 1, 1, 6), (9, 2500, 1, 6), (11, 625, 1, 8)):
        half = (1 << q) * R / 2
        for nc, nn in ((0, 200), (30, 120), (100, 200), (400, 100), (5, 10)):
            for dt in (0, 3.3 * R, -0.2 * half, 0.9 * half, -0.97 * half):
                for df in (0, 3e-7, -2e-5, 1.1e-4, -1.3e-4, 6e-4):
                    for seed in range(ctx.pick(1, 10)):
                        i += 1
                        yield ("relation q=%d R=%g wraps=%d separation=%g common=%d private=%d dt=%g df=%g seed=%d" % (q, R, k, sep, nc, nn, dt, df, seed), relation, q, R, k, sep, nc, nn, dt, df, seed, kinds[i % 2])
        for df in (1.17e-4, 1.19e-4, 1.2e-4, 1.21e-4, 1.215e-4, 1.22e-4, 1.225e-4, 1.23e-4, 1.25e-4):
            for s in (1, -1):
                for seed in range(ctx.pick(1, 10)):
                    i += 1
                    yield ("limit q=%d R=%g wraps=%d separation=%g df=%g seed=%d" % (q, R, k, sep, s * df, seed), relation, q, R, k, sep, 300, 100, 2.2 * R, s * df, seed, kinds[i % 2])
    for q, R, sep in ((14, 16, 3.5), (15, 4, 3.4)):
        limit = 2.0 ** -13 * sep * (1 << q)                     # in bins
        for d in (10.5, -20.5):
            for j in (0.2, 0.5, 0.8, 0.95):
                for x in (0.3, 0.6, 0.8, 0.9, 1, 1.1, 1.2, 1.4, 2, -0.5, -1.2):
                    for s in (1, -1):
                        i += 1
                        j1, j2 = int(s * j * limit), int(s * x * limit)
                        yield ("lost q=%d R=%g separation=%g delay=%g late=%d, then late=%d" % (q, R, sep, d, j1, j2), lost, q, R, sep, (d * R, (d + j1) * R), ((d + 3) * R, (d + 3 + j2) * R), kinds[i % 2])
    for q, R, sep in ((12, 16, 2), (11, 4, 2)):
        for d in (0, 10.5, -10.5, 100.5, -40.5):
            for j in (0, -0.4, 0.4):
                j = int(j * 2.0 ** -12 * (sep << q) if sep == int(sep) else 0)       # late shift, in bins
                ref = 10 * max(abs(d), 1)
                for m in (0.5, 0.9, 0.97, 1.03, 1.1, 2, -0.9, -0.97, -1.03, -1.1):
                    for late in (0, 1, -1, 5, 200):
                        y = d + m * ref
                        if max(abs(y), abs(y + late)) < 0.3 * (1 << q):
                            i += 1
                            yield ("lost q=%d R=%g separation=%g delay=%g late=%d, then %g late=%d" % (q, R, sep, d, j, y, late), lost, q, R, sep, (d * R, (d + j) * R), (y * R, (y + late) * R), kinds[i % 2])
                            i += 1
                            yield ("lost late q=%d R=%g separation=%g delay=%g late=%d, then late=%g" % (q, R, sep, d, j, m * ref), lost, q, R, sep, (d * R, (d + j) * R), (d * R, (d + m * ref) * R), kinds[i % 2])
    for q, R, sep in ((15, 9900, 2), (15, 9000, 2)):
        for d in (0, 9e6, -9.5e6, 2e7):
            for y in (8e7, 9e7, 9.5e7, 1.05e8, 1.1e8, 1.2e8):
                for z in (1, -1):
                    i += 1
                    yield ("lost q=%d R=%g delay=%g, then %g" % (q, R, d, z * y), lost, q, R, sep, (d, d), (d + z * y, d + z * y), np.float64)
    for q, R, sep in ((15, 9999, 2), (15, 8000, 2.5), (16, 5000, 6), (15, 10000, 6)):
        for nc, nn in ((0, 1500), (700, 300)):
            for dt in (0, 9e7, -9.9e7, 1e8, -1e8, 1.0001e8, -1.0001e8, 1.01e8, -1.4e8):
                if abs(dt) < (1 << q) * R / 2:
                    for seed in range(ctx.pick(2, 10)):
                        yield ("far q=%d R=%g separation=%g common=%d private=%d dt=%g seed=%d" % (q, R, sep, nc, nn, dt, seed), relation, q, R, 1, sep, nc, nn, dt, 0, seed, np.float64)
