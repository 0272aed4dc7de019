"""Peak statistics of histograms."""
import itertools, math
from fractions import Fraction
import numpy as np
from engine import check, same, digest, Violation
from fpfind.lib import utils as U

LEVEL = "exploration"
RULE = ("all histograms up to a length over a height alphabet x centres (none, every bin from both ends) x window widths x resolutions, and larger single peaks; an outcome is a "
        "distinct set of statistics")


def near(got, want, what):
    check(got is not None and abs(float(got) - float(want)) <= 1e-9 * max(1.0, abs(float(want))), "%s is %s, expected %s", what, got, float(want))


def stats(s, signal, background, what):
    same([float(x) for x in s.signal], [float(x) for x in signal], "signal bins, " + what)
    same([float(x) for x in s.background], [float(x) for x in background], "background bins, " + what)
    if not signal:
        return
    same(float(s.max), float(max(signal)), "maximum, " + what)
    if not background:
        check(s.mean is None and s.stdev is None, "mean and deviation of no background: %s %s, %s", s.mean, s.stdev, what)
        return
    n = len(background)
    mean = Fraction(sum(background), n)
    var = sum((x - mean) ** 2 for x in background) / n
    sd = math.sqrt(var)
    near(s.mean, mean, "background mean, " + what)
    near(s.stdev, sd, "background deviation, " + what)
    near(s.total, sum(signal) - len(signal) * mean, "total, " + what)
    if var == 0:
        check(s.significance_raw is None and s.significance2 is None, "significances over a flat background: %s %s, %s", s.significance_raw, s.significance2, what)
        same(float(s.significance), 0.0, "significance over a flat background, " + what)
    else:
        check(abs(float(s.significance) - float(max(signal) - mean) / sd) <= 0.000501, "significance is %s, expected %.6f, %s", s.significance, float(max(signal) - mean) / sd, what)
        full = signal + background
        n = len(background) // len(signal)
        groups = [sum(background[i * len(signal):(i + 1) * len(signal)]) for i in range(n)]
        got = s.significance2
        if n == 0 or len(set(groups)) == 1:
            same(got, None, "significance of the total without background variation, " + what)
        else:
            m = Fraction(sum(groups), n)
            want = float(sum(signal) - len(signal) * mean) / math.sqrt(sum((x - m) ** 2 for x in groups) / n)
            check(got is not None and abs(float(got) - want) <= 0.000501, "significance of the total is %s, expected %.6f, %s", got, want, what)
        m = Fraction(sum(full), len(full))
        v = sum((x - m) ** 2 for x in full) / len(full)
        if v:
            near(s.significance_raw, float(max(full) - m) / math.sqrt(v), "raw significance, " + what)
    if mean:
        near(s.g2, max(signal) / mean, "g2, " + what)
    else:
        check(s.g2 is None, "g2 over no background counts is %s, %s", s.g2, what)


def split(hist, c, w):
    N = len(hist)
    signal = [hist[i] for i in range(N) if abs(i - c) <= w]
    left = [hist[i] for i in range(N) if i < c - w]
    right = [hist[i] for i in range(N) if i > c + w]
    return signal, left[len(left) - (len(left) + 1) // 2:] + right[:(len(right) + 1) // 2]


def one(ctx, hist, res, wins, centers):
    N = len(hist)
    h = np.array(hist, dtype=float)
    h.flags.writeable = False
    seen = []
    same([float(x) for x in U.get_statistics(h).signal], [float(x) for x in hist], "signal without resolution")
    stats(U.get_statistics(h), list(hist), list(hist), "whole histogram %s" % short(hist))
    for win in wins:                    # centres anywhere below zero: in one of the bins on either side
        w = math.ceil(Fraction(win or 0) / 2)
        for k, f in itertools.product(sorted({0, 1 % N, N - 1}), (0.125, 0.75)) if None in centers else ():
            kw = {"center": -(k + f) * res}
            if win is not None:
                kw["window"] = win * res
            st = U.get_statistics(h, res, **kw)
            for i in (0, 1):
                sig, bg = split(hist, -(k + i) % N, w)
                try:
                    stats(st, sig, bg, "histogram %s bins of %s center %s window %s" % (short(hist), res, kw["center"], kw.get("window")))
                    break
                except Violation:
                    if i:
                        raise
            ctx.count("calls")
    for win, cen in itertools.product(wins, centers):
        kw = {}
        if cen is None:
            c = hist.index(max(hist))
        else:
            c = cen if cen >= 0 else N + int(cen)
            kw["center"] = (cen + ((0.25, 0.875)[cen % 2] if cen >= 0 else 0)) * res       # anywhere in a bin
        if win is not None:
            kw["window"] = win * res
        w = math.ceil(Fraction(win or 0) / 2)
        sig, bg = split(hist, c, w)
        stats(U.get_statistics(h, res, **kw), sig, bg, "histogram %s bins of %s center %s window %s" % (short(hist), res, kw.get("center"), kw.get("window")))
        seen.append((sig, bg))
        ctx.count("calls")
    return digest(seen)


def short(h):
    return h if len(h) < 20 else "of %d bins" % len(h)


def block(ctx, N, alpha, prefix, res):
    return digest([one(ctx, list(prefix + t), res, (None, 0, 1, 2, 3, 2.5, 40), [None] + list(range(N)) + list(range(-N, 0))) for t in itertools.product(alpha, repeat=N - len(prefix))])


def noresolution(ctx):
    try:
        U.get_statistics(np.array([1, 2, 3]), center=1)
    except ValueError:
        return 1
    check(False, "centre without resolution accepted")


def single(ctx, N, p, res):
    hist = [i * 7 % 5 for i in range(N)]
    hist[p] = 90
    return one(ctx, hist, res, (None, 1, 4, 10), (None, 0, p, N - 1, -1, -N // 2))


def cases(ctx):
    yield ("centre without resolution", noresolution)
    for N in (2, 3, 4):
        for f in (0, 1, 3):
            yield ("histograms of %d bins starting %d" % (N, f), block, N, (0, 1, 3), (f,), 1.0)
            yield ("histograms of %d bins starting %d, bins of 16" % (N, f), block, N, (0, 1, 3), (f,), 16.0)
    for pre in itertools.product((0, 1, 3), repeat=2):
        yield ("histograms of 5 bins starting %s" % (pre,), block, 5, (0, 1, 3), pre, 2.0)
        yield ("histograms of 6 bins starting %s" % (pre,), block, 6, (0, 3) if not ctx.thorough else (0, 1, 3), pre, 1.0)
    for N in (32, 33, 1000):
        for p in (range(N) if N < 40 else (0, 1, 2, 3, 499, 500, 501, 997, 998, 999)):
            yield ("peak in bin %d of %d" % (p, N), single, N, p, 4.0)
