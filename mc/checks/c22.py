"""Delays read off correlation histograms."""
import itertools
import numpy as np
from engine import check, same, digest
from fpfind.lib import utils as U

LEVEL = "exploration"
RULE = ("all histograms of even length up to a bound over a height alphabet x resolutions x k, and single peaks at every position of larger histograms; among equal heights any bin is "
        "accepted; an outcome is a distinct set of delays")


def pairs(p, N, r):
    """Acceptable answers for a peak in bin p."""
    a, b = p * r, (p - N) * r if p else 0.0
    if abs(a) == abs(b):
        return [(a, b), (b, a)]
    return [(a, b)] if abs(a) < abs(b) else [(b, a)]


def tup(x):
    return tuple(float(v) + 0.0 for v in x)


def delays(ctx, hist, r, ks):
    N = len(hist)
    h = np.array(hist, dtype=float)
    bins = np.arange(N) * r
    h.flags.writeable = bins.flags.writeable = False
    top = max(hist)
    ok = [q for p in range(N) if hist[p] == top for q in pairs(p, N, r)]
    got = tup(U.get_timing_delay_fft(h, bins))
    check(got in ok, "delay %s of histogram %s (bins of %s), expected %s", got, short(hist), r, ok[:4])
    for k in ks:
        got = U.get_top_k_delays_fft(h, bins, k)
        same(len(got), k, "number of delays reported for k=%d" % k)
        want = sorted(hist, reverse=True)[:k]
        free = set(range(N))
        for i, g in enumerate(got):
            if len(g) == 3:
                same(float(g[0]), float(want[i]), "height %d of top %d of %s" % (i, k, short(hist)))
            d = tup(g[-2:])
            p = next((p for p in free if hist[p] == want[i] and d in pairs(p, N, r)), None)
            check(p is not None, "delay %s reported as number %d of top %d of %s (bins of %s)", d, i + 1, k, short(hist), r)
            free.discard(p)
    for p in range(N) if N < 100 else (0, 1, N // 2 - 1, N // 2, N // 2 + 1, N - 1):
        d = tup(U.get_delay_at_index_fft(bins, p))
        check(d in pairs(p, N, r), "delay %s at bin %d of %d (bins of %s)", d, p, N, r)
    ch, cb = U.convert_histogram_fft(h, bins)
    order = list(range(N // 2, N)) + list(range(N // 2))
    same([float(x) for x in ch], [float(hist[i]) for i in order], "recentred heights")
    same([float(x) for x in cb], [(i - N if i >= N // 2 else i) * r for i in order], "recentred delays")
    return digest(hist, r)


def short(h):
    return h if len(h) < 20 else "a histogram of %d bins" % len(h)


def block(ctx, N, alpha, prefix, rs):
    seen = []
    for tail in itertools.product(alpha, repeat=N - len(prefix)):
        for r in rs:
            seen.append(delays(ctx, prefix + tail, r, range(1, N + 1)))
            ctx.count("histograms")
    return digest(seen)


def single(ctx, N, p, r):
    hist = [i * 7 % 5 for i in range(N)]
    hist[p] = 9
    hist[(p + N // 3) % N] = 8
    return delays(ctx, tuple(hist), r, (1, 2, 5) if N < 30 else (1, 2, 5, 9, 20, min(N // 2, 40)))


def close(ctx, N, base, r):
    """Tall bins that differ by a single count."""
    hist = [base + i * 7 % N for i in range(N)]
    return delays(ctx, tuple(hist), r, (1, 2, 3, N // 2, N))


def cases(ctx):
    for N in (2, 4):
        for first in range(4):
            yield ("histograms of %d bins starting %d" % (N, first), block, N, (0, 1, 2, 3), (first,), (1.0, 16.0, 0.125))
    for pre in itertools.product((0, 1, 2), repeat=2):
        yield ("histograms of 6 bins starting %s" % (pre,), block, 6, (0, 1, 2), pre, (1.0, 2.5))
        if ctx.thorough:
            yield ("histograms of 8 bins starting %s" % (pre,), block, 8, (0, 1, 2), pre, (1.0,))
    for N in (8, 16, 64):
        for base in (0, 1 << 24, 10 ** 9, 1 << 40):
            yield ("bins of %d and a few more counts, %d bins" % (base, N), close, N, base, 16.0)
    for N in (6, 8, 10, 64):
        for p in range(N):
            for r in (1.0, 4.0):
                yield ("peak in bin %d of %d bins of %s" % (p, N, r), single, N, p, r)
    for N in (1024, 1 << 16):
        for p in (0, 1, 2, N // 2 - 1, N // 2, N // 2 + 1, N - 2, N - 1, N // 3):
            yield ("peak in bin %d of %d" % (p, N), single, N, p, 16.0)
