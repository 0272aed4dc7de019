"""The slow cross-correlation (g2_two_timestamps): every pair of near events counted once, in the right bin."""
import gc
import itertools
from collections import Counter
from fractions import Fraction
import numpy as np
from engine import check, same, digest
from fpfind.lib import g2_two_timestamps as M

CASE_LIMIT = 120
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of pairs of event sequences over a grid of boundary times x window starts x bin widths x number types, run on the real function against a direct count of all pairs in rational arithmetic"
RULE = "all pairs of non-decreasing sequences up to a length over grids of times on both sides of the window's ends and of the longest delay, for all starts, widths and number types; distinct histograms are counted"
ASSUMPTIONS = ["whether the last event of the first sequence is counted at delays of 10 ms and more is not judged"]
SPAN, BINS, FAR = 1 << 27, 1 << 18, 10_000_000
H = Fraction(1, 8)
NEAR = [0, 1, 3, 5, 32, 33]
REACH = [1, 2, FAR, FAR + 1, FAR + 2, 2 * FAR + 2]
EDGE = [-1, 0, 1, SPAN - 1, SPAN, SPAN + 1]
FINE = [H, 1, 1 + H, FAR - H, FAR, FAR + H]
GRIDS = {"near": NEAR, "reach": REACH, "edges": EDGE, "fine": FINE, "mixed": [0, 1, FAR, FAR + 1, SPAN, SPAN + 1]}


def arr(seq, start, kind):
    a = np.array([int(start + x) if kind == "int64" else float(start + x) for x in seq], dtype=kind)
    a.flags.writeable = False
    return a


def judge(got, a, b, start, width, what):
    """Compares a histogram with the direct count; a and b are exact and sorted."""
    check(len(got) == BINS, "%s: %d bins instead of %d", what, len(got), BINS)
    a = [x for x in a if start < x <= start + SPAN]
    b = [x for x in b if start < x <= start + SPAN]
    must, may = Counter(), Counter()
    for y in b:
        for i, x in enumerate(a):
            k = int((y - x) // width) % BINS
            if y - x < FAR:
                must[k] += 1
            elif i == len(a) - 1:
                may[k] += 1
    have = {int(k): int(got[k]) for k in np.flatnonzero(got)}
    for k in set(have) | set(must):
        n = have.get(k, 0)
        check(must[k] <= n <= must[k] + may[k], "%s: bin %d holds %d, expected %d", what, k, n, must[k])
    return sorted(have.items())


def small(ctx, grid, start, width, kind, na, nb):
    seen = set()
    for s in itertools.combinations_with_replacement(GRIDS[grid], na):
        for r in itertools.combinations_with_replacement(GRIDS[grid], nb):
            a, b = arr(s, start, kind), arr(r, start, kind)
            got = M.g2(a, b, int(start) if kind == "int64" else float(start), float(width) if Fraction(width).denominator > 1 else int(width))
            h = judge(got, [start + Fraction(x) for x in s], [start + Fraction(x) for x in r], start, Fraction(width), "g2(%s, %s, start %s, width %s, %s)" % (a.tolist(), b.tolist(), start, width, kind))
            ctx.count("calls")
            if ctx.extra["calls"] % 100 == 0:
                gc.collect()        # the histograms' memory is not the interpreter's own
            if h:
                seen.add(repr(h))
    return digest(sorted(seen)) if seen else None


def long(ctx, n, step, lag, width, kind):
    """Streams with many events, some of which leave the range of delays as the count proceeds."""
    a = sorted(1 + i * step + i * i % 7 for i in range(n))
    b = sorted(x + lag for x in a[:: 2])
    got = M.g2(np.array(a, dtype=kind), np.array(b, dtype=kind), 0, width)
    h = judge(got, a, b, 0, Fraction(width), "%d events every %d ns, lag %d, width %s" % (n, step, lag, width))
    ctx.count("calls")
    return digest(h)


def repeated(ctx, n, m, kind):
    """Counts beyond 16 bits."""
    got = M.g2(np.array([5] * n, dtype=kind), np.array([7] * m, dtype=kind), 0, 1)
    same({int(k): int(got[k]) for k in np.flatnonzero(got)}, {2: n * m}, "%d x %d events at one time each" % (n, m))
    return digest(n, m)


def cases(ctx):
    for n, m in ((182, 181), (256, 257)) + (((700, 700),) if ctx.thorough else ()):
        yield ("%d x %d events" % (n, m), repeated, n, m, "float64")
    top = ctx.pick(3, 4)
    for kind in ("float64", "longdouble", "int64"):
        for grid in GRIDS:
            if kind == "int64" and grid == "fine":
                continue
            for start in (0, 12345, (1 << 45) + 3) + (() if kind == "int64" else (Fraction(1, 2),)):
                for width in (1, 2, 32, 1000) + ((Fraction(1, 8),) if kind != "int64" else ()) + ((50, Fraction(5, 2)) if ctx.thorough else ()):
                    for na in range(top + 1):
                        for nb in range(top):
                            if na + nb > ctx.pick(4, 5) or kind != "float64" and na + nb > ctx.pick(3, 4):
                                continue
                            yield ("%s, start %s, width %s, %s, %d x %d events" % (grid, start, width, kind, na, nb), small, grid, start, width, kind, na, nb)
    for n in (40, 200) + ((400, 700) if ctx.thorough else ()):
        for step in (1, 1000, 90001, 600000, 10 * FAR // 7):
            for lag in (0, 17, -17, FAR // 2, -FAR // 2, FAR - 1):
                for width in (1, 32, 0.125):
                    yield ("%d events every %d, lag %d, width %s" % (n, step, lag, width), long, n, step, lag, width, "longdouble")
