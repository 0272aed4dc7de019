"""Cross-correlation against direct pair counting."""
import itertools, random
from fractions import Fraction
import numpy as np
from engine import check, same, digest
from fpfind.lib import utils as U

LEVEL = "exploration"
RULE = ("all pairs of short timestamp sequences over a grid (repeated, wrapped, negative, fractional times) x bin counts x widths x number types against pair counting; larger "
        "bin counts with enumerated seeds; an outcome is a distinct histogram")


def exact(x):
    n, m = x.as_integer_ratio() if hasattr(x, "as_integer_ratio") else (int(x), 1)
    return Fraction(int(n), int(m))


def brute(a, b, N, r):
    h = [0] * N
    ba = [int(exact(x) // r) for x in a]
    bb = [int(exact(x) // r) for x in b]
    for x in ba:
        for y in bb:
            h[(y - x) % N] += 1
    return h


def compare(got, want, what):
    same(len(got), len(want), "histogram length, " + what)
    tol = 1e-7 * max(1.0, max(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if not abs(g - w) <= tol:
            check(False, "bin %d holds %s, %d pairs counted, %s", i, g, w, what)


def correlate(a, b, N, r):
    return U.get_xcorr(U.generate_fft(a, N, r), U.generate_fft(b, N, r))


def small(ctx, dtype, N, r, grid, na, nb):
    seen = set()
    ffts = {}
    for n in {na, nb}:
        for s in itertools.combinations_with_replacement(grid, n):
            a = np.array([int(x) if dtype in ("int64", "uint64") else float(x) for x in s], dtype=dtype)
            a.flags.writeable = False
            ffts[s] = U.generate_fft(a, N, float(r))
    for x in itertools.combinations_with_replacement(grid, na):
        for y in itertools.combinations_with_replacement(grid, nb):
            want = brute(x, y, N, r)
            compare(U.get_xcorr(ffts[x], ffts[y]).tolist(), want, "times %s and %s, %d bins of %s" % ([float(v) for v in x], [float(v) for v in y], N, float(r)))
            seen.add(tuple(want))
            ctx.count("pairs")
    return digest(sorted(seen))


def filtered(ctx, N, r, kernel):
    """A filter in frequency space convolves the histogram with the filter's kernel."""
    seen = []
    grid = [0, r, N * r - r, N * r / 2]
    kernel = [kernel[i] if i < len(kernel) else 0 for i in range(N)]
    for x in itertools.combinations_with_replacement(grid, 2):
        for y in itertools.combinations_with_replacement(grid, 2):
            fa, fb = (U.generate_fft(np.array(s, dtype=float), N, float(r)) for s in (x, y))
            filt = np.fft.fft(kernel) if len(fa) == N else np.fft.rfft(kernel)
            keep = filt.copy()
            h = brute([Fraction(v) for v in x], [Fraction(v) for v in y], N, Fraction(r))
            want = [abs(sum(kernel[j] * h[(i - j) % N] for j in range(N))) for i in range(N)]
            compare(U.get_xcorr(fa, fb, filt).tolist(), want, "times %s and %s, %d bins of %s, filter with kernel %s" % (x, y, N, r, kernel))
            compare(U.get_xcorr(fa, fb).tolist(), h, "times %s and %s, %d bins of %s, no filter" % (x, y, N, r))
            check((filt == keep).all(), "caller's filter modified")
            seen.append(want)
            ctx.count("pairs")
    return digest(seen)


def large(ctx, seed, N, r, na, nb, span, dtype):
    rnd = random.Random(seed)
    mk = lambda n: np.array(sorted(rnd.randrange(int(span * 4)) / 4 for _ in range(n)), dtype=dtype)
    a, b = mk(na), mk(nb)
    ka, kb = a.copy(), b.copy()
    b[: nb // 2] = a[: nb // 2]          # a real peak
    got = correlate(a, b, N, r)
    want = brute(a.tolist() if dtype == "float64" else a, b.tolist() if dtype == "float64" else b, N, Fraction(r))
    compare(got.tolist(), want, "%d and %d events over %s ns, %d bins of %s" % (na, nb, span, N, r))
    check((a == ka).all(), "caller's array modified")
    return digest(want)


def order(ctx, N, shift, r):
    """The sign convention: the second stream later by shift bins shows up at bin +shift."""
    a = np.array([0.0, 3 * r, 7 * r])
    got = correlate(a, a + shift * r, N, r)
    same(int(np.argmax(got)), shift % N, "peak bin for a delay of %d bins out of %d" % (shift, N))
    return digest(N, shift, r)


def empty(ctx, dtype, n):
    try:
        U.generate_fft(np.array([], dtype=dtype), n, 1.0)
    except ValueError:
        return digest(dtype, n)
    check(False, "empty array accepted")


def crowded(ctx, N, n, dtype):
    """More events in a bin than small counters hold."""
    a = np.array([0] * n + [3] * 5, dtype=dtype)
    b = np.array([1] * (n + 3) + [4] * 2, dtype=dtype)
    want = [0] * N
    for x, cx in ((0, n), (3, 5)):
        for y, cy in ((1, n + 3), (4, 2)):
            want[(y - x) % N] += cx * cy
    compare(correlate(a, b, N, 1).tolist(), want, "%d coinciding events" % n)
    return digest(want)


def cases(ctx):
    for n in (255, 256, 32768, 65536, 70000, 300000):
        for N in (4, 16):
            for dtype in ("float64", "longdouble", "int64"):
                yield ("%d coinciding %s events, %d bins" % (n, dtype, N), crowded, N, n, dtype)
    for dtype in ("float64", "longdouble", "int64"):
        for n in (2, 16, 1024):
            yield ("empty %s array, %d bins" % (dtype, n), empty, dtype, n)
    F = Fraction
    for r in (F(1), F(2), F(1, 8), F(16), F(3)):
        for N in (2, 4, 6, 10):
            top = N * r
            grid = sorted({F(0), r, r - r / 8, 2 * r, top - r, top - r / 8, top, top + r, 3 * top + r / 2})
            for dtype in ("float64", "longdouble", "int64", "uint64"):
                g = grid
                if dtype in ("int64", "uint64"):
                    g = [x for x in grid if x.denominator == 1]
                    if r.denominator > 1:
                        continue
                if dtype == "float64":
                    g = sorted(set(grid) | {-r, -r / 4})
                for na, nb in ((1, 1), (1, 2), (2, 1), (2, 2)) + (((3, 2), (3, 3)) if ctx.thorough else ()):
                    yield ("%s %d bins of %s, %d and %d events" % (dtype, N, float(r), na, nb), small, dtype, N, r, g, na, nb)
    for N in (8, 12, 64, 1024):
        for shift in (0, 1, 2, N // 2 - 1, N // 2, -1, -2, 1 - N // 2):
            for r in (1.0, 0.125, 16.0):
                yield ("delay of %d bins of %s out of %d" % (shift, r, N), order, N, shift, r)
    for N in (2, 4, 8):
        for r in (1.0, 16.0):
            for n in range(1, min(N, 4) + 1):
                for kernel in itertools.product((0, 1, -1, 2), repeat=n):
                    yield ("filter %s, %d bins of %s" % (kernel, N, r), filtered, N, r, kernel)
    for seed in range(ctx.pick(4, 30)):
        for N, r, span in ((16, 1.0, 1000), (256, 1.0, 200), (1000, 4.0, 10 ** 6), (4096, 16.0, 10 ** 9), (1 << 16, 0.5, 10 ** 5), (64, 1024.0, 7 * 10 ** 13), (1 << 18, 1.0, 10 ** 10)):
            for na, nb in ((1, 300), (200, 200)):
                for dtype in ("float64", "longdouble"):
                    yield ("seed %d: %d bins of %s, %d and %d %s events" % (ctx.seed * 1000 + seed, N, r, na, nb, dtype), large, ctx.seed * 1000 + seed, N, r, na, nb, span, dtype)
