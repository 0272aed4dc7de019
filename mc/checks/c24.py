"""Recovery of known time and frequency offsets over a grid of clock relations and search parameters."""
import sys
import numpy as np
from engine import check, same, digest
import fpfind.fpfind
from fpfind.lib.utils import normalize_timestamps
import streams

F = sys.modules["fpfind.fpfind"]
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of a bounded grid of clock relations x search parameters x event patterns, running the real search and checking the residual against the known truth"
RULE = ("every admissible point of a grid of (frequency offset, delay) x (bins, resolutions, separation, wraps, threshold) x event patterns x number types; an outcome is a distinct "
        "returned pair")
ASSUMPTIONS = ["event patterns are pseudo-random with enumerated seeds and strong correlations (first-pass significance well above threshold)",
               "the residual allowed is 3 final resolution steps, or that of a single coarse pass where the search's own guard may stop it"]


def one(ctx, seed, q, R, r, sep, k, dt, df, S, kind, gap):
    p = streams.Pair("%d/%s" % (ctx.seed, seed), q, R, k, sep, dt, df, dtype=getattr(np, kind), gap=gap)
    a, b = p.normalized(normalize_timestamps)
    a.flags.writeable = b.flags.writeable = False
    ka, kb = a.copy(), b.copy()
    res = []
    for direct in (False, True):
        if direct:
            g = F.time_freq(a, b, k, p.N, R, r, S, p.Ts)
        else:
            g = F.fpfind(a, b, k, p.N, R, r, S, p.Ts, [0])
        check((a == ka).all() and (b == kb).all(), "the given timestamps were modified")
        e = p.residual(*g)
        tol = p.tolerance(r)
        check(max(map(abs, e)) <= tol, "found dt=%s df=%s, true dt=%s df=%s: residual %.2f ns at the start, %.2f ns at the end of %.3f ms (allowed %.1f)",
              float(g[0]), float(g[1]), p.want, df, e[0], e[1], (p.Ts + p.Ta) * 1e-6, tol)
        res.append((float(g[0]), float(g[1])))
        ctx.count("searches")
    same(res[1], res[0], "repeated search")
    if tol > 3 * r:
        ctx.count("coarse_tolerance")
    return digest(res)


def cases(ctx):
    conf = [(16, 16, 1, 100, 1), (16, 16, 1, 1000, 1), (14, 16, 1, 1000, 1), (14, 32, 2, 600, 2), (15, 8, 1, 300, 4), (16, 16, 4, 60, 1), (13, 4, 1, 50, 1), (18, 16, 1, 400, 1),
            (16, 16, 1, 6, 1), (16, 16, 16, 20, 1), (15, 10, 3, 77.5, 3)]
    if ctx.thorough:
        conf += [(20, 16, 1, 6, 1), (19, 16, 1, 100, 1), (19, 16, 1, 1.6, 2), (12, 16, 1, 6000, 1), (17, 64, 8, 200, 1), (19, 2, 1, 40, 2), (16, 1, 1, 100, 1), (16, 8, 8, 100, 1)]
    dfs = (0, 3e-8, -1e-6, 1e-5, -5e-5, 1.15e-4) if not ctx.thorough else (0, 1e-9, -1e-8, 3e-8, -2e-7, -1e-6, 2e-6, 1e-5, -2e-5, -5e-5, 8e-5, 1e-4, 1.19e-4, -1.19e-4)
    dts = (0, 1000.5, -20000, 150000, -230000) if not ctx.thorough else (0, 1, -7.25, 200, 1000.5, -1000.5, -20000, 33333.3, 150000, -230000, 2000000, -3700000)
    for n, (q, R, r, sep, k) in enumerate(conf):
        for i, df in enumerate(dfs):
            for j, dt in enumerate(dts):
                for seed in range(ctx.pick(1, 1 if q >= 18 else 2)):
                    # number type, threshold and gaps cycle over the grid in quick, all combine in thorough
                    kinds = ((("longdouble", 6, False), ("float64", 15, False), ("longdouble", 6, True), ("float64", 6, False)) if not ctx.thorough else
                             [(x, S, g) for x in ("longdouble", "float64") for S in (6, 15) for g in (False, True)])
                    for m, (kind, S, gap) in enumerate(kinds):
                        if (m % 4 != (n + i + j) % 4) if not ctx.thorough else (m % 2 != (n + i + j + seed) % 2):
                            continue
                        if gap and sep > 100:
                            continue
                        if not admissible(q, R, k, sep, dt, df):
                            continue
                        yield ("q=%d R=%d r=%d sep=%s k=%d S=%s %s gap=%s dt=%s df=%s seed=%d" % (q, R, r, sep, k, S, kind, gap, dt, df, seed), one, seed, q, R, r, sep, k, dt, df, S, kind, gap)


def admissible(q, R, k, sep, dt, df):
    N = 1 << q
    Ta = N * R * k
    return abs(dt) + abs(df) * (sep + 2) * Ta < 0.45 * N * R and abs(df) + 3 * max(R, 2 * abs(df) * Ta) / (sep * Ta) < 2.0 ** -13 and abs(dt) < 9e7
