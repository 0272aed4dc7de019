"""Precompensation candidates: exact list, scan order, first success, combination, full scan."""
import inspect
import itertools
import sys
from fractions import Fraction
import numpy as np
from engine import check, same, digest
import fpfind.fpfind
from fpfind.lib.constants import PeakFindingFailed
from fpfind.lib.utils import normalize_timestamps
import streams

F = sys.modules["fpfind.fpfind"]
LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of candidate ranges against an exact rational reference, of all success/failure histories of a scan (stubbed search), and of real scans where the "
             "correction limit decides which candidates succeed")
RULE = ("states are (candidate index, found result, mode) of a reference scan machine; transitions are candidate outcomes; every history of outcomes up to the bound is replayed on the "
        "real scan; ranges enumerate start x stop x step in exact rational units")
ASSUMPTIONS = ["a candidate's own search is decided by C24 and C26"]


def candidates(start, stop, step, ordered):
    """start, stop, step: integers in units of some 10^-n."""
    if step == 0:
        return [Fraction(0)]
    if ordered:
        return [Fraction(start + i * step) for i in range((stop - start) // step + 1)]
    out = [Fraction(start)]
    for i in range(1, stop // step + 1):
        out += [Fraction(start + i * step), Fraction(start - i * step)]
    return out


def lists(ctx, start, step, unit, ordered):
    seen = []
    for stop in list(range(0, 31)) + [50, 77, 100, 1000, 1220]:
        if ordered and stop < start:
            continue
        want = candidates(start, stop, step, ordered)
        # decimal literals, as given on a command line
        u = lambda n: float("%de-%d" % (n, unit))
        got = [float(x) for x in F.generate_precompensations(u(start), u(stop), u(step), **({"ordered": ordered} if ordered or stop % 2 else {}))]
        what = "candidates for start=%g stop=%g step=%g ordered=%s" % (u(start), u(stop), u(step), ordered)
        check(len(got) == len(want), "%s: %d values %s, expected %d (last %s)", what, len(got), got[-3:], len(want), float(want[-1]) * 10.0 ** -unit)
        for i, (g, w) in enumerate(zip(got, want)):
            w = float(w * Fraction(1, 10 ** unit))
            check(abs(g - w) <= 1e-9 * max(u(step), abs(w)), "%s: value %d is %r, expected %r", what, i, g, w)
        ctx.state("list", start, stop, step, unit, ordered)
        ctx.step(len(want))
        seen.append(got)
    return digest(seen)


def between(ctx, n, part, unit, ordered):
    """A bound that falls just short of, or just beyond, a multiple of the step."""
    step = Fraction(1, 10 ** unit)
    stop = n * step + part * step
    want = candidates(Fraction(0), stop, step, ordered)
    got = [float(x) for x in F.generate_precompensations(0.0, float(stop), float(step), ordered=ordered)]
    check(len(got) == len(want) and all(abs(g - w) < 1e-9 * step * (n + 1) for g, w in zip(got, want)), "candidates up to %g in steps of %g, ordered=%s: %d values, last %s, expected %d", float(stop), float(step), ordered, len(got), got[-2:], len(want))
    return digest(n, part, unit, ordered)


def scan(ctx, n, full, kind, f0):
    """All 2^n outcome histories of the candidates with a stubbed search."""
    real = F.time_freq
    params = inspect.signature(real)
    if len(params.parameters) != 8:         # not the search of one candidate as it is known here: the scans with real searches decide
        ctx.count("stub_unused")
        return None
    a = np.array([0.0, 5e8, 1e9])
    b = np.array([0.0, 5e8, 1e9])
    cands = [f0 + x * 1e-5 for x in (0, 1, -1, 2, -2, 3, -3)[:n]]
    outcomes = set()
    for hist in itertools.product((0, 1), repeat=n):
        calls = []

        def stub(*args, **kw):
            v = params.bind(*args, **kw).args
            f = 1e9 / float(v[1][-1])
            i = min(range(n), key=lambda i: abs(cands[i] + 1 - f))
            if abs(cands[i] + 1 - f) > 1e-12 or len(v[0]) != 3 or float(v[0][-1]) != 1e9:
                calls.append(-1)
                raise ValueError("unexpected precompensation %r" % f)
            calls.append(i)
            if not hist[i]:
                raise (ValueError("Array is empty!") if kind == 0 else PeakFindingFailed("x", significance=1.0, resolution=2, dt1=3.0))
            return 1e7 * (i + 1), 1e-6 * (i + 1)

        F.time_freq = stub
        try:
            g = F.fpfind(a, b, 1, 16, 16, 1, 6, 100.0, cands, full)
        except ValueError:
            g = None
        finally:
            F.time_freq = real
        if not calls:           # the scan no longer goes through this entry point: nothing to conclude
            plain = []
            def one(*args, **kw):
                plain.append(1)
                return 1e7, 1e-6
            F.time_freq = one
            try:
                F.fpfind(a, b, 1, 16, 16, 1, 6, 100.0, [0.0], False)
            except ValueError:
                pass
            finally:
                F.time_freq = real
            check(not plain or not n, "history %s: no candidate was searched", hist)
            ctx.count("stub_unused")
            return None
        first = hist.index(1) if 1 in hist else None
        check(-1 not in calls, "history %s: a candidate outside the list was searched", hist)
        if first is None:
            check(g is None, "history %s full=%s: returned %s although every candidate failed", hist, full, g)
            same(calls, list(range(n)), "candidates searched for %s" % (hist,))
        else:
            check(g is not None, "history %s full=%s: failed although candidate %d succeeds", hist, full, first)
            f = 1 + cands[first]
            want = f * 1e7 * (first + 1), f * (1 + 1e-6 * (first + 1)) - 1
            check(abs(float(g[0]) - want[0]) < 1e-3 and abs(float(g[1]) - want[1]) < 1e-13, "history %s full=%s: returned %s, expected %s from candidate %d", hist, full,
                  tuple(map(float, g)), want, first)
            if full:
                same(calls, list(range(n)), "candidates searched for %s (full scan)" % (hist,))
            else:
                same(calls, list(range(first + 1)), "candidates searched for %s" % (hist,))
        ctx.state("scan", n, hist, full, f0)
        ctx.step(len(calls))
        ctx.traces += 1
        outcomes.add((first, tuple(calls)))
    return digest(sorted(outcomes, key=str))


def real_scan(ctx, df, dt, start, stop, step, ordered, full, seed):
    q, R, r, sep = 14, 16, 1, 40
    p = streams.Pair("%d/c25/%s" % (ctx.seed, seed), q, R, 1, sep, dt, df)
    a, b = p.normalized(normalize_timestamps)
    cands = F.generate_precompensations(start, stop, step, ordered=ordered)
    single = []
    for c in cands:
        try:
            d, f = F.time_freq(a, b / (1 + c), 1, p.N, R, r, 6, p.Ts)
            single.append(((1 + float(c)) * float(d), (1 + float(c)) * (1 + float(f)) - 1))
        except ValueError:
            single.append(None)
    try:
        g = F.fpfind(a, b, 1, p.N, R, r, 6, p.Ts, cands, full)
    except ValueError:
        g = None
    ok = [i for i, s in enumerate(single) if s]
    # which succeed follows from the correction limit, apart from candidates near it
    margin = 3 * max(R, 4e-4 * p.Ta) / p.Ts
    for i, c in enumerate(cands):
        x = abs((1 + df) / (1 + float(c)) - 1)
        if abs(x - 2.0 ** -13) > margin:
            check((i in ok) == (x < 2.0 ** -13), "candidate %g for true offset %g: %s", float(c), df, "accepted" if i in ok else "rejected")
    if not ok:
        check(g is None, "returned %s although every candidate fails", g)
        ctx.count("all_fail")
    else:
        check(g is not None, "failed although candidate %g succeeds", float(cands[ok[0]]))
        w = single[ok[0]]
        check(abs(float(g[0]) - w[0]) < 1e-3 and abs(float(g[1]) - w[1]) < 1e-12, "returned %s, expected %s from the first successful candidate %d", tuple(map(float, g)), w, ok[0])
        if any(single[i] and (abs(single[i][1] - w[1]) > 1e-11 or abs(single[i][0] - w[0]) > 1e-2) for i in ok[1:]):
            ctx.count("discriminating")
        e = p.residual(*g)
        check(max(map(abs, e)) < 3 * p.R + 4e-4 * p.Ta, "combined result %s does not match true dt=%s df=%s", tuple(map(float, g)), p.want, df)
    ctx.state("real", df, dt, start, stop, step, ordered)
    ctx.step(len(cands))
    ctx.traces += 1
    return digest(None if g is None else (float(g[0]), float(g[1])))


def cases(ctx):
    for ordered in (False, True):
        for unit in (7, 6, 8, 5):
            for step in (0, 1, 2, 3, 5, 7, 10, 13):
                for start in (0, 1, -1, 3, -7, 10, -25):
                    yield ("list start=%d step=%d unit=1e-%d ordered=%s" % (start, step, unit, ordered), lists, start, step, unit, ordered)
    for n in (1, 2, 3, 7, 10, 50, 99):
        for part in [Fraction(s, d) for s in (-1, 1) for d in (2, 10, 100, 1000, 10000)]:
            for unit in (6, 7, 9):
                for ordered in (False, True):
                    yield ("bound of %d %+g steps of 1e-%d ordered=%s" % (n, float(part), unit, ordered), between, n, part, unit, ordered)
    for n in range(0, ctx.pick(6, 7) + 1):
        for full in (False, True):
            for kind in (0, 1):
                for f0 in (0.0, 1e-4, -2.5e-4):
                    yield ("scan n=%d full=%s kind=%d f0=%g" % (n, full, kind, f0), scan, n, full, kind, f0)
    dfs = (0, 5e-5, -1.8e-4, 3e-4, 5.6e-4, -5.6e-4) if not ctx.thorough else (0, 5e-5, -5e-5, 1.8e-4, -1.8e-4, 3e-4, -3e-4, 4.1e-4, 5.6e-4, -5.6e-4, 8e-4)
    for df in dfs:
        for i, dt in enumerate((0, 40000, -30000)):
            for start in (0.0, 1e-4, -2.3e-4):
                for step, stop in ((1e-4, 4e-4), (0.6e-4, 3e-4), (0, 1e-4)):
                    for ordered in (False, True):
                        for full in (False, True):
                            if not ctx.thorough and (full != (i % 2 == 0)) and step:
                                continue
                            yield ("real df=%g dt=%g start=%g step=%g stop=%g ordered=%s full=%s" % (df, dt, start, step, stop, ordered, full), real_scan, df, dt, start, stop, step, ordered, full, i)
