"""Normalising and slicing timestamps."""
import itertools
import warnings
from fractions import Fraction
import numpy as np
from engine import check, same, digest
from fpfind.lib import utils as U

LEVEL = "exploration"
RULE = ("all tuples of non-decreasing sequences up to a length over a grid x skips x modes x number types; all sequences x starts x durations on, between and outside the events; an "
        "outcome is a distinct result")
GRIDS = [[0, 1, 2, 5], [7, 8, 10, 11], [Fraction(1, 4), Fraction(1, 2), 3, 4]]
G = 10 ** 9
KINDS = ["float64", "longdouble", "int64"]


def arr(seq, kind):
    a = np.array([int(x * G) if kind == "int64" else float(x * G) for x in seq], dtype=kind)
    a.flags.writeable = False
    return a


def nums(a):
    return [Fraction(*[int(v) for v in x.as_integer_ratio()]) if hasattr(x, "as_integer_ratio") else Fraction(int(x)) for x in a]


def normalise(ctx, grid, kind, lens, skips, modes):
    seen = set()
    for seqs in itertools.product(*[list(itertools.combinations_with_replacement(grid, n)) for n in lens]):
        for skip, pre in itertools.product(skips, modes):
            T = [arr(s, kind) for s in seqs]
            keep = [t.tolist() for t in T]
            kw = {}
            if skip is not None:
                kw["skip"] = skip
            if pre is not None:
                kw["preserve_relative"] = pre
            got = [nums(t) for t in U.normalize_timestamps(*T, **kw)]
            S = [[Fraction(x) for x in s] for s in seqs]
            if pre is False:
                S = [[x - s[0] for x in s] for s in S]
            z = max(s[0] for s in S) + (Fraction(skip) if skip else 0)
            want = [[(x - z) * G for x in s if x >= z] for s in S]
            if got != want:
                check(False, "normalize(%s, %s): got %s, expected %s", keep, kw, [[float(x) for x in t] for t in got], [[float(x) for x in t] for t in want])
            same([t.tolist() for t in T], keep, "caller's arrays")
            seen.add(repr(want))
            ctx.count("calls")
    return digest(sorted(seen))


def slicing(ctx, grid, kind, n):
    seen = set()
    pts = sorted({Fraction(g) for g in grid} | {Fraction(a + b) / 2 for a, b in zip(grid, grid[1:])} | {Fraction(0), Fraction(grid[-1] + 1)})
    for seq in itertools.combinations_with_replacement(grid, n):
        for start in [None] + pts + [Fraction(-1)]:
            if start is None and n == 0:
                continue
            for dur in [None] + pts:
                a = arr(seq, kind)
                keep = a.tolist()
                args = [None if x is None else (int(x * G) if kind == "int64" and (x * G).denominator == 1 else float(x * G)) for x in (start, dur)]
                with warnings.catch_warnings(record=True) as log:
                  warnings.simplefilter("always")
                  if dur is None:
                    got = U.slice_timestamps(a, *args[:1 if start is not None else 0])
                  elif start is None:
                    got = U.slice_timestamps(a, duration=args[1])
                  else:
                    got = U.slice_timestamps(a, *args)
                z = seq[0] if start is None else start
                want = [(x - z) * G for x in seq if x >= z and (dur is None or x < z + dur)]
                if nums(got) != want:
                    check(False, "slice(%s, %s): got %s, expected %s", keep, args, list(got), [float(x) for x in want])
                same(a.tolist(), keep, "caller's array")
                rest = [x - z for x in seq if x >= z]
                if dur is not None and rest and dur != rest[-1] and bool(log) != (dur > rest[-1]):
                    check(False, "slice(%s, %s): %s", keep, args, "data shorter than requested not reported" if not log else "reported %s" % log[0].message)
                seen.add(repr(want))
                ctx.count("calls")
    return digest(sorted(seen))


def overlap(ctx, lens, kind):
    arrays = [np.arange(n) * 3 + i if kind == "array" else [x * 3 + i for x in range(n)] for i, n in enumerate(lens)]
    keep = [list(a) for a in arrays]
    n, got = U.get_overlap(*arrays)
    same(int(n), min(lens), "common length of %s" % (lens,))
    same([[int(x) for x in g] for g in got], [k[:min(lens)] for k in keep], "arrays truncated to the common length")
    same([list(a) for a in arrays], keep, "caller's arrays")
    return digest(lens)


def precise(ctx, t0, n):
    """4 ps steps survive at large values with extended floats."""
    ints = [t0 + k * k for k in range(n)]
    a = np.array(ints, dtype=np.longdouble) / 256
    b = np.array(ints[2:], dtype=np.longdouble) / 256
    got = U.normalize_timestamps(a, b)
    want = [[x - ints[2] for x in ints if x >= ints[2]]] * 2
    same([[x * 256 for x in nums(t)] for t in got], want, "4 ps spacing after normalising")
    got = nums(U.slice_timestamps(a, a[1], 10))
    same([x * 256 for x in got], [x - ints[1] for x in ints if 0 <= x - ints[1] < 2560], "4 ps spacing after slicing")
    return digest(t0, n)


def many(ctx, n, kind, t0, skip):
    """Whole streams, with events as far apart as 54 bits of 4 ps allow and skips below a microsecond."""
    unit = 1 if kind == "int64" else 256
    span = ((1 << 54) - 1 - t0) // (256 // unit)
    ints = [t0 + i * (span - t0) // n + i % 7 for i in range(n)]
    a = np.array(ints, dtype=kind) if unit == 1 else np.array(ints, dtype=kind) / 256
    b = a[3:].copy()
    keep = a.copy(), b.copy()
    z = ints[3] + (skip * unit if skip else 0)
    got = U.normalize_timestamps(a, b, skip=float(skip or 0) * 1e-9)
    want = [x - z for x in ints if x >= z]
    for g, w in zip(got, (want, want)):
        v = [x * unit for x in nums(g)]
        # the given skip is only as exact as its floating point value
        check(len(v) == len(w) and all(abs(x - y) <= (1e-6 * unit if skip else 0) for x, y in zip(v, w)), "%d %s events from %s, skip of %s ns: %s events %s.., expected %s %s..", n, kind, t0, skip, len(v), v[:3], len(w), w[:3])
    for start, dur in ((0, None), (ints[n // 2] / unit, None), (ints[5] / unit, (ints[-1] - ints[n // 2]) / unit), (None, None)):
        if unit == 1 and start is not None:
            start = int(start)
        got = nums(U.slice_timestamps(a, start, dur))
        s = Fraction(start) * unit if start is not None else ints[0]
        same([x * unit for x in got], [x - s for x in ints if x >= s and (dur is None or x - s < Fraction(dur) * unit)], "slice of %d %s events, start %s, duration %s" % (n, kind, start, dur))
    check((a == keep[0]).all() and (b == keep[1]).all(), "caller's arrays modified (%d %s events)", n, kind)
    return digest(n, kind, t0, skip)


def cases(ctx):
    for n in (3000, 5000, 70001) + ((300001,) if ctx.thorough else ()):
        for kind in ("longdouble", "int64"):
            for t0 in (0, 12345):
                for skip in (None, 0, 40, 1, 700, 123456789):
                    yield ("%d %s events from %d, skip of %s ns" % (n, kind, t0, skip), many, n, kind, t0, skip)
    for kind in ("array", "list"):
        for n in (1, 2, 3, 4):
            for lens in itertools.product(range(5 if n < 4 else 3), repeat=n):
                yield ("common length of %s %s" % (lens, kind), overlap, lens, kind)
    for grid in GRIDS:
        for kind in KINDS:
            if kind == "int64" and any(Fraction(g).denominator > 1 for g in grid):
                continue
            m = ctx.pick(3, 4)
            for lens in list(itertools.product(range(1, m + 1), repeat=2)) + [(1,), (3,), (2, 2, 2), (1, 2, 3)]:
                if len(lens) == 3 and not ctx.thorough and grid is not GRIDS[0]:
                    continue
                yield ("normalise lengths %s over %s %s" % (lens, [float(g) for g in grid], kind), normalise, grid, kind, lens, [None, 0.0, 0.5, 1.0, 3, 20.0], [None, True, False])
            for n in range(0, ctx.pick(5, 7)):
                yield ("slice length %d over %s %s" % (n, [float(g) for g in grid], kind), slicing, grid, kind, n)
    for t0 in (0, 10 ** 6, 1 << 45, (1 << 53) + 1, (1 << 54) - 2000):
        yield ("4 ps precision at %d" % t0, precise, t0, 40)
