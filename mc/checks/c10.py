"""Time filters: all short sorted sequences against all bounds on, between and outside the events."""
import zlib
import itertools
from fractions import Fraction
import numpy as np
from engine import check, same, digest
from fpfind import TSRES
from fpfind.lib import parse_timestamps as P
import ts
from checks.c09 import model as pmodel

LEVEL = "exploration"
RULE = ("all non-decreasing sequences up to a length over a grid x all (start, end) pairs on, between, outside the grid or absent x every resolution and number type; through the "
        "converter with every split of the bounds over stream batches; an outcome is a distinct selection")

S = 256 * 10 ** 9      # 4 ps units per second
# grids in seconds (exact in binary); bounds are taken on the grid, midway between, and outside
GRIDS = [[0, 1, 2, 3], [35000, 35184, 40000, 70000], [Fraction(1, 512), Fraction(1, 256), Fraction(3, 512), 1]]
RES = [("PS4 uint64", TSRES.PS4, "uint64"), ("PS4 longdouble", TSRES.PS4, "longdouble"), ("PS125 longdouble", TSRES.PS125, "longdouble"), ("PS125 uint64", TSRES.PS125, "uint64"),
       ("NS1 longdouble", TSRES.NS1, "longdouble"), ("NS1 float64", TSRES.NS1, "float64"), ("NS1 uint64", TSRES.NS1, "uint64"), ("PS4 int64", TSRES.PS4, "int64"), ("NS1 list", TSRES.NS1, "list")]


def bounds(grid):
    out = [None]
    g = [Fraction(x) for x in grid]
    for a, b in zip(g, g[1:]):
        out += [a, (a + b) / 2]
    return out + [g[-1], g[-1] + 1, g[0] - 1]


def model(t, start, end):
    """t in 4 ps units, bounds in seconds (exact)"""
    return [i for i, x in enumerate(t) if (start is None or x >= Fraction(start) * S) and (end is None or x <= Fraction(end) * S)]


def array(t, res, kind):
    d = 256 // res.value
    if kind == "list":
        return [x / d for x in t]
    if kind in ("uint64", "int64"):
        return np.array([x // d for x in t], dtype=kind)
    return np.array(t, dtype=kind) / d


def lib(ctx, grid, n, name, res, kind, near):
    """near: also put events one unit before and after each grid point"""
    d = 256 // res.value
    pts = sorted({max(0, int(g * S) + k * d) for g in grid for k in ((-1, 0, 1) if near else (0,))})
    if kind == "float64":
        pts = [x for x in pts if x < 1 << 53]
    bs = bounds(grid)
    seen = set()
    for t in itertools.combinations_with_replacement(pts, n):
        a = array(t, res, kind)
        if kind != "list":
            a.flags.writeable = False
        for start, end in itertools.product(bs, repeat=2):
            fs, fe = [None if x is None else float(x) for x in (start, end)]
            m = P.get_timing_mask(a, fs, fe, res)
            want = model(t, start, end)
            same(len(m), len(t), "mask length")
            got = [i for i in range(len(t)) if m[i]]
            if got != want:
                check(False, "%s start=%s end=%s (s) t=%s (4ps units): kept %s, expected %s", name, fs, fe, t, got, want)
            seen.add((t, tuple(want)))
            ctx.count("library_calls")
    return digest(name, sorted(seen))


def defaults(ctx):
    t = np.array([0.0, 1e9, 2e9, 3e9])
    for a, kw, want in (((), {}, [0, 1, 2, 3]), ((1,), {}, [1, 2, 3]), ((1, 2), {}, [1, 2]), ((), {"end": 1}, [0, 1]), ((), {"start": 0, "end": 0}, [0])):
        m = P.get_timing_mask(t, *a, **kw)
        same([i for i in range(4) if m[i]], want, "default nanoseconds, arguments %s %s" % (a, kw))
    same(m.dtype, np.dtype(bool), "mask type")
    return 1


def cli(ctx, a, b, inmem, events, start, end, pat=None):
    src = ts.put(ctx.path("in"), ts.encode(a, events))
    dst = ts.put(ctx.path("out"), b"junk" * 50)
    args = ["-A", a[1], "-a", b[1]] + ["-X"] * (a == "a1x") + ["-x"] * (b == "a1x") + ["--inmemory"] * inmem
    if start is not None:
        args += ["--tfilter-start", repr(float(start))]
    if end is not None:
        args += ["--tfilter-end", repr(float(end))]
    want = [(t, l & 15) for t, l in events]
    if pat:
        args += ["--pfilter-pattern", pat[0]] + ["--pfilter-mask"] * pat[1] + ["--pfilter-invert"] * pat[2]
        want = [(want[i][0], p) for i, p in pmodel([l for _, l in want], *pat)]
    want = [want[i] for i in model([t for t, _ in want], start, end)]
    args = ["-q"] * (zlib.crc32(repr(args[:-2] if args[-1] == dst else args).encode()) & 1) + args        # half of the cases with progress indicators
    code, _ = ts.cli(P.main, *args, src, dst)
    same(code, 0, "exit status")
    got = ts.decode(b, ts.get(dst))
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), None)
        check(False, "%s: %d events written, %d expected, first difference %s", args, len(got), len(want), None if i is None else (got[i], want[i]))
    return digest(b, start, end, pat, want)


def bigcli(ctx, fmt, inmem, n, lo, hi, pat):
    """Events 1 ms apart; bounds at events number lo and hi (None: absent)."""
    step = S // 1024                                # exact in binary
    ev = [(i * step, i % 16) for i in range(n)]
    f = lambda k: None if k is None else Fraction(k, 1024)
    return cli(ctx, fmt, fmt, inmem, ev, f(lo), f(hi), pat)


def cases(ctx):
    yield ("defaults", defaults)
    for grid in GRIDS:
        for name, res, kind in RES:
            if kind in ("uint64", "int64", "list") and any((g * S) % (256 // res.value) for g in grid):
                continue
            for n in range(0, ctx.pick(4, 5)):
                yield ("grid %s %s length %d" % ([float(g) for g in grid], name, n), lib, grid, n, name, res, kind, False)
            for n in (1, 2) if ctx.pick(0, 1) else (1,):
                yield ("near grid %s %s length %d" % ([float(g) for g in grid], name, n), lib, grid, n, name, res, kind, True)
    for grid in GRIDS:
        pts = sorted({max(0, int(g * S) + k) for g in grid for k in (-1, 0, 1)})
        ev = [(t, i * 5 % 16) for i, t in enumerate(pts)]
        ev = sorted(ev + ev[::3])
        for start, end in itertools.product(bounds(grid), repeat=2):
            for inmem in (False, True):
                for k, a in enumerate(ts.FORMATS):
                    b = ts.FORMATS[(k + 1) % 4] if inmem else a
                    for pat in (None, (5, True, True)) if ctx.thorough or k < 2 else (None,):
                        yield ("convert %s %s inmemory=%s start=%s end=%s pattern=%s" % (a, b, inmem, start, end, pat), cli, a, b, inmem, ev, start, end, pat)
    # nothing or next to nothing to select from
    grid = GRIDS[0]
    for k in range(3):
        for ts_ in itertools.combinations([int(g * S) for g in grid], k):
            for start, end in itertools.product(bounds(grid), repeat=2):
                for j, (a, b) in enumerate(itertools.product(ts.FORMATS, repeat=2)):
                    if k == 2 and not ctx.thorough and (j + int(2 * (start or 0)) + int(2 * (end or 0))) % 5:
                        continue
                    for inmem in (False, True):
                        for pat in (None, (5, True, False)):
                            yield ("convert %d events %s, %s to %s inmemory=%s start=%s end=%s pattern=%s" % (k, ts_, a, b, inmem, start, end, pat), cli, a, b, inmem, [(t, 5 + i) for i, t in enumerate(ts_)], start, end, pat)
    n = 200003
    marks = (None, 0, 99999, 100000, 100001, 199999, 200000, n - 1, n + 5)
    for lo, hi in itertools.product(marks, repeat=2):
        if not ctx.thorough and not (lo in (None, 99999, 100000) or hi in (None, 100000, 199999)):
            continue
        for inmem in (False, True):
            for pat in (None, (3, True, False)):
                if ctx.thorough or (inmem + (pat is not None)) % 2 == 0:
                    yield ("convert %d events inmemory=%s from %s to %s pattern=%s" % (n, inmem, lo, hi, pat), bigcli, "a1", inmem, n, lo, hi, pat)
