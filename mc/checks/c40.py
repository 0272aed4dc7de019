"""The detuned data generator (generate_freqdetuneg2): which events go where, and with what times."""
import itertools
import os
import runpy
import sys
import warnings
from fractions import Fraction
from math import floor
import numpy as np
from engine import check, same, digest
import ts

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of source files (patterns x gaps x start times) and of channel x ratio x offset, run through the real program fresh each time, against rational arithmetic and an independent codec"
RULE = "all source files up to a length over alphabets of gaps and patterns; all channels, ratios and offsets for the function itself; distinct outputs are counted"
ASSUMPTIONS = ["the source file holds at least one event", "detuned times stay below 2^54 units of 4 ps"]
DIR = os.path.join("Clock-sync", "20221007_freqdetuneg2")
SRC = os.path.join(DIR, "singletimestampnodelay.a1.dat")
RATIOS = {"c4e%d.dat" % k: 1 / Fraction(10 ** k) for k in range(3, 11)}
GAPS = [0, 1, 999, 256 * 10 ** 6]
PATTERNS = [1, 8, 9, 0, 15]


def detuned(t, t0, ratio, offset=0):
    """Bounds for a detuned time, in 4 ps: the ratio is only as exact as its floating point value."""
    e = t0 + (t - t0) * (1 + ratio) + offset
    tol = abs(t - t0) * Fraction(1, 1 << 51) + Fraction(1, 1 << 8)
    return floor(e - tol), floor(e + tol)


def program():
    old = sys.argv, sys.stdout, sys.modules.pop("fpfind.lib.generate_freqdetuneg2", None)
    sys.argv = ["generate_freqdetuneg2"]
    sys.stdout = open(os.devnull, "w")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return runpy.run_module("fpfind.lib.generate_freqdetuneg2", run_name="__main__")
    finally:
        sys.stdout.close()
        sys.argv, sys.stdout = old[:2]


def files(ctx, t0, seqs, fresh):
    os.makedirs(DIR, exist_ok=True)
    seen = set()
    for gaps, pats in seqs:
        t, ev = t0, []
        for g, p in zip((0,) + gaps, pats):
            t += g
            ev.append((t, p))
        for f in os.listdir(DIR):
            if fresh:
                os.unlink(os.path.join(DIR, f))
            else:
                ts.put(os.path.join(DIR, f), b"\xff" * 4096)
        src = ts.encode("a1x", ev)
        ts.put(SRC, src)
        program()
        ctx.count("runs")
        what = "source %s" % (ev,)
        same(ts.get(SRC), src, "source file after the run")
        same(sorted(os.listdir(DIR)), sorted(list(RATIOS) + ["c1_a2.dat", os.path.basename(SRC)]), what + ": files")
        same(ts.decode("a2", ts.get(os.path.join(DIR, "c1_a2.dat"))), [e for e in ev if e[1] == 1], what + ": first channel")
        mine = [e for e in ev if e[1] == 8]
        for name, ratio in RATIOS.items():
            got = ts.decode("a1x", ts.get(os.path.join(DIR, name)))
            check(len(got) == len(mine), "%s: %s holds %s, expected the times of %s detuned", what, name, got, mine)
            for (x, q), (y, p) in zip(got, mine):
                lo, hi = detuned(y, t0, ratio)
                check(q == p and lo <= x <= hi, "%s: %s holds %s for %s, expected a time of %s", what, name, (x, q), (y, p), lo)
            seen.add((name, tuple(got)))
    return digest(sorted(seen))


def function(ctx, t0, gaps):
    """The function with every channel, ratio and offset."""
    os.makedirs(DIR, exist_ok=True)
    ts.put(SRC, ts.encode("a1x", [(t0, 1), (t0 + 256, 8)]))
    detune = program()["detune"]
    seen = set()
    for pats in itertools.product([1, 2, 4, 8, 12], repeat=len(gaps) + 1):
        t = [t0]
        for g in gaps:
            t.append(t[-1] + g)
        a = np.array(t, dtype=np.longdouble) / 256
        p = np.array(pats, dtype=np.uint32)
        a.flags.writeable = p.flags.writeable = False
        for channel, ratio, offset in itertools.product([1, 8, 12], [0, 1e-10, -1e-6, 0.5], [0, 17.5, -0.25]):
            got, q = detune(a, p, channel, ratio, offset)
            ctx.count("calls")
            want = [x for x, c in zip(t, pats) if c == channel]
            check([int(c) for c in q] == [channel] * len(want) and len(got) == len(want), "detune(%s, %s, %s, %s, %s): %s", t, pats, channel, ratio, offset, (got, q))
            for x, y in zip(got, want):
                e = t0 + (y - t0) * (1 + Fraction(ratio)) + Fraction(offset) * 256
                v = Fraction(*[int(k) for k in x.as_integer_ratio()]) * 256
                check(abs(v - e) <= abs(y - t0) * Fraction(1, 1 << 51) + Fraction(1, 1 << 6), "detune(%s, %s, %s, %s, %s): %s for %s", t, pats, channel, ratio, offset, float(v), y)
        # left out, they change nothing
        got, q = detune(a, p, 8)
        check([Fraction(*[int(k) for k in x.as_integer_ratio()]) * 256 for x in got] == [x for x, c in zip(t, pats) if c == 8], "detune without ratio and offset moved events: %s %s", t, pats)
        seen.add(repr(got.tolist()))
    return digest(sorted(seen))


def cases(ctx):
    for t0 in (0, 12345, (1 << 53) + 77):
        for gaps in itertools.chain(*[itertools.product([0, 1, 256 * 10 ** 9, (1 << 51) + 5], repeat=n) for n in range(ctx.pick(2, 3) + 1)]):
            yield ("detune from %d, gaps %s" % (t0, gaps), function, t0, gaps)
        for n in range(1, ctx.pick(3, 4) + 1):
            pats = PATTERNS if n < 4 else [1, 8, 9]
            gaps = GAPS if n < 4 else [1, 256 * 10 ** 6]
            for p in itertools.product(pats, repeat=n):
                seqs = [(g, p) for g in itertools.product(gaps, repeat=n - 1)]
                if n == 3 and not ctx.thorough:
                    seqs = [s for s in seqs if s[0][0] != s[0][1] and 0 not in s[0]]
                yield ("source from %d, patterns %s" % (t0, p), files, t0, seqs, sum(p) % 2 == 0)
        # long spans and many events
        for n, gap in ((2, 1 << 50), (300, 256 * 10 ** 9), (70000, 256 * 1000)):
            if t0 < 1 << 50 or n == 300:
                yield ("source from %d, %d events %d apart" % (t0, n, gap), files, t0, [((gap,) * (n - 1), tuple([8, 1, 8, 2, 8][i % 5] for i in range(n)))], True)
