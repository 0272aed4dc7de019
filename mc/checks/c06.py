"""Timestamp readers against an independent encoder."""
import itertools
import numpy as np
from engine import check, same, digest
from fpfind import TSRES
from fpfind.lib import parse_timestamps as P
import ts

LEVEL = "exploration"
RULE = ("format x word order x resolution x fraction x file: all sequences of up to 3 events over a boundary alphabet, every length up to a bound, every "
        "timestamp bit and carry boundary with all patterns and all 1024 low-bit values, large files; read in memory and streamed; an outcome is a distinct decoded result")

RES = [(TSRES.PS4, 256), (TSRES.PS125, 8), (TSRES.NS1, 1)]
ALPHA = [(0, 0), (255, 15), (256, 1), ((1 << 22) - 1, 0x3F5), (1 << 22, 8), ((1 << 53) + 1, 2), (ts.MAXT, 0x3FF)]


def readers(fmt, path, res, frac, bs):
    legacy = fmt == "a1x"
    read = getattr(P, "read_" + fmt[:2])
    sread = getattr(P, "sread_" + fmt[:2])
    yield read(path, legacy, res, frac)
    stream, _ = sread(path, legacy, res, frac, bs)
    batches = list(stream)
    if batches:
        yield np.concatenate([b[0] for b in batches]), np.concatenate([b[1] for b in batches])
    else:
        yield [], []


def compare(t, p, events, unit, frac, what):
    same(len(t), len(events), what + " event count")
    same(len(p), len(events), what + " pattern count")
    d = 256 // unit
    want = [x for x, _ in events] if frac else [x // d * d for x, _ in events]
    got = ts.exact(t, d)
    if got != want:
        i = next(i for i in range(len(want)) if got[i] != want[i])
        check(False, "%s timestamp %d of %d: got %r*%d, stored %d", what, i, len(want), t[i], d, events[i][0])
    got = [int(x) for x in p]
    want = [l & 15 for _, l in events]
    if got != want:
        i = next(i for i in range(len(want)) if got[i] != want[i])
        check(False, "%s pattern %d of %d: got %r, stored %d", what, i, len(want), p[i], want[i])


def one(ctx, fmt, res, unit, frac, events, bs=100000, trail=True):
    data = ts.encode(fmt, events)
    if not trail:
        data = data[:-1]
    path = ts.put(ctx.path("f"), data)
    for k, (t, p) in enumerate(readers(fmt, path, res, frac, bs)):
        compare(t, p, events, unit, frac, "streamed" if k else "in-memory")
    same(ts.get(path), data, "input file")
    return digest(unit, frac, [e if frac else (e[0] // (256 // unit), e[1]) for e in events])


def defaults(ctx, fmt, events):
    """Default arguments mean nanoseconds with the fraction kept, normal word order."""
    path = ts.put(ctx.path("f"), ts.encode(fmt, events))
    t, p = getattr(P, "read_" + fmt)(path)
    compare(t, p, events, 1, True, "default read")
    s, _ = getattr(P, "sread_" + fmt)(path)
    s = list(s)
    compare(np.concatenate([x for x, _ in s]), np.concatenate([x for _, x in s]), events, 1, True, "default stream")
    return digest("default", fmt)


def many(kind):
    v = ts.values()
    if kind == "bits":
        return [(t, l) for t in v for l in range(16)]
    if kind == "low":
        return [(t, l) for t in (0, ts.MAXT, 0x2AAAAAAAAAAAAA, (1 << 22) - 1) for l in range(1024)]
    return [(t, i * 37 % 1024) for i, t in enumerate(ts.spread(kind))]


def big(ctx, fmt, res, unit, frac, kind, bs):
    return one(ctx, fmt, res, unit, frac, many(kind), bs)


def cases(ctx):
    for fmt in ts.FORMATS:
        for (res, unit), frac in itertools.product(RES, (True, False)):
            for n in range(0, 4):
                for ev in itertools.product(ALPHA if n < 3 or ctx.thorough else ALPHA[:1] + ALPHA[3:], repeat=n):
                    yield ("%s %s frac=%s events=%s" % (fmt, res, frac, ev), one, fmt, res, unit, frac, list(ev), 2)
            for n in range(4, ctx.pick(14, 70)):
                ev = [(t, i * 37 % 1024) for i, t in enumerate(ts.spread(n))]
                yield ("%s %s frac=%s %d events" % (fmt, res, frac, n), one, fmt, res, unit, frac, ev, 3)
            for kind in ("bits", "low"):
                yield ("%s %s frac=%s all %s" % (fmt, res, frac, kind), big, fmt, res, unit, frac, kind, 1000)
            for kind in ctx.pick((20000,), (100001, 250000)):
                if fmt in ("a1", "a1x"):
                    kind = kind * 10
                yield ("%s %s frac=%s %d events" % (fmt, res, frac, kind), big, fmt, res, unit, frac, kind, 100000)
        if fmt != "a1x":
            yield ("%s defaults" % fmt, defaults, fmt, ALPHA)
        if fmt in ("a0", "a2"):
            for n in (1, 2, 3):
                for frac in (True, False):
                    yield ("%s without final newline, %d events" % (fmt, n), one, fmt, TSRES.PS4, 256, frac, ALPHA[-n:], 10, False)
