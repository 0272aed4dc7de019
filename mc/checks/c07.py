"""Timestamp writers and the converter: every chain of conversions keeps the same events."""
import itertools
import numpy as np
from engine import check, same, digest
from fpfind import TSRES
from fpfind.lib import parse_timestamps as P
import ts

LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of all conversion chains (format x mode) up to a depth and of all writer inputs over a boundary alphabet, on the real code, against an independent codec"
RULE = ("states are (format, file contents) reached by converter calls, transitions are converter or writer calls; all chains up to the depth from each event set, "
        "all writer input types and resolutions; an outcome is a distinct file written")

ALPHA = [(0, 0), (255, 15), (256, 1), ((1 << 22) - 1, 5), (1 << 22, 8), ((1 << 53) + 1, 2), (ts.MAXT, 15)]


def forms(events):
    """(description, resolution, t, p) for every representation able to hold the events exactly."""
    t = [x for x, _ in events]
    p = [l for _, l in events]
    big = max(t, default=0)
    for pd, pp in (("uint32", np.array(p, dtype=np.uint32)), ("int64", np.array(p, dtype=np.int64)), ("list", p), ("uint64", np.array(p, dtype=np.uint64))):
        yield "PS4 uint64/" + pd, TSRES.PS4, np.array(t, dtype=np.uint64), pp
    pp = np.array(p, dtype=np.uint32)
    yield "PS4 int64", TSRES.PS4, np.array(t, dtype=np.int64), pp
    yield "PS4 longdouble", TSRES.PS4, np.array(t, dtype=np.longdouble), pp
    yield "PS4 list", TSRES.PS4, t, p
    yield "NS1 longdouble", TSRES.NS1, np.array(t, dtype=np.longdouble) / 256, pp
    yield "PS125 longdouble", TSRES.PS125, np.array(t, dtype=np.longdouble) / 32, pp
    if big < 1 << 53:
        yield "NS1 float", TSRES.NS1, np.array(t, dtype=np.float64) / 256, pp
        yield "PS4 float", TSRES.PS4, np.array(t, dtype=np.float64), pp
    if all(x % 32 == 0 for x in t):
        yield "PS125 uint64", TSRES.PS125, np.array([x // 32 for x in t], dtype=np.uint64), pp
    if all(x % 256 == 0 for x in t):
        yield "NS1 uint64", TSRES.NS1, np.array([x // 256 for x in t], dtype=np.uint64), pp
        yield "NS1 int list", TSRES.NS1, [x // 256 for x in t], p


def writer(ctx, fmt, events):
    want = ts.encode(fmt, events)
    path = ctx.path("out")
    for desc, res, t, p in forms(events):
        keep = np.array(t), np.array(p)
        for mode in ("memory", "stream", "default"):
            if mode == "default" and (res is not TSRES.NS1 or fmt == "a1x"):
                continue
            ts.put(path, b"stale contents that must go away" * 40)
            ctx.step()
            if mode == "default":
                getattr(P, "write_" + fmt)(path, t, p)
            elif mode == "memory":
                getattr(P, "write_" + fmt[:2])(path, t, p, fmt == "a1x", res)
            else:
                getattr(P, "swrite_" + fmt[:2])(path, iter([(t, p)]), 1, fmt == "a1x", res, False)
            got = ts.get(path)
            if got != want:
                g, w = ts.decode(fmt, got), events
                i = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), None)
                check(False, "%s written from %s (%s): %d of %d events, first difference %s", fmt, desc, mode, len(g), len(w),
                      None if i is None else (i, g[i], w[i]))
        check(np.array_equal(keep[0], np.array(t)) and np.array_equal(keep[1], np.array(p)), "caller's arrays modified by writing %s", desc)
    ctx.state(fmt, want)
    # and read back with the library's own reader
    t, p = getattr(P, "read_" + fmt[:2])(path, fmt == "a1x", TSRES.PS4, False)
    same(ts.rows(t, p), list(events), "read back")
    return digest(want)


def convert(ctx, src, a, dst, b, inmem, quiet=True):
    args = ["-A", a[1], "-a", b[1]] + ["-X"] * (a == "a1x") + ["-x"] * (b == "a1x") + ["--inmemory"] * inmem + ["-q"] * quiet + [src, dst]
    if b == "a1" and not inmem:
        args = args[:2] + args[4:]          # a1 is the default output
    code, out = ts.cli(P.main, *args)
    same(code, 0, "exit status of %s" % args)
    same(out, "", "text printed while converting")


def chain(ctx, events, path):
    """path: ((fmt, None), (fmt, inmem), ...)"""
    want = [(t, l & 15) for t, l in events]
    cur = ctx.path("c0")
    ts.put(cur, ts.encode(path[0][0], events))
    for k in range(1, len(path)):
        nxt = ctx.path("c%d" % (k % 3))
        if path[k][1]:
            ts.put(nxt, b"old" * 99)
        before = ts.get(cur)
        convert(ctx, cur, path[k - 1][0], nxt, path[k][0], path[k][1], quiet=(k + path[k][1]) % 2 == 0)
        same(ts.get(cur), before, "input file after conversion")
        got = ts.get(nxt)
        ctx.step()
        ctx.state(path[k][0], got)
        if got != ts.encode(path[k][0], want):
            g = ts.decode(path[k][0], got)
            i = next((i for i in range(min(len(g), len(want))) if g[i] != want[i]), None)
            check(False, "after step %d (%s -> %s): %d of %d events, first difference %s", k, path[k - 1], path[k], len(g), len(want),
                  None if i is None else (i, g[i], want[i]))
        cur = nxt
    ctx.traces += 1
    return digest(path, want)


def bigchain(ctx, n, path):
    return chain(ctx, [(t, i * 7 % 16) for i, t in enumerate(ts.spread(n))], path)


def allbits(ctx, fmt):
    return writer(ctx, fmt, [(t, (t >> 3) & 15) for t in ts.values()])


def cases(ctx):
    for fmt in ts.FORMATS:
        for n in range(0, 4):
            for ev in itertools.product(ALPHA if n < 3 or ctx.thorough else ALPHA[1::2], repeat=n):
                yield ("write %s %s" % (fmt, ev), writer, fmt, list(ev))
        for m in (32, 256):
            yield ("write %s multiples of %d" % (fmt, m), writer, fmt, [(t // m * m, l & 15) for l, t in enumerate(ts.values())])
        yield ("write %s all bits" % fmt, allbits, fmt)
    sets = [[], [(5, 3)], [(0, 0), (ts.MAXT, 0x3FF)], ALPHA, [(t, i % 1024) for i, t in enumerate(ts.values())]]
    depth = ctx.pick(2, 3)
    for ev in sets:
        for d in range(1, depth + 1 if len(ev) < 20 else 2):
            for f0 in ts.FORMATS:
                for rest in itertools.product(itertools.product(ts.FORMATS, (False, True)), repeat=d):
                    path = ((f0, None),) + rest
                    yield ("%d events %s" % (len(ev), path), chain, ev, path)
    for f1, inmem in itertools.product(ts.FORMATS, (False, True)):
        yield ("300001 events a1 to %s inmemory=%s" % (f1, inmem), bigchain, 300001, (("a1", None), (f1, inmem)))
    for n in ctx.pick((100000, 100001), (99999, 100000, 100001, 200000, 250001)):
        for f0, f1 in itertools.product(ts.FORMATS, repeat=2):
            for inmem in (False, True):
                if inmem and f0 in ("a0", "a2") and not ctx.thorough:
                    continue
                if not ctx.thorough and f0 != f1 and n != 100001:
                    continue
                yield ("%d events %s to %s inmemory=%s" % (n, f0, f1, inmem), bigchain, n, ((f0, None), (f1, inmem)))
