"""Streaming access against in-memory access, for all small file lengths, buffer sizes and batch partitions."""
import itertools
import numpy as np
from engine import check, same, digest
from fpfind import TSRES
from fpfind.lib import parse_timestamps as P
import ts

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of file length x buffer size for readers and of all batch partitions (with empty batches) for writers, on the real code"
RULE = ("all (length, buffer size) pairs up to a bound per format, resolution and fraction, plus the default buffer at its boundary; all ordered partitions into batches with "
        "empty batches inserted; states are (events delivered, batches delivered) positions of a stream, transitions are batches; an outcome is a distinct delivered sequence")
RES = [TSRES.PS4, TSRES.PS125, TSRES.NS1]


def events(n):
    return [(t, i * 37 % 1024) for i, t in enumerate(ts.spread(n, 100, ts.MAXT - 5))]


def stream(ctx, fmt, n, bs, res, frac, trail=True):
    ev = events(n)
    data = ts.encode(fmt, ev)
    path = ts.put(ctx.path("f"), data if trail else data[:-1])
    legacy = fmt == "a1x"
    sread = getattr(P, "sread_" + fmt[:2])
    rt, rp = getattr(P, "read_" + fmt[:2])(path, legacy, res, frac)
    if bs is None:
        s, nb = sread(path, legacy, res, frac)
        bs = 100000
    else:
        s, nb = sread(path, legacy, res, frac, bs)
    done, sizes, at, ap = 0, [], [], []
    for t, p in s:
        same(len(t), len(p), "batch lengths")
        check(len(t) <= bs, "batch of %d events exceeds buffer %d", len(t), bs)
        check(len(t) > 0, "empty batch delivered")
        check(not sizes or sizes[-1] == bs, "batch %d before the last holds %s of %d events", len(sizes), sizes and sizes[-1], bs)
        same(str(getattr(t, "dtype", "")), str(rt.dtype), "timestamp type")
        at.append(t)
        ap.append(p)
        sizes.append(len(t))
        done += len(t)
        ctx.step()
        ctx.state(n, bs, done, len(sizes))
    same(nb, len(sizes), "announced number of batches (delivered %s)" % sizes[:20])
    same(type(nb), int, "type of batch count")
    at = np.concatenate(at) if at else np.zeros(0)
    ap = np.concatenate(ap) if ap else np.zeros(0)
    same((len(rt), done), (n, n), "events in memory, streamed")
    check(np.array_equal(at, rt), "streamed timestamps differ from in-memory ones")
    check(np.array_equal(ap, rp), "streamed patterns differ from in-memory ones")
    return digest(fmt, n, sizes)


def partition(ctx, fmt, n, sizes, empties, res, display=False):
    """Writes n events split as sizes; empties: bit i set = an empty batch before batch i (bit len = at the end)."""
    ev = [(t // 256 * 256, l & 15) for t, l in events(n)]
    legacy = fmt == "a1x"
    t = np.array([x for x, _ in ev], dtype=np.uint64)
    p = np.array([l for _, l in ev], dtype=np.uint32)
    if res is not TSRES.PS4:
        t = t.astype(np.longdouble) / (256 // res.value)
    a, b = ctx.path("a"), ctx.path("b")
    getattr(P, "write_" + fmt[:2])(a, t, p, legacy, res)

    def batches():
        pos = 0
        for i, k in enumerate(tuple(sizes) + (0,)):
            if empties >> i & 1:
                yield t[:0], p[:0]
            if i < len(sizes):
                yield t[pos:pos + k], p[pos:pos + k]
            pos += k
            ctx.step()
            ctx.state("w", n, pos, i)
    ts.put(b, b"x" * 5000)
    getattr(P, "swrite_" + fmt[:2])(b, batches(), len(sizes), legacy, res, display)
    same(ts.get(a), ts.encode(fmt, ev), "in-memory writer")
    same(ts.get(b), ts.get(a), "stream writer with batches %s empties %s" % (sizes, bin(empties)))
    return digest(fmt, n, sizes, empties)


def cases(ctx):
    m = ctx.pick(8, 14)
    for fmt in ts.FORMATS:
        for res, frac in itertools.product(RES, (True, False)):
            for n in range(0, m + 1):
                for bs in list(range(1, m + 3)) + [1000]:
                    yield ("%s %s frac=%s n=%d buffer=%d" % (fmt, res, frac, n, bs), stream, fmt, n, bs, res, frac)
        if fmt in ("a0", "a2"):
            for n in range(1, 6):
                for bs in range(1, 7):
                    yield ("%s n=%d buffer=%d, no final newline" % (fmt, n, bs), stream, fmt, n, bs, TSRES.PS4, False, False)
        for n in ctx.pick((100000, 100001), (99999, 100000, 100001, 199999, 200000, 300001)):
            yield ("%s n=%d default buffer" % (fmt, n), stream, fmt, n, None, TSRES.PS4, False)
        for n, bs in ctx.pick(((1000, 7), (1001, 1000)), ((1000, 7), (1001, 1000), (5000, 1), (4096, 1024), (65537, 65536))):
            yield ("%s n=%d buffer=%d" % (fmt, n, bs), stream, fmt, n, bs, TSRES.NS1, True)
        for n in range(0, ctx.pick(5, 8)):
            for sizes in ts.compositions(n):
                for empties in range(1 << (len(sizes) + 1)) if n < 5 else (0, 1, 1 << len(sizes), (2 << len(sizes)) - 1):
                    for res in (RES if n < 4 else RES[:1]):
                        yield ("%s write %d as %s empties %s %s" % (fmt, n, sizes, bin(empties), res), partition, fmt, n, sizes, empties, res, empties == 0)
        for n, sizes in ((3000, (1000,) * 3), (3001, (1, 2999, 1))):
            yield ("%s write %d as %s" % (fmt, n, sizes), partition, fmt, n, sizes, 0, TSRES.PS4)
