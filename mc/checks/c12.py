"""T1 epoch files: writer against an independent encoder, reader against exact integers."""
import itertools, os, pathlib, shutil
import numpy as np
from engine import check, same, digest
from fpfind import TSRES
from fpfind.lib import parse_epochs as E
import epochs, ts

LEVEL = "exploration"
RULE = ("epochs around every counter boundary x all event sequences up to a length over offset and pattern boundaries x number types x detector forms x resolution x fraction x "
        "full epoch; an outcome is a distinct file or decoded result")
ASSUMPTIONS = ["an event word of zero (offset, pattern and low 17 epoch bits all zero) is the format's end mark and is excluded",
               "with the full epoch and fractions, results are exact up to the 64-bit significand of numpy.longdouble"]
RES = [(TSRES.PS4, 256), (TSRES.PS125, 8), (TSRES.NS1, 1)]
OFFS = [0, 1, 31, 32, 255, 256, 1 << 21, (1 << 22) - 1, 1 << 22, (1 << 32) - 1, (1 << 32) + 7, (1 << 37) - 1]


def reading(ctx, path, epoch, events):
    for (res, unit), frac, full in itertools.product(RES, (True, False), (False, True)):
        t, p = E.read_T1(path, full, res, frac)
        d = 256 // unit
        base = (epoch if full else epoch & 0x1FFFF) << 37
        want = [base + off for off, _ in events]
        what = "%s fractional=%s full_epoch=%s" % (res, frac, full)
        same([int(x) for x in p], [x for _, x in events], "patterns, " + what)
        same(len(t), len(events), "timestamps, " + what)
        got = ts.exact(t, d)
        if not frac:
            same(got, [x // d * d for x in want], "timestamps x %d, %s" % (d, what))
        elif full:
            for g, x, w in zip(got, t, want):
                n, m = [int(v) for v in x.as_integer_ratio()]
                check(abs(n * d - w * m) << 63 <= w * m, "timestamp %r (/%d ns), expected %d/%d, %s", x, unit, w, d, what)
        else:
            same(got, want, "timestamps x %d, %s" % (d, what))
        ctx.count("reads")
    t, p = E.read_T1(path)
    same(ts.exact(t, 256), [((epoch & 0x1FFFF) << 37) + off for off, _ in events], "default read")


def forms(events):
    o = [x for x, _ in events]
    p = [x for _, x in events]
    yield "lists", o, p
    for a in ("uint64", "int64", "object", "longdouble", "float64"):
        yield "%s array, uint32 patterns" % a, np.array(o, dtype=a), np.array(p, dtype=np.uint32)
    yield "numpy scalars", [np.uint64(x) for x in o], [np.uint8(x) for x in p]
    yield "int64 array, float patterns", np.array(o, dtype=np.int64), np.array(p, dtype=float)
    if len(set(p)) == 1:
        yield "single pattern", np.array(o, dtype=np.uint64), p[0]
        yield "single numpy pattern", o, np.int64(p[0])
    if max(o, default=0) < 1 << 31:
        yield "int32 array", np.array(o, dtype=np.int32), np.array(p, dtype=np.int32)


def writing(ctx, epoch, events):
    low = epoch & 0xFFFFFFFF
    want = epochs.t1(low, events)
    for n, (desc, o, p) in enumerate(forms(events)):
        d = ctx.path("d%d" % n)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        ts.put(os.path.join(d, "%x" % low), b"old" * 200)
        keep = np.array(o), np.array(p)
        target = E.write_T1(d if n % 2 else pathlib.Path(d), epoch, o, p)
        same(str(target), os.path.join(d, "%x" % low), "file name, " + desc)
        same(os.listdir(d), ["%x" % low], "directory contents")
        got = ts.get(os.path.join(d, "%x" % low))
        same(got[:20], want[:20], "header, " + desc)
        same(got[20:], want[20:], "events, " + desc)
        check(np.array_equal(keep[0], np.array(o)) and np.array_equal(keep[1], np.array(p)), "caller's arrays modified, %s", desc)
        ctx.count("writes")
    reading(ctx, target, low, events)
    return digest(want)


def external(ctx, epoch, events, low, count):
    """A file from elsewhere: other bits set below the timestamp, count unspecified."""
    path = epochs.put(ctx.scratch, epoch, epochs.t1(epoch, events, count, low))
    reading(ctx, path, epoch, events)
    return digest(epoch, events, low, count)


def mismatch(ctx, n, m):
    try:
        E.write_T1(ctx.scratch, 5, list(range(n)), [1] * m)
    except ValueError:
        return digest(n, m)
    check(False, "%d timestamps with %d patterns accepted", n, m)


def cases(ctx):
    def ok(epoch, ev):
        return all(epoch & 0x1FFFF or o or p for o, p in ev)
    for epoch in epochs.EPOCHS + [1 << 32, (0x1ba1f36c0), (5 << 40) + 3]:
        for off in OFFS:
            for pat in range(16):
                if ok(epoch, [(off, pat)]):
                    yield ("epoch %x event (%d, %d)" % (epoch, off, pat), writing, epoch, [(off, pat)])
        for n in (0, 2, 3):
            for offs in itertools.combinations_with_replacement(OFFS[:: ctx.pick(3, 1)] + OFFS[-1:], n):
                for pats in itertools.product((0, 1, 15), repeat=n) if n < 3 or ctx.thorough else ((1, 1, 1), (8, 0, 2)):
                    ev = list(zip(offs, pats))
                    if ok(epoch, ev):
                        yield ("epoch %x events %s" % (epoch, ev), writing, epoch, ev)
    for epoch in epochs.EPOCHS:
        ev = [(o, 1 + i % 15) for i, o in enumerate(OFFS)]
        for low in (0, 1, 63):
            for count in (None, 0):
                yield ("external epoch %x low bits %d count %s" % (epoch, low, count), external, epoch, ev, low, count)
        for n in ctx.pick((1000,), (1000, 50000)):
            yield ("epoch %x %d events" % (epoch, n), writing, epoch, [(o, 1 + i % 15) for i, o in enumerate(ts.spread(n, 0, (1 << 37) - 1))])
    for n in (65535, 65536, 70001, 140000):
        yield ("%d events" % n, writing, 0xba1f36c0, [(o, 1 + i % 15) for i, o in enumerate(ts.spread(n, 0, (1 << 37) - 1))])
    for n, m in ((1, 2), (2, 1), (0, 1), (3, 0)):
        yield ("%d timestamps, %d patterns" % (n, m), mismatch, n, m)
