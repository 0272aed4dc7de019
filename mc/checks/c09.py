"""Pattern filters: every pattern, mode and short pattern sequence, in the library and through the converter."""
import zlib
import itertools
import numpy as np
from engine import check, same, digest
from fpfind.lib import parse_timestamps as P
import ts

LEVEL = "exploration"
RULE = ("all 16 patterns x mask x invert x all pattern sequences up to a length x array types through the library; all patterns x modes x formats x streaming or in-memory "
        "through the converter, with files up to beyond the stream buffer; an outcome is a distinct selection")


def model(ps, pattern, mask, invert):
    """[(index, new pattern)]"""
    out = []
    for i, p in enumerate(ps):
        if not mask:
            if (p == pattern) != invert:
                out.append((i, p))
        elif not invert:
            if p & pattern:
                out.append((i, p & pattern))
        elif p == 0 or p & ~pattern:
            out.append((i, p & ~pattern))
    return out


def lib(ctx, dtype, n, prefix):
    seen = []
    for tail in itertools.product(range(16), repeat=n - len(prefix)) if n else [()]:
        ps = list(prefix) + list(tail) if n else []
        seen.append(libone(ctx, dtype, ps))
        ctx.count("library_calls", 64)
    return digest(dtype, seen)


def libone(ctx, dtype, ps, patterns=range(16)):
    arr = np.array(ps, dtype=dtype)
    arr.flags.writeable = False
    res = []
    for pattern in patterns:
        for mask, invert in ((False, False), (False, True), (True, False), (True, True)):
            m, r = P.get_pattern_mask(arr, pattern, mask, invert)
            want = model(ps, pattern, mask, invert)
            same([int(i) for i in np.arange(len(ps))[m]], [i for i, _ in want], "selected by pattern=%d mask=%s invert=%s from %s" % (pattern, mask, invert, ts_short(ps)))
            same([int(x) for x in r], [x for _, x in want], "patterns after pattern=%d mask=%s invert=%s from %s" % (pattern, mask, invert, ts_short(ps)))
            same(len(m), len(ps), "mask length")
            res.append(want)
    same(arr.tolist(), ps, "caller's array")
    return digest(res)


def ts_short(x):
    return x if len(x) < 20 else "%d patterns" % len(x)


def default(ctx):
    """mask and invert default to exact selection."""
    ps = list(range(16)) * 2
    for pattern in range(16):
        m, r = P.get_pattern_mask(np.array(ps), pattern)
        same([int(x) for x in r], [x for x in ps if x == pattern], "default mode")
        m, r = P.get_pattern_mask(np.array(ps), pattern, mask=True)
        same([int(x) for x in r], [x & pattern for x in ps if x & pattern], "mask=True")
        m, r = P.get_pattern_mask(np.array(ps), pattern, invert=True)
        same([int(x) for x in r], [x for x in ps if x != pattern], "invert=True")
    return digest("default")


def cli(ctx, a, b, inmem, events, pattern, mask, invert):
    src = ts.put(ctx.path("in"), ts.encode(a, events))
    dst = ts.put(ctx.path("out"), b"junk" * 50)
    args = ["-A", a[1], "-a", b[1]] + ["-X"] * (a == "a1x") + ["-x"] * (b == "a1x") + ["--inmemory"] * inmem
    if pattern is not None:
        args += ["--pfilter-pattern", pattern]
    args += ["--pfilter-mask"] * mask + ["--pfilter-invert"] * invert + [src, dst]
    args = ["-q"] * (zlib.crc32(repr(args[:-2] if args[-1] == dst else args).encode()) & 1) + args        # half of the cases with progress indicators
    code, out = ts.cli(P.main, *args)
    same(code, 0, "exit status")
    ps = [l & 15 for _, l in events]
    want = list(enumerate(ps)) if pattern is None else model(ps, pattern, mask, invert)
    want = [(events[i][0], p) for i, p in want]
    got = ts.decode(b, ts.get(dst))
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), None)
        check(False, "%s: %d events written, %d expected, first difference %s", args, len(got), len(want), None if i is None else (got[i], want[i]))
    return digest(b, pattern, mask, invert, want)


def bigcli(ctx, a, b, inmem, n, pattern, mask, invert):
    return cli(ctx, a, b, inmem, [(t, i * 7 % 16) for i, t in enumerate(ts.spread(n))], pattern, mask, invert)


def cases(ctx):
    yield ("defaults", default)
    for dtype in ("uint32", "uint64", "int64", "uint8"):
        for n in (0, 1, 2):
            for first in (range(16) if n else [0]):
                yield ("library %s length %d first %d" % (dtype, n, first), lib, dtype, n, (first,) if n else ())
    if ctx.thorough:
        for pre in itertools.product(range(16), repeat=2):
            yield ("library int64 length 3 prefix %s" % (pre,), lib, "int64", 3, pre)
    for n in (17, 1000, 65537):
        yield ("library %d patterns" % n, libone, "uint32", [i * 7 % 16 for i in range(n)])
    ev = [(t, i % 16) for i, t in enumerate(ts.spread(37))]
    for pattern in [None] + list(range(16)):
        for mask, invert in itertools.product((False, True), repeat=2):
            for inmem in (False, True):
                for a, b in itertools.product(ts.FORMATS, repeat=2):
                    if ctx.thorough or a == b or (a, b) == ("a1", "a2"):
                        yield ("convert %s %s inmemory=%s pattern=%s mask=%s invert=%s" % (a, b, inmem, pattern, mask, invert), cli, a, b, inmem, ev, pattern, mask, invert)
                for p in (0, 5, 15):
                    for a, b in itertools.product(ts.FORMATS, repeat=2):
                        yield ("convert one event %d, %s to %s inmemory=%s pattern=%s mask=%s invert=%s" % (p, a, b, inmem, pattern, mask, invert), cli, a, b, inmem, [(1 << 40, p)], pattern, mask, invert)
                yield ("convert empty file, pattern=%s mask=%s invert=%s" % (pattern, mask, invert), cli, "a1", "a1", inmem, [], pattern, mask, invert)
    for mask, invert in itertools.product((False, True), repeat=2):
        for pattern in (0, 5):
            for inmem in (False, True):
                yield ("convert 100003 events inmemory=%s pattern=%d mask=%s invert=%s" % (inmem, pattern, mask, invert), bigcli, "a1", "a1", inmem, 100003, pattern, mask, invert)
