"""Statistics report against direct counting, in memory and streamed, for every partition into batches."""
import contextlib, io, itertools, math, os, re
from fractions import Fraction
import numpy as np
from engine import check, same, digest
from fpfind import TSRES
from fpfind.lib import parse_timestamps as P
import ts
from checks.c09 import model as pmodel
from checks.c10 import model as tmodel, S

LEVEL = "exploration"
RULE = ("all pattern sequences up to a length, all batch partitions with empty batches, formats x modes x filters through the converter's report; an outcome is a distinct report")


def parse(text):
    """The report as {label: text}; labels in lower case, without units in brackets."""
    out = {}
    for line in text.splitlines():
        if ":" in line:
            k, v = line.split(":", 1)
            out[re.sub(r"\(.*?\)|~", "", k).strip().lower()] = v.strip()
    return out


def number(rep, key):
    check(key in rep, "report lacks '%s': %s", key, rep)
    return rep[key]


def verify(text, name, events, size=None):
    """events: [(4ps timestamp, pattern)] expected in the report"""
    r = parse(text)
    same(number(r, "name"), name, "file name")
    if size is not None and "filesize" in r:
        check(abs(Fraction(r["filesize"]) - Fraction(size, 1 << 20)) <= Fraction(501, 10 ** 6), "file size %s for %d bytes", r["filesize"], size)
    n = len(events)
    same(int(number(r, "total events")), n, "total events")
    if n == 0:
        for k in ("channel 1", "channel 2", "channel 3", "channel 4", "multi-channel", "no channel"):
            if k in r:
                same(int(r[k]), 0, k)
        return
    ps = [p for _, p in events]
    for c in range(4):
        same(int(number(r, "channel %d" % (c + 1))), sum(p >> c & 1 for p in ps), "channel %d" % (c + 1))
    same(int(number(r, "multi-channel")), sum(bin(p).count("1") > 1 for p in ps), "multi-channel")
    same(int(number(r, "no channel")), sum(p == 0 for p in ps), "no channel")
    same(sorted(int(x) for x in re.findall(r"(?<![\w.])\d+", number(r, "detection patterns"))), sorted(set(ps)), "detection patterns")
    a, b = events[0][0], events[-1][0]
    for key, v in (("start", a), ("end", b), ("duration", b - a)):
        v = Fraction(v, S)
        got = Fraction(number(r, key))
        check(abs(got - v) <= Fraction(501, 10 ** 12) + v / 2 ** 48, "%s: reported %s s, expected %.12f", key, r[key], float(v))
    if b > a:
        rate = Fraction(n * S, b - a)
        ok = {math.floor(rate), math.floor(rate * (1 + Fraction(1, 10 ** 12))), math.floor(rate * (1 - Fraction(1, 10 ** 12)))}
        check(int(number(r, "event rate")) in ok, "event rate %s, expected %s", r["event rate"], float(rate))


def captured(fn, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        fn(*a, **k)
    return out.getvalue()


TIMES = [0, 256, 1000, S, S + 3, 5 * S, (1 << 53) + 1, ts.MAXT]


def memory(ctx, n):
    """All pattern sequences of length n through the in-memory and the single-batch report."""
    t = np.array(TIMES[:n] if n < 6 else TIMES, dtype=np.longdouble) / 256
    raw = np.array(TIMES[:n], dtype=np.uint64)
    seen = set()
    for ps in itertools.product(range(16) if n < 3 else (0, 1, 2, 4, 8, 3, 15), repeat=n):
        p = np.array(ps, dtype=np.uint32)
        ev = list(zip(TIMES, ps))
        a = captured(P.print_statistics, "nofile", t[:n], p)
        verify(a, "nofile", ev)
        b = captured(P.print_statistics_stream, "nofile", iter([(raw, p)]), 1, TSRES.PS4, False)
        verify(b, "nofile", ev)
        seen.add(a)
        ctx.count("reports", 2)
    return digest(sorted(seen))


def stream(ctx, n, sizes, empties, res):
    ps = [0, 1, 3, 8, 15, 2, 4, 1][:n]
    t = [x // 256 * 256 for x in TIMES[:n]]
    d = 256 // res.value
    arr = np.array([x // d for x in t], dtype=np.uint64)
    p = np.array(ps, dtype=np.uint32)

    def batches():
        pos = 0
        for i, k in enumerate(tuple(sizes) + (0,)):
            if empties >> i & 1:
                yield arr[:0], p[:0]
            if i < len(sizes):
                yield arr[pos:pos + k], p[pos:pos + k]
            pos += k
    args = ("nofile", batches(), len(sizes)) + ((res,) if res is not TSRES.NS1 else ())
    a = captured(P.print_statistics_stream, *args, display=bool(empties & 1))
    verify(a, "nofile", list(zip(t, ps)))
    return digest(n, sizes, empties)


def cli(ctx, fmt, inmem, events, quiet=True, pat=None, start=None, end=None):
    src = ts.put(ctx.path("in"), ts.encode(fmt, events))
    args = ["-A", fmt[1], "-p"] + ["-q"] * quiet + ["-X"] * (fmt == "a1x") + ["--inmemory"] * inmem
    want = [(t, l & 15) for t, l in events]
    if pat is not None:
        args += ["--pfilter-pattern", pat[0]] + ["--pfilter-mask"] * pat[1] + ["--pfilter-invert"] * pat[2]
        want = [(want[i][0], p) for i, p in pmodel([l for _, l in want], *pat)]
    for k, v in (("--tfilter-start", start), ("--tfilter-end", end)):
        if v is not None:
            args += [k, repr(float(v))]
    want = [want[i] for i in tmodel([t for t, _ in want], start, end)]
    code, out = ts.cli(P.main, *args, src)
    same(code, 0, "exit status")
    verify(out, src, want, os.path.getsize(src))
    return digest(fmt, out)


def bigcli(ctx, fmt, inmem, n, pat=None, start=None, end=None):
    return cli(ctx, fmt, inmem, [(S // 8 + i * (S // 1024), i * 7 % 16) for i in range(n)], True, pat, start, end)


def cases(ctx):
    for n in range(0, ctx.pick(4, 5)):
        yield ("reports for all patterns of length %d" % n, memory, n)
    for n in range(0, ctx.pick(6, 8)):
        for sizes in ts.compositions(n):
            for empties in range(1 << (len(sizes) + 1)):
                for res in (TSRES.NS1, TSRES.PS4, TSRES.PS125) if n < 4 else (TSRES.PS4,):
                    yield ("stream report of %d events as %s empties %s %s" % (n, sizes, bin(empties), res), stream, n, sizes, empties, res)
    base = [(t, p) for t, p in zip([5, S // 2, S, S, 3 * S, 9 * S, 1 << 53, ts.MAXT - 256], [1, 2, 4, 8, 0, 3, 15, 1])]
    for fmt in ts.FORMATS:
        for inmem in (False, True):
            for n in range(len(base) + 1):
                for off in range(0, len(base) - n + 1):
                    yield ("%s report inmemory=%s events %d to %d" % (fmt, inmem, off, off + n), cli, fmt, inmem, base[off:off + n])
            for t in (0, 256, S, ts.MAXT):
                for k in (1, 2, 5):
                    yield ("%s report inmemory=%s %d events at %d" % (fmt, inmem, k, t), cli, fmt, inmem, [(t, i) for i in range(k)], False)
            for pat in [None] + [(p, m, i) for p in (0, 1, 3, 15) for m in (False, True) for i in (False, True)]:
                for start, end in ((None, None), (None, 1), (1, None), (0, 0), (Fraction(1, 2), 9), (10 ** 6, None), (None, 100000)):
                    yield ("%s report inmemory=%s pattern=%s start=%s end=%s" % (fmt, inmem, pat, start, end), cli, fmt, inmem, base, True, pat, start, end)
            for n in ctx.pick((1000, 100001), (1000, 99999, 100000, 100001, 250000)):
                if n < 2000 or fmt[1] == "1" or ctx.thorough:
                    yield ("%s report inmemory=%s %d events" % (fmt, inmem, n), bigcli, fmt, inmem, n)
                    yield ("%s report inmemory=%s %d events filtered" % (fmt, inmem, n), bigcli, fmt, inmem, n, (3, True, False), 90, 100)
