"""Test-case generator: all ways of giving and reading timestamps, both word orders."""
import io
import itertools
import os
import runpy
import subprocess
import sys
import warnings
from engine import check, same, digest
import ts

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of timestamps (every bit position, carries, overflow) x input way x output way x word order, running the real program fresh each time, against an independent codec"
RULE = "all bit-boundary timestamps, all sequences up to length 3 over a small alphabet, all combinations of options; distinct outputs are counted"
ASSUMPTIONS = ["prompt mode is used with an output file, as documented"]
MASK = (1 << 54) - 1


class Stop(io.RawIOBase):
    """Standard input that ends with an interrupt."""

    def __init__(self, lines):
        self.lines = list(lines)

    def readline(self, *_):
        if not self.lines:
            raise KeyboardInterrupt
        return self.lines.pop(0) + "\n"


def program(args, stdin=b"", lines=None):
    """Fresh run; returns (exit code or exception, standard output)."""
    out = io.TextIOWrapper(io.BytesIO(), encoding="utf-8", write_through=True)
    err = io.StringIO()
    old = sys.stdin, sys.stdout, sys.stderr, sys.argv
    sys.argv = ["generate_freqcd_testcase"] + [str(a) for a in args]
    sys.stdin = Stop(lines) if lines is not None else io.TextIOWrapper(io.BytesIO(stdin))
    sys.stdout, sys.stderr = out, err
    code = 0
    try:
        with warnings.catch_warnings():
            runpy.run_module("fpfind.lib.generate_freqcd_testcase", run_name="__main__")
    except SystemExit as e:
        code = e.code or 0
    except (Exception, KeyboardInterrupt) as e:
        code = repr(e)
    finally:
        sys.stdin, sys.stdout, sys.stderr, sys.argv = old
    out.flush()
    return code, out.buffer.getvalue()


def fmt(legacy):
    return "a1x" if legacy else "a1"


def encoded(legacy, times):
    return ts.encode(fmt(legacy), [(t & MASK, 1) for t in times])


def written(ctx, times, legacy, where):
    """From the command line."""
    args = ["-t", *times]
    if legacy:
        args = args + ["-x"] if len(times) % 2 else ["-x"] + args
    o = ctx.path("o")
    if where != "stdout":
        if os.path.exists(o):
            os.unlink(o)
        if where == "existing":
            ts.put(o, b"\xee" * 4000)
        args = ["-o", o] + args
    before = set(os.listdir(ctx.scratch)) - {"o"}
    code, out = program(args)
    same(code, 0, "exit of %s" % (args[:8],))
    if where != "stdout":
        same(out, b"", "standard output")
        out = ts.get(o)
    same(out.hex(), encoded(legacy, times).hex(), "events for %s%s" % (times[:6], " in legacy order" if legacy else ""))
    same(set(os.listdir(ctx.scratch)) - {"o"}, before, "files left behind")
    return digest(out)


def prompted(ctx, entries, legacy, existing):
    o = ctx.path("o")
    ts.put(o, b"\xdd" * 400 if existing else b"")
    code, out = program(["-o", o] + (["-x"] if legacy else []), lines=entries)
    same(code, 0, "exit after an interrupt")
    good = [int(e) for e in entries if e.strip().isdigit()]
    same(ts.get(o).hex(), encoded(legacy, good).hex(), "events for entries %s" % (entries,))
    return digest(good, legacy)


def shown(ctx, events, legacy, way):
    """From a file or standard input."""
    data = ts.encode(fmt(legacy), events)
    x = ["-x"] if legacy else []
    p = ts.put(ctx.path("events.dat"), data)
    before = set(os.listdir(ctx.scratch))
    if way == "file":
        code, out = program(x + [p], stdin=b"\x55" * 16)
    else:
        code, out = program(x + ["-"], stdin=data)
    same(code, 0, "exit")
    same(out.decode().split("\n"), [str(t) for t, _ in events] + [""], "timestamps printed from %s" % way)
    same(ts.get(p), data, "input file afterwards")
    same(set(os.listdir(ctx.scratch)), before, "files left behind")
    return digest(out, way)


def loop(ctx, times, legacy):
    """What is written is read back, also with real processes."""
    cmd = [sys.executable, "-W", "ignore", "-m", "fpfind.lib.generate_freqcd_testcase"]
    x = ["-x"] if legacy else []
    r = subprocess.run(cmd + x + ["-t"] + [str(t) for t in times], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=ctx.scratch)
    same((r.returncode, r.stdout.hex()), (0, encoded(legacy, times).hex()), "written to a pipe")
    r = subprocess.run(cmd + x + ["-"], input=r.stdout, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=ctx.scratch)
    same((r.returncode, r.stdout.decode().split()), (0, [str(t & MASK) for t in times]), "read from a pipe")
    return digest(times, legacy)


def event(ctx, t):
    """One event, with each pattern; and what cannot be encoded."""
    from fpfind.lib.generate_freqcd_testcase import get_event
    for d in range(16):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            got = get_event(t, d) if d != 1 or t % 2 else get_event(t)
        same(got.hex(), ts.encode("a1", [(t & MASK, d)]).hex(), "event at %d with pattern %d" % (t, d))
        same(len(w), int(t > MASK), "warnings about %d" % t)
    for bad in ((t, 16), (t, -1), (t, 1 << 20), (t, "1"), (t, 1.5), (t, None), (-1 - t, 1), (t + 0.5, 1), (str(t), 1), (None, 1)):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                got = get_event(*bad)
            except (AssertionError, ValueError, TypeError, OverflowError):
                continue
        check(False, "event %s was encoded as %r", bad, got)
    return digest(t)


def refused(ctx, args, where):
    """Only what precedes the refused value may be written."""
    good = list(itertools.takewhile(lambda x: x.isdigit(), args))
    o = ctx.path("o")
    if os.path.exists(o):
        os.unlink(o)
    code, out = program((["-o", o] if where else []) + ["-t"] + args)
    check(code not in (0, None), "%s: accepted", args)
    got = ts.get(o) if where and os.path.exists(o) else out
    check(encoded(False, [int(x) for x in good]).startswith(got), "%s: written %r", args, got)
    return digest(code)


def nothing(ctx):
    code, out = program([])
    check(code not in (0, None) and out == b"", "no arguments: exit %s, printed %r", code, out[:80])
    return digest("usage")


def cases(ctx):
    vals = ts.values()
    over = sorted({(1 << k) + d for k in (54, 55, 60, 63, 64, 65, 100) for d in (-1, 0, 1, 12345)} | {3 << 54, (1 << 64) + (1 << 53), (1 << 54) * 7 + 42})
    for legacy in (False, True):
        for where in ("stdout", "new", "existing"):
            for i in range(0, len(vals), 8):
                yield ("write %d.. legacy=%s %s" % (vals[i], legacy, where), written, vals[i:i + 8], legacy, where)
            for i in range(0, len(over), 4):
                yield ("write %d.. legacy=%s %s" % (over[i], legacy, where), written, over[i:i + 4], legacy, where)
            for n in (1, 2, 3):
                for seq in itertools.product((0, 7, (1 << 22) + 1, MASK), repeat=n):
                    if where == "new" and not ctx.thorough:
                        continue
                    yield ("write %s legacy=%s %s" % (seq, legacy, where), written, list(seq), legacy, where)
            yield ("write 1000 events legacy=%s %s" % (legacy, where), written, [i * i * 12345678901 for i in range(1000)], legacy, where)
        for existing in (False, True):
            for e in ([], ["0"], ["5", "3", "5"], ["1000000000", "abc", "2000000000", "", "3"], ["  7 ", "1.5", "8"], [str(MASK), str(MASK + 1)], [str(x) for x in vals[:40]], [str(x) for x in vals[-40:]]):
                yield ("prompt %s legacy=%s existing=%s" % (e[:5], legacy, existing), prompted, e, legacy, existing)
        for way in ("file", "stdin"):
            for i in range(0, len(vals), 6):
                yield ("show %d.. legacy=%s %s" % (vals[i], legacy, way), shown, [(v, (j * 37 + i) % 1024) for j, v in enumerate(vals[i:i + 6])], legacy, way)
            for n in (0, 1, 2, 3):
                for seq in itertools.product((0, 255, (1 << 32) - 1, MASK), repeat=n):
                    yield ("show %s legacy=%s %s" % (seq, legacy, way), shown, [(v, 1023) for v in seq], legacy, way)
            yield ("show 3000 events legacy=%s %s" % (legacy, way), shown, [(i * 987654321987 & MASK, i % 16) for i in range(3000)], legacy, way)
        for t in ([0, 1000000000, 2000000000], [MASK, 5, 1 << 54], [2, 1]) if ctx.thorough else ([0, 1000000000, MASK, 5],):
            yield ("processes %s legacy=%s" % (t, legacy), loop, t, legacy)
    for t in vals + over:
        yield ("event at %d" % t, event, t)
    for where in (False, True):
        for args in (["-5"], ["3", "-5"], ["3", "-5", "7"], ["1.5"], ["3", "x"], ["3", ""], ["1e3"], ["7", "8", "-1"]):
            yield ("refused %s to a file: %s" % (args, where), refused, args, where)
    yield ("no arguments", nothing)
