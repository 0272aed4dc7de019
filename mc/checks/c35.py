"""Failed writes: every file system call of every writer and program fails in every way, or the process is killed there."""
import os
import sys
import numpy as np
from engine import check, same, digest
from fpfind import TSRES
from fpfind.lib import parse_timestamps as P
from fpfind.lib import parse_epochs as E
from fpfind.lib import generate_freqcd_testcase as G
import fpfind.fpfind
import epochs
import sysfault
import ts

F = sys.modules["fpfind.fpfind"]
LEVEL = "fault_enumeration"
TECHNIQUE = ("exhaustive enumeration of single faults and crash points: every file system call of each writer and program fails in every way (error once or from then on, write cut short) or the process is "
             "killed before or half way through it, injected at the system call boundary of the real code")
RULE = ("for each writer and content: an undisturbed run counts the system calls on the files, then each fails in each way that applies and the process is killed at each; the file left behind is compared with the "
        "undisturbed one; distinct (fault, outcome) pairs are counted")
CASE_LIMIT = 200


def setup(ctx):
    sysfault.build(ctx)


def events(n, seed=1):
    t, out = 0, []
    for i in range(n):
        t += (i * 7919 + seed * 104729) % 1000003 * (1 << (i * 5 % 23)) + 3
        out.append((t % (1 << 54), 1 + (i * 5 + seed) % 15))
    return out


def explored(ctx, what, fn, out, judge=None, stdout=None, stdin=None, before=None, value=None, part=(0, 1), scope=1):
    """fn writes the file out; with scope 2, lasting faults concern the same descriptor only; before restores the state each run starts from."""
    def fresh():
        for p in (out, stdout):
            if p and os.path.exists(p):
                os.remove(p)
        if before:
            before()

    def left():
        return ts.get(out) if os.path.exists(out) else None

    fresh()
    old = left()
    base = sysfault.attempt(ctx.scratch, fn, stdout=stdout, stdin=stdin)
    check(base.status == "ok", "%s without a fault: %s", what, base)
    want = left()
    check(want is not None, "%s: nothing written", what)
    if value is not None:
        check(want == value, "%s: wrote %r, expected %r", what, want[:200], value[:200])
    seen = []
    for k, op in enumerate(base.ops):
        if k % part[1] != part[0]:
            continue
        for name, action, err, persistent in list(sysfault.faults(op)) + list(sysfault.crashes(op)):
            if name == "file ends here":
                continue        # see C34
            fresh()
            r = sysfault.attempt(ctx.scratch, fn, k, action, err, persistent and scope, stdout, stdin, op[0])
            label = "%s, call %d (%s): %s" % (what, k, sysfault.name(op), name)
            check(r.status != "crashed", "%s: %s", label, r)
            ctx.count("faults" if r.fired else "not_reached")
            got = left()
            if r.status == "ok":
                check(got == want, "%s: reported success, but left %s bytes of %d", label, None if got is None else len(got), len(want))
            elif got is not None and not (old is not None and got == old):
                check(want.startswith(got), "%s: %s and left %d bytes that are not the beginning of the %d to be written", label, r.status, len(got), len(want))
            if judge:
                judge(r, got, label, op)
            seen.append((k, name, r.status))
            ctx.count("outcome_" + r.status)
    return digest(seen, len(want))


def batches(ev, size):
    for i in range(0, len(ev), size):
        x = ev[i:i + size]
        yield np.array([t for t, _ in x], dtype=np.uint64), np.array([p for _, p in x])


def library(ctx, fmt, n, size, existing, part):
    ev = events(n)
    out = ctx.path("out")
    x = fmt == "a1x"
    if size:
        w = {"a0": P.swrite_a0, "a1": P.swrite_a1, "a1x": P.swrite_a1, "a2": P.swrite_a2}[fmt]
        fn = lambda: w(out, batches(ev, size), None, x, TSRES.PS4, False) and None
    else:
        w = {"a0": P.write_a0, "a1": P.write_a1, "a1x": P.write_a1, "a2": P.write_a2}[fmt]
        t, p = (np.array(v) for v in zip(*ev)) if n else (np.array([], dtype=int),) * 2
        fn = lambda: w(out, t, p, x, TSRES.PS4) and None
    before = (lambda: ts.put(out, b"previous content " * existing)) if existing else None
    return explored(ctx, "writing %d events as %s" % (n, fmt), fn, out, before=before, value=ts.encode(fmt, ev), part=part)


def epoch(ctx, n, existing, part):
    ep = 0x5F123456
    ev = [(i * 977 + 5, 1 + i % 15) for i in range(n)]
    out = ctx.path("%x" % ep)
    full = None

    def judge(r, got, label, op):
        if got is None or got == old:
            return
        try:
            t, p = E.read_T1(out, False, TSRES.PS4, False)
        except (ValueError, OSError, EOFError) as e:
            return
        except Exception as e:
            check(type(e).__name__ == "error", "%s: reading what is left raised %r", label, e)       # struct.error: no header
            return
        got = [(int(a) - ((ep & 0x1FFFF) << 37), int(b)) for a, b in zip(t, p)]
        check(got == ev, "%s: the file left is read as %d events without an error, %d were to be written", label, len(got), len(ev))
    old = b"previous content " * existing if existing else None
    fn = lambda: E.write_T1(ctx.scratch, ep, [t for t, _ in ev], [p for _, p in ev]) and None
    return explored(ctx, "writing an epoch of %d events" % n, fn, out, judge, before=(lambda: ts.put(out, old)) if existing else None, value=epochs.t1(ep, ev), part=part)


def main(module, *args):
    def fn():
        with ts.argv("prog", *args):
            module.main()
    return fn


def converter(ctx, fmt, to, n, extra, part):
    ev = events(n)
    src, out = ts.put(ctx.path("src"), ts.encode(fmt, ev)), ctx.path("out")
    args = ["-A", fmt[1], *(["-X"] if fmt == "a1x" else []), "-a", to[1], *(["-x"] if to == "a1x" else []), "-q", *extra, src, out]

    def judge(r, got, label, op):
        check(ts.get(src) == ts.encode(fmt, ev), "%s: the input file was changed", label)
    return explored(ctx, "converting %d events from %s to %s %s" % (n, fmt, to, extra), main(P, *args), out, judge, value=ts.encode(to, ev), part=part)


def onto(ctx, fmt, to, n, extra, alias):
    """Converting a file onto itself, by whatever name: refused and unchanged, or complete."""
    ev = events(n)
    data = ts.encode(fmt, ev)
    src = ts.put(ctx.path("src"), data)
    out = ctx.path("alias")
    if os.path.lexists(out):
        os.remove(out)
    if alias == "symbolic":
        os.symlink("src", out)
    elif alias == "hard":
        os.link(src, out)
    elif alias == "dotted":
        out = os.path.join(ctx.scratch, ".", "src")
    else:
        out = src
    args = ["-A", fmt[1], *(["-X"] if fmt == "a1x" else []), "-a", to[1], *(["-x"] if to == "a1x" else []), "-q", *extra, src, out]
    try:
        code = ts.cli(P.main, *args)[0]
    except Exception as e:
        code = repr(e)
    got = ts.get(src)
    what = "converting %d events from %s to %s %s onto the same file (%s)" % (n, fmt, to, extra, alias)
    if code == 0 and "-p" not in extra:
        check(got == ts.encode(to, ev), "%s: reported success, but left %d bytes instead of %d", what, len(got), len(ts.encode(to, ev)))
    else:
        check(got == data, "%s: %s, but the input was changed (%d bytes left of %d)", what, code, len(got), len(data))
    ctx.state("onto", fmt, to, n, tuple(extra), alias)
    ctx.step()
    return digest(code, len(got))


def statistics(ctx, fmt, n, extra):
    """The report goes to standard output: complete, or the program fails."""
    src, out = ts.put(ctx.path("src"), ts.encode(fmt, events(n))), ctx.path("report")
    return explored(ctx, "statistics of %d events in %s %s" % (n, fmt, extra), main(P, "-A", fmt[1], "-p", "-q", *extra, src), out, stdout=out)


def generator(ctx, legacy, n, way, part):
    times = [t for t, _ in events(n)]
    fmt = "a1x" if legacy else "a1"
    out = ctx.path("out")
    data = ts.encode(fmt, [(t, 1) for t in times])
    x = ["-x"] if legacy else []
    if way == "file":
        return explored(ctx, "generating %d events" % n, main(G, "-t", *times, *x, "-o", out), out, value=data, part=part)
    if way == "stdout":
        return explored(ctx, "generating %d events to standard output" % n, main(G, *x, "-t", *times), out, stdout=out, value=data, part=part)
    src = ts.put(ctx.path("src"), data)
    text = "".join("%d\n" % t for t in times).encode()
    if way == "print":
        return explored(ctx, "printing %d events" % n, main(G, *x, src), out, stdout=out, value=text, part=part)
    return explored(ctx, "printing %d events from standard input" % n, main(G, *x, "-"), out, stdout=out, stdin=src, value=text, part=part)


def result(ctx, log, part):
    """The search: its line is complete or it fails; a log file that cannot be written changes nothing."""
    r = np.random.RandomState(5)
    o = sorted(set(int(x) for x in r.randint(0, 1 << 30, 3000)))
    files = [ts.put(ctx.path("r%d" % side), ts.encode("a1", [((x + 16000 * side) * 32, 1) for x in o])) for side in range(2)]
    out = ctx.path("line")
    args = ["-t", files[0], "-T", files[1], "-R", "1024", "-q", "12", "-s", "10", "-k", "1", "-S", "5"]
    if log:
        args += ["-vv", "-L", ctx.path("log")]

    def judge(r, got, label, op):
        if op[0] == "w" and op[2] != 1 and r.status != "killed":
            check(r.status == "ok", "%s: the search ended with %s because of its log file", label, r)
            ctx.count("log_faults")
    return explored(ctx, "search" + (" with a log file" if log else ""), main(F, *args), out, judge, stdout=out, part=part, scope=2)


def cases(ctx):
    both = lambda: ((i, 2) for i in range(2))
    for log in (False, True):
        for i in range(8):
            yield ("result of a search, log file %s, part %d" % (log, i), result, log, (i, 8))
    for fmt in ts.FORMATS:
        for n in (0, 1, 3, 700, ctx.pick(1500, 6000)):
            for size in (0, 1, 2, 500):
                if size and n // size > 1000:
                    continue
                for existing in (0, 3000):
                    if n > 3 and existing and size != 500:
                        continue
                    yield ("%s, %d events, batches of %d, %d existing" % (fmt, n, size, existing), library, fmt, n, size, existing, (0, 1))
    for n in (0, 1, 2, 3, 600, 1100):
        for existing in (0, 3000):
            for part in both():
                yield ("epoch of %d events, %d existing, part %s" % (n, existing, part), epoch, n, existing, part)
    for fmt in ts.FORMATS:
        for to in ts.FORMATS:
            for n in (2, 1200):
                for extra in ([], ["--inmemory"]):
                    for part in both():
                        yield ("%d events from %s to %s %s, part %s" % (n, fmt, to, extra, part), converter, fmt, to, n, extra, part)
        for n in (1, 700):
            for extra in ([], ["--inmemory"]):
                yield ("statistics of %d events in %s %s" % (n, fmt, extra), statistics, fmt, n, extra)
    for fmt in ts.FORMATS:
        for to in ts.FORMATS:
            for n in (0, 1, 3, 1200):
                for extra in ([], ["--inmemory"], ["-p"], ["--tfilter-start", "0"]):
                    if n or fmt[:2] == "a1":
                        for alias in ("same", "dotted", "symbolic", "hard"):
                            yield ("%d events from %s to %s %s onto itself, %s" % (n, fmt, to, extra, alias), onto, fmt, to, n, extra, alias)
    for legacy in (False, True):
        for way in ("file", "stdout", "print", "stdin"):
            for n in (1, 3, ctx.pick(40, 200)):
                for part in both():
                    yield ("generator, %s, %d events, legacy %s, part %s" % (way, n, legacy, part), generator, legacy, n, way, part)
