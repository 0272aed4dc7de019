"""Cut and unreadable files: every truncation byte of timestamp files, every failing system call of every reader and program."""
import os
import sys
import numpy as np
from engine import check, same, digest
from fpfind import TSRES
from fpfind.lib import parse_timestamps as P
from fpfind.lib import parse_epochs as E
from fpfind.lib import utils as U
import fpfind.fpfind
import epochs
import sysfault
import ts

F = sys.modules["fpfind.fpfind"]
LEVEL = "fault_enumeration"
TECHNIQUE = ("exhaustive single-fault enumeration: every truncation byte of small timestamp files, and every file system call of each reader and program failing in every way (error once or from then on, "
             "short read), injected at the system call boundary of the real code")
RULE = ("for each reader and file: cut at every byte; an undisturbed run counts the system calls on the files, then each call fails in each way that applies; the outcome is an error or exactly the stored events; "
        "distinct (fault, outcome) pairs are counted")
CASE_LIMIT = 200


def setup(ctx):
    sysfault.build(ctx)


def events(n, seed=1):
    t, out = 0, []
    for i in range(n):
        t += (i * 7919 + seed * 104729) % 1000003 * (1 << (i * 5 % 23)) + 3
        out.append((t % (1 << 54), 1 + (i * 5 + seed) % 15))
    return out


def ints(t, p):
    return [(int(a), int(b)) for a, b in zip(t, p)]


READ = {"a0": P.read_a0, "a1": P.read_a1, "a1x": P.read_a1, "a2": P.read_a2}
STREAM = {"a0": P.sread_a0, "a1": P.sread_a1, "a1x": P.sread_a1, "a2": P.sread_a2}


def memory(fmt, path):
    t, p = READ[fmt](path, fmt == "a1x", TSRES.PS4, False)
    check(len(t) == len(p), "%d timestamps, %d patterns", len(t), len(p))
    return ints(t, p)


def stream(fmt, path, size, sink):
    """Delivered batches are appended to sink, also before an error."""
    s, _ = STREAM[fmt](path, fmt == "a1x", TSRES.PS4, False, buffer_size=size)
    for t, p in s:
        check(len(t) == len(p), "%d timestamps, %d patterns", len(t), len(p))
        sink.append(ints(t, p))


def complete(fmt, ev, cut):
    """Events whose digits or bytes are all there."""
    if fmt in ("a1", "a1x"):
        return ev[:cut // 8]
    text = ts.encode(fmt, ev)[:cut].decode().split("\n")
    words = [x for x in text if len(x) == (8 if fmt == "a0" else 16)]
    return ev[:len(words) // (2 if fmt == "a0" else 1)]


def cuts(ctx, fmt, n, sizes):
    ev = events(n)
    data = ts.encode(fmt, ev)
    out = []
    for cut in range(len(data) + 1):
        path = ts.put(ctx.path("cut"), data[:cut])
        want = complete(fmt, ev, cut)
        try:
            got = memory(fmt, path)
        except (ValueError, OSError, IndexError) as e:
            got = None
        if cut == len(data):
            same(got, ev, "whole file")
        if got is not None:
            check(got == want, "cut after %d of %d bytes: read %s, stored %s", cut, len(data), got, want)
        out.append(got is None)
        ctx.count("reads")
        for size in sizes:
            sink, ok = [], True
            try:
                stream(fmt, path, size, sink)
            except (ValueError, OSError, IndexError):
                ok = False
            got = sum(sink, [])
            check(got == want if ok else got == want[:len(got)], "cut after %d of %d bytes, streamed by %d: read %s%s, stored %s", cut, len(data), size, got, "" if ok else " and an error", want)
            check(ok or cut != len(data), "whole file is refused")
            out.append(ok)
            ctx.count("reads")
    return digest(fmt, n, out)


def program(main, *args):
    """Status of a program run in this process; an exception ends it with a nonzero one."""
    try:
        return ts.cli(main, *args)[0]
    except Exception as e:
        return repr(e)


def cut_converted(ctx, fmt, to, n, extra):
    """The converter on cut files: error status and a leading part, or exactly the complete events."""
    ev = events(n)
    data = ts.encode(fmt, ev)
    out = []
    for cut in range(1, len(data)):
        path = ts.put(ctx.path("cut"), data[:cut])
        dest = ctx.path("dest")
        if os.path.exists(dest):
            os.remove(dest)
        want = ts.encode(to, complete(fmt, ev, cut))
        code = program(P.main, "-A", fmt[1], *(["-X"] if fmt == "a1x" else []), "-a", to[1], *(["-x"] if to == "a1x" else []), "-q", *extra, path, dest)
        got = ts.get(dest) if os.path.exists(dest) else b""
        if code == 0:
            check(got == want, "cut after %d bytes, status 0: wrote %r, expected %r", cut, got, want)
        else:
            check(want.startswith(got), "cut after %d bytes, status %s: wrote %r, complete events are %r", cut, code, got, want)
        out.append(code == 0)
        ctx.count("conversions")
    return digest(fmt, to, out)


def explored(ctx, what, fn, judge, stdout=None, stdin=None, only=None, part=(0, 1)):
    """Every fault at every call of fn; judge(result, name) decides."""
    base = sysfault.attempt(ctx.scratch, fn, stdout=stdout, stdin=stdin)
    check(base.status == "ok", "%s without a fault: %s", what, base)
    judge(base, "no fault")
    seen = []
    for k, op in enumerate(base.ops):
        if only and not only(op) or k % part[1] != part[0]:
            continue
        for name, action, err, persistent in sysfault.faults(op):
            r = sysfault.attempt(ctx.scratch, fn, k, action, err, persistent, stdout, stdin, op[0])
            label = "%s, call %d (%s): %s" % (what, k, sysfault.name(op), name)
            check(r.status != "crashed", "%s: %s", label, r)
            ctx.count("faults" if r.fired else "not_reached")
            judge(r, label)
            seen.append((k, name, r.status))
            ctx.count("outcome_" + r.status)
    return seen


def expect(want, leading=False):
    def judge(r, label):
        check(r.status == "error" or r.value == want or (leading and label.endswith("file ends here") and r.value == want[:len(r.value)]), "%s: returned %s, stored %s", label, r.value, want)
    return judge


def unreadable(ctx, fmt, n):
    ev = events(n)
    path = ts.put(ctx.path("in"), ts.encode(fmt, ev))
    return digest(explored(ctx, "reading " + fmt, lambda: memory(fmt, path), expect(ev, True)))


def unreadable_stream(ctx, fmt, n, size):
    ev = events(n)
    path = ts.put(ctx.path("in"), ts.encode(fmt, ev))

    def fn():
        sink = []
        try:
            stream(fmt, path, size, sink)
        except (OSError, ValueError):
            return sink, False
        return sink, True

    def judge(r, label):
        if r.status == "error":
            return
        sink, ok = r.value
        got = sum(sink, [])
        check(got == ev if ok and not label.endswith("file ends here") else got == ev[:len(got)], "%s: read %d events%s, %d stored; first difference %s", label, len(got), "" if ok else " and an error", len(ev),
              next(((i, g, w) for i, (g, w) in enumerate(zip(got, ev)) if g != w), None))
    return digest(explored(ctx, "streaming " + fmt, fn, judge))


def epoch_files(ctx, kind, n):
    ep = 0x5F123456
    ev = [(o & ((1 << 37) - 1), 1 + i % 15) for i, (o, _) in enumerate(events(n))]
    diffs = [(2 + i * 37 % 900 if i % 3 else 1 << 20, 1 + i % 15) for i in range(n)]
    d = ctx.path("e")
    os.makedirs(d, exist_ok=True)
    if kind == "t1":
        path, fn = epochs.put(d, ep, epochs.t1(ep, ev)), lambda: ints(*E.read_T1(path, True, TSRES.PS4, False))
    elif kind == "t2":
        path, fn = epochs.put(d, ep, epochs.t2(ep, diffs, 10, 4)), lambda: ints(*E.read_T2(path, True, TSRES.PS4, False))
    elif kind == "t4":
        path, fn = epochs.put(d, ep, epochs.t4(ep, diffs, 10, 4)), lambda: ints(*E.read_T4(path))
    elif kind == "t3":
        path = epochs.put(d, ep, epochs.t3(ep, [16 << i % 4 | 1 << i // 4 % 4 for i in range(n)]))

        def fn():
            s = E.read_T3(path)
            return list(s.coinc_matrix), list(s.garbage), s.okcount, s.qber
    else:
        path = epochs.put(d, ep, {"1": lambda: epochs.t1(ep, ev), "2": lambda: epochs.t2(ep, diffs, 10, 4), "3": lambda: epochs.t3(ep, [0x12]), "4": lambda: epochs.t4(ep, diffs, 10, 4)}[kind[1]]())
        fn = lambda: tuple(getattr(E, "read_T%s_header" % kind[1])(path))
    want = fn()
    return digest(explored(ctx, "reading %s with %d events" % (kind, n), fn, expect(want)))


def directories(ctx, kind, n, m):
    """Loading epochs."""
    d = ctx.path("d")
    os.makedirs(d, exist_ok=True)
    for i in range(n):
        ep = 0x1FFFE + i
        diffs = [(1000 + 7 * j + 13 * i, 1) for j in range(m)]
        epochs.put(d, ep, epochs.t2(ep, diffs, 12, 4) if kind == "T2" else epochs.t1(ep, [(1000 + 977 * j + i, 1) for j in range(m)]))
    load = lambda: [float(x) for x in U.get_timestamp(d, kind, "1fffe", 1, n - 1)]
    seen = explored(ctx, "loading epochs", load, expect(load()))
    return digest(seen)


def search(ctx, kind, part):
    """The whole search on files or directories: the same line, or a nonzero status and no line."""
    r = np.random.RandomState(5)
    names = []
    for side in range(2):
        names.append(ctx.path("%s%d" % (kind, side)))
    shift = 16000                                    # 2 us, in units of 125 ps
    if kind == "epochs":
        for d in names:
            os.makedirs(d, exist_ok=True)
        for i in range(3):
            o = sorted(set(int(x) for x in r.randint(1000, (1 << 32) - 100000, 900)))
            for side in range(2):
                ev = [x + shift * side for x in o]
                ep = 0x12345 + i
                data = epochs.t1(ep, [(x * 32, 1) for x in ev]) if side else epochs.t2(ep, [(y - x, 1) for x, y in zip([0] + ev, ev)], 24, 4)
                epochs.put(names[side], ep, data)
        opts = ["-d", names[0], "-D", names[1], "-R", "65536", "-q", "10", "-s", "12"]
    else:
        o = sorted(set(int(x) for x in r.randint(0, 1 << 30, 6000)))
        for side in range(2):
            ts.put(names[side], ts.encode(kind, [((x + shift * side) * 32, 1) for x in o]))
        opts = ["-t", names[0], "-T", names[1], "-R", "1024", "-q", "12", "-s", "10", *(["-X"] if kind == "a1x" else [])]
    opts += ["-k", "1", "-S", "5"]
    out = ctx.path("out")

    def fn():
        with ts.argv("fpfind", *opts):
            F.main()

    def judge(r, label):
        text = ts.get(out)
        if r.status == "ok":
            check(text == line, "%s: printed %r, expected %r", label, text, line)
        else:
            check(line.startswith(text), "%s: printed %r before ending with %s", label, text, r)
    base = sysfault.attempt(ctx.scratch, fn, stdout=out)
    line = ts.get(out)
    check(base.status == "ok" and line.count(b"\t") == 1, "undisturbed search: %s, printed %r", base, line)
    return digest(explored(ctx, "search on " + kind, fn, judge, stdout=out, only=lambda op: not op[1], part=part))


def cases(ctx):
    for kind in ("a1", "a1x", "epochs"):
        for i in range(8):
            yield ("search on %s, failing calls %d modulo 8" % (kind, i), search, kind, (i, 8))
    for fmt in ts.FORMATS:
        for n in range(1, ctx.pick(4, 7)):
            yield ("%s with %d events, cut at every byte" % (fmt, n), cuts, fmt, n, (1, 2, 3, 100000))
        for to in ts.FORMATS:
            for extra in ([], ["--inmemory"]):
                yield ("%s cut at every byte, converted to %s %s" % (fmt, to, extra), cut_converted, fmt, to, 2, extra)
        for n in (1, 3, 700, ctx.pick(1100, 5000)):
            yield ("%s with %d events, failing calls" % (fmt, n), unreadable, fmt, n)
            for size in (1, 2, 100, 100000):
                if n // size < 400:
                    yield ("%s with %d events streamed by %d, failing calls" % (fmt, n, size), unreadable_stream, fmt, n, size)
    for kind in ("t1", "t2", "t3", "t4", "h1", "h2", "h3", "h4"):
        for n in (1, 5, 700, 1500):
            yield ("%s with %d events, failing calls" % (kind, n), epoch_files, kind, n)
    for kind in ("T1", "T2"):
        for n, m in ((2, 3), (4, 5), (3, 700)):
            yield ("%d %s epochs of %d events, failing calls" % (n, kind, m), directories, kind, n, m)
