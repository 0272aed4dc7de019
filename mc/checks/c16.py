"""Damaged epoch files: every truncation point, every small wrong count, every nonzero end mark."""
import itertools
from engine import check, same, digest
from fpfind import TSRES
from fpfind.lib import parse_epochs as E
import epochs, ts

LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive single-fault enumeration: every truncation byte, wrong count and end mark of each small file, on the real readers"
RULE = ("for each well-formed file: cut at every byte, every wrong header count in a range plus extremes, every nonzero end-mark pattern; an outcome is a distinct (fault, result)")
CASE_LIMIT = 20
MEMORY = 2 << 30


def read(kind, path, mode):
    if kind == "t4":
        t, p = E.read_T4(path)
        return [int(x) for x in t], [int(x) for x in p]
    frac = mode % 4 == 0      # with the full epoch, exact integers are compared
    t, p = getattr(E, "read_T" + kind[1])(path, mode // 2 % 2 == 1, TSRES.PS4, frac)
    return [int(x) for x in t], [int(x) for x in p]


def expected(kind, epoch, ev, mode):
    p = [x for _, x in ev]
    if kind == "t4":
        return list(itertools.accumulate(d for d, _ in ev)), p
    full = mode // 2 % 2 == 1
    base = (epoch if full else epoch & 0x1FFFF) << 37
    if kind == "t1":
        return [base + o for o, _ in ev], p
    return [base + o * 32 for o in itertools.accumulate(d for d, _ in ev)], p


def build(kind, epoch, ev, m, b, esc, **kw):
    if kind == "t1":
        return epochs.t1(epoch, ev, **kw)
    return getattr(epochs, kind)(epoch, ev, m, b, esc, **kw)


def damaged(ctx, kind, epoch, ev, data, mode, what, must=None):
    """must: True = has to be refused"""
    path = epochs.put(ctx.scratch, epoch, data)
    ctx.count("faults")
    try:
        got = read(kind, path, mode)
    except Exception as e:
        if isinstance(e, MemoryError):
            raise
        return type(e).__name__
    check(not must, "%s accepted: %d events returned", what, len(got[0]))
    want = expected(kind, epoch, ev, mode)
    same(got, want, "%s, events returned" % what)
    return "complete"


def cuts(ctx, kind, epoch, ev, m, b, esc, mode):
    data = build(kind, epoch, ev, m, b, esc)
    same(damaged(ctx, kind, epoch, ev, data, mode, "intact file"), "complete", "intact file")
    return digest(kind, epoch, ev, m, b, esc, [damaged(ctx, kind, epoch, ev, data[:n], mode, "file cut to %d of %d bytes" % (n, len(data)), n < len(data) - 8 if kind == "t1" and ev else None) for n in range(len(data))])


def counts(ctx, kind, epoch, ev, m, b, esc, mode):
    wrong = [c for c in list(range(1, len(ev) + 12)) + [255, 256, 65535, 1 << 31, (1 << 32) - 1, len(ev) + 256, len(ev) + 65536] if c != len(ev)]
    return digest(kind, epoch, ev, m, b, esc, [damaged(ctx, kind, epoch, ev, build(kind, epoch, ev, m, b, esc, count=c), mode, "count %d for %d events" % (c, len(ev)), True) for c in wrong])


def endmarks(ctx, kind, epoch, ev, m, b, esc, mode):
    return digest(kind, epoch, ev, m, b, esc, [damaged(ctx, kind, epoch, ev, build(kind, epoch, ev, m, b, esc, endbase=x), mode, "end mark with pattern %d" % x, True) for x in range(1, 1 << b)])


def cases(ctx):
    offs = [1, 255, 1 << 22, (1 << 32) + 5, (1 << 37) - 1, 77]
    for k, epoch in enumerate(epochs.EPOCHS):
        for n in range(0, ctx.pick(5, 7)):
            for sh in range(3):
                ev = [(offs[(i + sh) % 6], 1 + (i + sh) % 15) for i in range(n)]
                for mode in range(4):
                    a = ("t1", epoch, ev, 0, 0, 0, mode)
                    yield ("T1 cuts epoch %x %s mode %d" % (epoch, ev, mode), cuts) + a
                    yield ("T1 counts epoch %x %s mode %d" % (epoch, ev, mode), counts) + a
    # all-zero low half or high half next to the end mark
    for ev in ([(0, 1)], [(0, 1), (0, 1)], [(1 << 22, 0)], [(1 << 22, 0), (0, 2)], [(5 << 22, 0)] * 3):
        for mode in range(4):
            yield ("T1 cuts %s" % ev, cuts, "t1", 0, ev, 0, 0, 0, mode)
            yield ("T1 counts %s" % ev, counts, "t1", 0, ev, 0, 0, 0, mode)
    widths = [(17, 1), (17, 4), (20, 4), (9, 2), (32, 8), (4, 4), (1, 1), (31, 1)] if not ctx.thorough else [(m, b) for m in range(1, 33) for b in (1, 2, 3, 4, 8)]
    for m, b in widths:
        al = [2, 3, (1 << m) - 1, 1 << m, 0, 1, 100000]
        al = [min(x, (1 << 32) - 3) for x in al]
        for kind in ("t2", "t4"):
            for n in range(0, ctx.pick(4, 6)):
                for sh in range(len(al) if n else 1):
                    ev = [(al[(i * 3 + sh) % len(al)], (i + sh + 1) % (1 << b)) for i in range(n)]
                    for esc in {0, (1 << n) - 1}:
                        a = (kind, 0xba1f36c0, ev, m, b, esc, (n + sh) % 4)
                        yield ("%s cuts m=%d b=%d %s escape %d" % (kind, m, b, ev, esc), cuts) + a
                        yield ("%s counts m=%d b=%d %s escape %d" % (kind, m, b, ev, esc), counts) + a
                        yield ("%s end marks m=%d b=%d %s escape %d" % (kind, m, b, ev, esc), endmarks) + a
