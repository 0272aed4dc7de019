"""First common epoch: all pairs of directory contents over a universe of neighbouring epochs."""
import os, pathlib
from engine import check, same, digest
from fpfind.lib import utils as U
import ts

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all pairs of directory contents over a universe of epochs and all requested first epochs, on the real code with real directories"
RULE = ("all pairs of subsets of a universe of epochs (numbers whose names differ in length, gaps, both counter ends) x all requested first epochs; states are directory contents, "
        "transitions are searches; an outcome is a distinct result")


def model(a, b, first):
    c = {x for x in a if x in b and (first is None or x >= first)}
    if not c:
        return None, 0
    m = n = min(c)
    while n in c:
        n += 1
    return m, n - m


def group(ctx, uni, ma):
    dirs = {}
    for m in range(1 << len(uni)):
        d = ctx.path("u%x-%d" % (uni[0], m))
        if not os.path.isdir(d):
            os.makedirs(d)
            for i, e in enumerate(uni):
                if m >> i & 1:
                    ts.put(os.path.join(d, "%x" % e), b"")
        dirs[m] = d
    if ma == -1:
        return None
    a = [e for i, e in enumerate(uni) if ma >> i & 1]
    seen = set()
    firsts = [None] + sorted({max(0, uni[0] - 1)} | set(uni) | {e + 1 for e in uni})
    for mb in range(1 << len(uni)):
        b = [e for i, e in enumerate(uni) if mb >> i & 1]
        ctx.state(a, b)
        for first in firsts:
            arg = None if first is None else "%x" % first
            d1, d2 = (dirs[ma], dirs[mb]) if mb % 2 else (pathlib.Path(dirs[ma]), pathlib.Path(dirs[mb]))
            name, n = U.get_first_overlapping_epoch(d1, d2, arg, return_length=True)
            want, wn = model(a, b, first)
            what = "in %s and %s from %s" % (["%x" % e for e in a], ["%x" % e for e in b], arg)
            same(None if name is None else int(name, 16), want, "first epoch common " + what)
            if name is not None:
                same(name, "%x" % want, "name of epoch")
            same(n, wn, "number of consecutive epochs " + what)
            ctx.step()
            seen.add((want, wn))
        same(U.get_first_overlapping_epoch(dirs[ma], dirs[mb]), None if model(a, b, None)[0] is None else "%x" % model(a, b, None)[0], "default search")
    return digest(sorted(seen, key=repr))


def long(ctx, start, n, holes):
    d = [ctx.path("l1"), ctx.path("l2")]
    sets = [set(range(start, start + n)) - set(holes), set(range(start - 3, start + n + 5))]
    for path, s in zip(d, sets):
        import shutil
        shutil.rmtree(path, ignore_errors=True)
        os.makedirs(path)
        for e in s:
            ts.put(os.path.join(path, "%x" % e), b"")
    for first in [None, start, start + n // 2] + list(holes):
        name, k = U.get_first_overlapping_epoch(d[0], d[1], None if first is None else "%x" % first, True)
        want, wk = model(sets[0], sets[1], first)
        same((int(name, 16), k), (want, wk), "search among %d epochs from %s" % (n, first))
        ctx.step()
    return digest(start, n, holes)


def cases(ctx):
    k = ctx.pick(5, 6)
    for uni in ([0, 1, 2, 3, 5, 6], [0xe, 0xf, 0x10, 0x11, 0x12, 0x20], [0xfffe, 0xffff, 0x10000, 0x10001, 0x10003, 0x10004], [0x1fffe, 0x1ffff, 0x20000, 0x20001, 0x20002, 0x20003],
                [0xba1f36be, 0xba1f36bf, 0xba1f36c0, 0xba1f36c2, 0xba1f36c3, 0xba1f36c4], [0x9, 0x99, 0x9a, 0x9b, 0x100, 0xfffffffe], [0xfffffffa, 0xfffffffb, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff]):
        for ma in range(1 << k):
            yield ("universe %s first directory %s" % (["%x" % e for e in uni[:k]], bin(ma)), group, uni[:k], ma)
    for start in (0xffc0, 0xba1f3600):
        for holes in ([], [start + 1], [start + 70, start + 71]):
            yield ("long run from %x without %s" % (start, holes), long, start, 150, holes)
    yield ("run of 3000 epochs", long, 0xba1f3600, 3000, [])
