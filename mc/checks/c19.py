"""Loading consecutive epochs as one timeline."""
import itertools, os, shutil
from engine import check, same, digest
from fpfind.lib import utils as U
import epochs, ts

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of (start, skip, count, events per epoch) around every counter rollover, on the real loader, against exact integers"
RULE = ("all (first, skip, count) windows over a run of epochs with all small event-count assignments, starting around every counter boundary, for T1 and T2 files; states are "
        "(epoch, position) in the timeline, transitions are epochs appended; an outcome is a distinct loaded timeline")


def load(ctx, start, counts, skips, ns, dense=False):
    """Writes one epoch per entry of counts from start; loads every window."""
    dirs = {}
    evs = {}
    for kind in ("T1", "T2"):
        d = dirs[kind] = ctx.path(kind)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    for i, n in enumerate(counts):
        e = start + i
        offs = [(1 << 32) * (2 * j + 1) // (2 * n) + (i * 7 + j) % 5 for j in range(n)]          # 125 ps
        if n > 1:
            offs[-1] = (1 << 32) - 1                    # last instant of the epoch
        if n > 2:
            offs[0] = 0 if i % 2 else 1                 # first instant (pattern below is non-zero)
        pats = [1 + (i + j) % 15 for j in range(n)]
        epochs.put(dirs["T1"], e, epochs.t1(e, [(o * 32 + (13 * j + i) % 32, p) for j, (o, p) in enumerate(zip(offs, pats))]))
        diffs = [b - a for a, b in zip([0] + offs, offs)]
        epochs.put(dirs["T2"], e, epochs.t2(e, list(zip(diffs, pats)), 17, 4))
        evs[e] = offs
    seen = []
    for skip, n in itertools.product(skips, ns):
        if skip + n > len(counts):
            continue
        origin = None
        for kind in ("T1", "T2"):
            got = ts.exact(U.get_timestamp(dirs[kind], kind, "%x" % start, skip, n), 256)
            first = start + skip
            want = [((first + i) << 37) + o * 32 + ((13 * j + skip + i) % 32 if kind == "T1" else 0) for i in range(n) for j, o in enumerate(evs[first + i])]
            what = "%s from %x skip %d load %d" % (kind, start, skip, n)
            same(len(got), len(want), "number of events, " + what)
            check(all(a is not None for a in got), "precision below 4 ps, %s", what)
            if want:
                same([b - got[0] for b in got], [b - want[0] for b in want], "time since the first event (4 ps), " + what)
                off = want[0] - got[0]
                check(off % (1 << 54) == 0, "origin off the epoch grid by %d (4 ps), %s", off, what)
                if origin is None:
                    origin = off
                same(off, origin, "T2 origin relative to T1, " + what)
                seen.append(tuple(got))
            for i in range(n):
                ctx.state(first + i, len(evs[first + i]), i)
                ctx.step()
            ctx.traces += 1
    return digest(seen)


def cases(ctx):
    starts = [0, 1]
    for k in (1, 2, 0x5d0f, 0x7fff):
        starts += [(k << 17) + d for d in range(-4, 2)]
    starts += [0xba1f36c0, 0xfffffff0, 0xfffe, 0xfffffc]
    yield ("an epoch of 70001 events", load, 0xba1f36c0, (70001, 2), (0, 1), (0, 1, 2))
    yield ("300 epochs", load, 0xba1f3600, (1, 2, 0) * 100, (0, 7, 200), (1, 100, 293))
    for start in starts:
        for counts in itertools.product((0, 1, 3), repeat=ctx.pick(3, 4)):
            yield ("epochs from %x with %s events" % (start, counts), load, start, counts, range(0, 3), range(0, len(counts) + 1))
        yield ("epochs from %x, longer run" % start, load, start, (2, 1, 3, 2, 4, 1, 2, 2), range(0, 8), range(0, 9))
        if ctx.thorough:
            yield ("epochs from %x, 40 epochs" % start, load, start, (50,) * 16, range(0, 16, 5), range(0, 17, 4))
