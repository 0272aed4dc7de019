"""T2 epoch files: reader against an independent bit packer."""
import itertools
import numpy as np
from engine import check, same, digest
from fpfind import TSRES
from fpfind.lib import parse_epochs as E
import epochs, ts

LEVEL = "exploration"
RULE = ("all timing widths 1..32 x base widths x all difference sequences up to a length over the boundaries of the short and escaped forms x forced escapes x resolution x fraction x "
        "full epoch, so that fields straddle words at every bit; an outcome is a distinct decoded result")
RES = [(TSRES.PS4, 256), (TSRES.PS125, 8), (TSRES.NS1, 1)]
ALL = list(itertools.product(RES, (True, False), (False, True)))


def one(ctx, epoch, diffs, m, b, escape, count=None, modes=ALL):
    path = epochs.put(ctx.scratch, epoch, epochs.t2(epoch, diffs, m, b, escape, count))
    offs = list(itertools.accumulate(d for d, _ in diffs))
    for (res, unit), frac, full in modes:
        t, p = E.read_T2(path, full, res, frac)
        base = (epoch if full else epoch & 0x1FFFF) << 32
        want = [(base + o) * 32 for o in offs]       # 4 ps units
        d = 256 // unit
        what = "%s fractional=%s full_epoch=%s" % (res, frac, full)
        same(len(t), len(diffs), "number of events, " + what)
        same([int(x) for x in p], [x for _, x in diffs], "patterns, " + what)
        same(ts.exact(t, d), want if frac else [w // d * d for w in want], "timestamps x %d, %s" % (d, what))
        ctx.count("reads")
    return digest(epoch, offs, m, b, escape)


def default(ctx, epoch, diffs, m, b):
    path = epochs.put(ctx.scratch, epoch, epochs.t2(epoch, diffs, m, b))
    t, p = E.read_T2(path)
    same(ts.exact(t, 256), [(((epoch & 0x1FFFF) << 32) + o) * 32 for o in itertools.accumulate(d for d, _ in diffs)], "default read")
    return digest(epoch, diffs)


def alphabet(m):
    return sorted({d for d in (0, 1, 2, 3, (1 << m) - 1, 1 << m, (1 << m) + 1, 0x12345678, (1 << 31) + 5, (1 << 32) - 1) if d < 1 << 32})


def fit(seq):
    return sum(seq) < 1 << 32


def cases(ctx):
    for m in range(1, 33):
        for b in range(0, 9):
            al = alphabet(m)
            for n in range(0, ctx.pick(2, 3) + 1):
                seqs = itertools.product(al if n < 3 else al[:6], repeat=n)
                for k, seq in enumerate(seqs):
                    if not fit(seq) or (not ctx.thorough and n == 2 and k % 3 and b not in (1, 4)):
                        continue
                    diffs = [(d, (3 * i + d + 1) % (1 << b)) for i, d in enumerate(seq)]
                    modes = ALL if (m, b) in ((17, 4), (20, 1)) else [ALL[(k + m + b) % len(ALL)], ALL[(k + 5) % len(ALL)]]
                    for esc in (0, (1 << n) - 1) if n else (0,):
                        yield ("m=%d b=%d diffs %s escape %s" % (m, b, diffs, bin(esc)), one, epochs.EPOCHS[(k + m) % len(epochs.EPOCHS)], diffs, m, b, esc, None, modes)
    for n in (65535, 65536, 70001):
        yield ("%d events" % n, one, 0xba1f36c0, [(2 + i * 7919 % 60000, i % 16) for i in range(n)], 15, 4, 0x5555)
    for epoch in epochs.EPOCHS:
        for m, b in ((17, 1), (17, 4), (20, 4), (9, 2), (28, 4), (32, 8)):
            for seq in itertools.product((0, 1, 2, 1000, 100000, 1 << 30), repeat=ctx.pick(2, 3)):
                diffs = [(d, (i + 1) % (1 << b)) for i, d in enumerate(seq)]
                yield ("epoch %x m=%d b=%d %s" % (epoch, m, b, diffs), one, epoch, diffs, m, b, 0, None if seq[0] else 0)
            diffs = [(i * 7919 % 300000, i % (1 << b)) for i in range(ctx.pick(500, 5000))]
            yield ("epoch %x m=%d b=%d %d events" % (epoch, m, b, len(diffs)), one, epoch, diffs, m, b, 0x5555)
            yield ("epoch %x m=%d b=%d default" % (epoch, m, b), default, epoch, diffs[:20], m, b)
