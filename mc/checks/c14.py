"""T4 epoch files: reader against an independent bit packer."""
import itertools
from engine import check, same, digest
from fpfind.lib import parse_epochs as E
import epochs

LEVEL = "exploration"
RULE = ("all index widths 1..32 x base widths x all index difference sequences up to a length over the boundaries of the short and escaped forms x forced escapes; an outcome is a "
        "distinct decoded result")


def one(ctx, epoch, diffs, m, b, escape, count=None):
    path = epochs.put(ctx.scratch, epoch, epochs.t4(epoch, diffs, m, b, escape, count))
    t, p = E.read_T4(path)
    same([int(x) for x in t], list(itertools.accumulate(d for d, _ in diffs)), "indices")
    same([int(x) for x in p], [x for _, x in diffs], "bases")
    return digest(diffs, m, b, escape)


def alphabet(m):
    return sorted({d for d in (0, 1, 2, (1 << m) - 3, (1 << m) - 2, (1 << m) - 1, 1 << m, 0x12345678, (1 << 31) + 5, (1 << 32) - 3) if 0 <= d < (1 << 32) - 2})


def cases(ctx):
    for n in (65535, 65536, 70001):
        yield ("%d events" % n, one, 0xba1f36c0, [(i * 7919 % 3000 if i % 50 else i * 1000, i % 16) for i in range(n)], 11, 4, 0)
    for m in range(1, 33):
        for b in range(0, 9):
            al = alphabet(m)
            for n in range(0, ctx.pick(2, 3) + 1):
                for k, seq in enumerate(itertools.product(al, repeat=n)):
                    diffs = [(d, (3 * i + d + 1) % (1 << b)) for i, d in enumerate(seq)]
                    for esc in range(1 << n):
                        yield ("m=%d b=%d diffs %s escape %s" % (m, b, diffs, bin(esc)), one, epochs.EPOCHS[(k + m) % len(epochs.EPOCHS)], diffs, m, b, esc, None if k % 4 else 0)
            diffs = [(i * 7919 % 3000 if i % 50 else i * 10 ** 6, i % (1 << b)) for i in range(ctx.pick(60, 3000))]
            yield ("m=%d b=%d %d events" % (m, b, len(diffs)), one, 0xba1f36c0, diffs, m, b, 0)
