"""T3 service files against direct counting."""
import itertools
from fractions import Fraction
from engine import check, same, digest
from fpfind.lib import parse_epochs as E
import epochs

LEVEL = "exploration"
RULE = ("all single entries at every word position, all pairs of entries over a class alphabet (thorough: all 65536), all lengths against padding, header counts below the stored "
        "number, all small (same, opposite) counts for the error rate; an outcome is a distinct record")


def model(pairs):
    one = {1: 0, 2: 1, 4: 2, 8: 3}
    m, garbage, ok = [0] * 16, [0, 0], 0
    for x in pairs:
        a, b = one.get(x >> 4), one.get(x & 15)
        if a is not None and b is not None:
            m[4 * a + b] += 1
            ok += 1
        garbage[0] += a is None
        garbage[1] += b is None
    er = sum(m[i * 5] for i in range(4))
    gd = m[2] + m[7] + m[8] + m[13]
    return m, garbage, ok, Fraction(er, er + gd) if er + gd else None


def one(ctx, epoch, pairs, count=None):
    path = epochs.put(ctx.scratch, epoch, epochs.t3(epoch, pairs, count))
    s = E.read_T3(path)
    used = pairs if count is None else pairs[:count]
    m, garbage, ok, q = model(used)
    same([int(x) for x in s.coinc_matrix], m, "coincidence matrix")
    same(int(s.okcount), ok, "accepted count")
    same([int(x) for x in s.garbage], garbage, "garbage counts")
    if q is None:
        same(float(s.qber), 0.5, "QBER without coincidences")
    else:
        check(abs(Fraction(s.qber) - q) <= Fraction(1, 2000) + Fraction(1, 10 ** 12), "QBER %s, expected %.6f", s.qber, float(q))
        check(abs(s.qber * 1000 - round(s.qber * 1000)) < 1e-9, "QBER %s has more than 3 decimals", s.qber)
    same((s.head.epoch, s.head.length_entry, s.head.bits_per_entry), (epoch, len(used), 8), "header")
    return digest(m, garbage)


def batch(ctx, kind, a):
    seen = []
    for b in range(256):
        seen.append(one(ctx, 0xba1f36c0, [a, b]))
    ctx.count("files", 256)
    return digest(seen)


def cases(ctx):
    for pos in range(9):
        for x in range(256):
            fill = [0x21] * pos
            yield ("entry %02x at %d" % (x, pos), one, 7, fill + [x])
            yield ("entry %02x at %d of 9" % (x, pos), one, 7, (fill + [x] + [0x14] * 8)[:9])
    for a in range(256) if ctx.thorough else (0x00, 0x11, 0x12, 0x18, 0x24, 0x41, 0x88, 0x30, 0x03, 0xff, 0x1f, 0xf1):
        yield ("all pairs starting %02x" % a, batch, "pair", a)
    for n in range(0, 5):
        for seq in itertools.product((0x00, 0x11, 0x14, 0x82, 0x30, 0x01), repeat=n):
            yield ("entries %s" % bytes(seq).hex(), one, epochs.EPOCHS[n], list(seq))
            if n > 1:
                for count in range(0, n):
                    yield ("entries %s count %d" % (bytes(seq).hex(), count), one, 5, list(seq), count)
    for er, gd in itertools.product(range(0, ctx.pick(21, 61)), repeat=2):
        yield ("%d same %d opposite" % (er, gd), one, 9, [(0x11, 0x22, 0x44, 0x88)[i % 4] for i in range(er)] + [(0x14, 0x28, 0x41, 0x82)[i % 4] for i in range(gd)])
    for n in (1000, 65537):
        yield ("%d entries" % n, one, 0xffffffff, [i * 37 % 256 for i in range(n)])
        yield ("%d entries, %d used" % (n, n - 3), one, 0xffffffff, [i * 37 % 256 for i in range(n)], n - 3)
