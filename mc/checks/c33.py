"""Epoch headers are returned in full; inconsistent ones are reported."""
import contextlib
import itertools
import logging
import os
import pathlib
import struct
import warnings
from engine import check, same, digest
from fpfind.lib import parse_epochs as E
import epochs

LEVEL = "exploration"
RULE = ("all tags around the accepted ones (and every other type's) x stored epoch x file name (equal, neighbouring, prefix, suffix, other) x directory depth x kind of path x header reader or whole "
        "reader, and all stored against stated numbers of T3 entries; an outcome is a distinct (fields, reported) pair")
TAGS = sorted({0, -1, -2, 5, 0x105, 0x7fffffff} | {b + i for b in [0, 0x300] + [1 << k for k in range(8, 31)] + [0x100 + (1 << k) for k in range(9, 31)] for i in (1, 2, 3, 4)} | {b + (1 << k) for b in (1, 2, 3, 4) for k in (3, 4, 5, 6, 7)})
NAMES = ("equal", "plus", "minus", "longer", "shorter", "other")


@contextlib.contextmanager
def reports():
    """Collects everything logged at warning level or above, and Python warnings."""
    got = []
    real = logging.Logger.handle

    def handle(self, record):
        if record.levelno >= logging.WARNING:
            got.append(record.getMessage())
    logging.Logger.handle = handle
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            yield got
        got += [str(x.message) for x in w]
    finally:
        logging.Logger.handle = real


def name(epoch, how):
    x = "%x" % epoch
    return {"equal": x, "plus": "%x" % (epoch + 1), "minus": "%x" % max(epoch - 1, 0), "longer": x + "0", "shorter": x[1:] or "f", "other": "12ab"}[how]


def build(kind, tag, epoch):
    if kind == 1:
        return struct.pack("<iIIii", tag, epoch, 2, 49, 4) + epochs.t1(epoch, [(5, 1), (1 << 30, 8)])[20:], (tag, epoch, 2, 49, 4), ([((epoch & 0x1ffff) << 37) + 5, ((epoch & 0x1ffff) << 37) + (1 << 30)], [1, 8])
    if kind == 2:
        return struct.pack("<iIIiii", tag, epoch, 2, 12, 4, 1) + epochs.t2(epoch, [(5, 1), (1 << 20, 8)], 12, 4)[24:], (tag, epoch, 2, 12, 4, 1), ([((epoch & 0x1ffff) << 32) + 5, ((epoch & 0x1ffff) << 32) + 5 + (1 << 20)], [1, 8])
    if kind == 3:
        return struct.pack("<iIIi", tag, epoch, 5, 8) + epochs.t3(epoch, [0x11, 0x24, 0x81, 0x13, 0x22])[16:], (tag, epoch, 5, 8), None
    return struct.pack("<IIIII", tag & 0xffffffff, epoch, 2, 9, 4) + epochs.t4(epoch, [(5, 1), (1 << 20, 8)], 9, 4)[20:], (tag & 0xffffffff, epoch, 2, 9, 4), ([5, 5 + (1 << 20)], [1, 8])


def headers(ctx, kind, tag, epoch):
    data, want, content = build(kind, tag, epoch)
    rd, rh = getattr(E, "read_T%d" % kind), getattr(E, "read_T%d_header" % kind)
    seen = []
    for how in NAMES:
        for depth in ("", "a/b", "%x" % epoch):
            d = ctx.path(depth) if depth else ctx.scratch
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, name(epoch, how) + ("" if not (depth and os.path.isdir(os.path.join(d, name(epoch, how)))) else "x"))
            if os.path.isdir(path):
                continue
            with open(path, "wb") as f:
                f.write(data)
            wrong = tag not in (kind, 0x100 + kind) or os.path.basename(path) != "%x" % epoch
            for conv in (str, pathlib.Path):
                for whole in (False, True):
                    with reports() as got:
                        r = (rd if whole else rh)(conv(path))
                    what = "T%d tag %#x epoch %x in file %s" % (kind, tag, epoch, os.path.relpath(path, ctx.scratch))
                    check(bool(got) == wrong, "%s: %s", what, "reported %s although consistent" % got if got else "mismatch not reported")
                    if not whole:
                        same(tuple(int(x) for x in r), want, "header fields, " + what)
                    elif content and kind == 1:
                        t, p = E.read_T1(conv(path), resolution=E.TSRES.PS4, fractional=False)
                        same(([int(x) for x in t], [int(x) for x in p]), content, "events, " + what)
                    elif content and kind == 2:
                        t, p = E.read_T2(conv(path), resolution=E.TSRES.PS125, fractional=False)
                        same(([int(x) for x in t], [int(x) for x in p]), content, "events, " + what)
                    elif content:
                        same(([int(x) for x in r[0]], [int(x) for x in r[1]]), content, "indices, " + what)
                    else:
                        same((tuple(int(x) for x in r.head), int(r.okcount)), (want, 4), "record, " + what)
            seen.append((how, depth, wrong))
            os.unlink(path)
            ctx.count("files")
    for d in ("a/b", "a", "%x" % epoch):
        with contextlib.suppress(OSError):
            os.rmdir(ctx.path(d))
    return digest(kind, tag, epoch, seen)


def fields(ctx, kind):
    """Every field of the header takes boundary values."""
    fmt = {1: "<iIIii", 2: "<iIIiii", 3: "<iIIi", 4: "<IIIII"}[kind]
    rh = getattr(E, "read_T%d_header" % kind)
    vals = [0, 1, 2, 255, 256, 65535, 65536, 0x7fffffff] + [1 << i for i in range(2, 31)]
    seen = []
    for i in range(2, len(fmt) - 1):
        for v in vals + ([0x80000000, 0xffffffff] if fmt[i + 1] == "I" else [-1, -2]):
            x = [0x100 + kind, 0xba1f36c0] + [3] * (len(fmt) - 3)
            x[i] = v
            path = epochs.put(ctx.scratch, 0xba1f36c0, struct.pack(fmt, *x))
            with reports() as got:
                r = rh(path)
            same(tuple(int(y) for y in r), tuple(x), "header fields of T%d" % kind)
            same(got, [], "reports on a consistent T%d header" % kind)
            seen.append(x)
            ctx.count("files")
    return digest(seen)


def t3count(ctx, stored, stated, bits):
    pairs = [(0x11, 0x24, 0x81, 0x13, 0x22)[i % 5] for i in range(stored)]
    data = bytearray(epochs.t3(7, pairs, count=stated))
    data[12:16] = struct.pack("<i", bits)
    path = epochs.put(ctx.scratch, 7, bytes(data))
    with reports() as got:
        try:
            s = E.read_T3(path)
        except Exception as e:
            check(stated > stored, "%d entries stored and stated as %d: %r", stored, stated, e)
            got.append("error")
    check(bool(got) == (stored != stated or bits != 8), "%d entries of 8 bits stored, %d of %d bits stated: %s", stored, stated, bits, "reported %s" % got if got else "not reported")
    return digest(stored, stated, bits)


def together(ctx, kind, epoch, whole):
    """Every set of inconsistencies of one file is reported differently from every other: none of them hides another."""
    rd = getattr(E, "read_T%d" % kind if whole else "read_T%d_header" % kind)
    path = ctx.path("%x" % epoch)
    seen = {}
    for bad in itertools.chain.from_iterable(itertools.combinations(("tag", "name") + (("bits", "count") if kind == 3 and whole else ()), n) for n in range(5)):
        data, _, _ = build(kind, 0x777 if "tag" in bad else 0x100 + kind, epoch ^ 0x155 if "name" in bad else epoch)
        if "bits" in bad:
            data = data[:12] + struct.pack("<i", 7) + data[16:]
        if "count" in bad:
            data = data[:8] + struct.pack("<I", 4) + data[12:]
        with open(path, "wb") as f:
            f.write(data)
        with reports() as got:
            try:
                rd(path)
            except Exception:
                continue                # reported that way
        got = tuple(sorted(got))
        check(got not in seen, "T%d with wrong %s: reported %s, the same as with wrong %s", kind, " and ".join(bad), got, " and ".join(seen.get(got, ())) or "nothing")
        seen[got] = bad
        ctx.count("files")
    os.unlink(path)
    return digest(kind, epoch, whole, len(seen))


def cases(ctx):
    for kind in (1, 2, 3, 4):
        for epoch in epochs.EPOCHS:
            for whole in (False, True):
                yield ("T%d in epoch %x with several inconsistencies, %s" % (kind, epoch, "whole file" if whole else "header"), together, kind, epoch, whole)
    for kind in (1, 2, 3, 4):
        yield ("fields of T%d" % kind, fields, kind)
        for epoch in epochs.EPOCHS + ([1 << i for i in range(32)] if ctx.thorough else []):
            for tag in TAGS:
                yield ("T%d tag %#x epoch %x" % (kind, tag, epoch), headers, kind, tag, epoch)
    for stored in range(0, ctx.pick(14, 40)):
        for stated in range(0, ctx.pick(16, 44)):
            yield ("T3 with %d entries stated as %d" % (stored, stated), t3count, stored, stated, 8)
        for bits in (0, 1, 4, 7, 9, 16, 32, -8):
            yield ("T3 with %d entries of %d bits" % (stored, bits), t3count, stored, stored, bits)
