"""Independent encoders for epoch files."""
import os, struct

EPOCHS = [0, 1, (1 << 17) - 1, 1 << 17, (1 << 17) + 1, 0x7fffffff, 0x80000000, 0xba1f36c0, 0xfffe0000, 0xffffffff]


def t1(epoch, events, count=None, low=0, end=True, tag=0x101):
    """events: (offset within the epoch in 4 ps units < 2^37, pattern)"""
    out = [struct.pack("<IIIII", tag, epoch, len(events) if count is None else count, 49, 4)]
    for off, pat in events:
        w = (((epoch & 0x1FFFF) << 37) + off) << 10 | low << 4 | pat
        out.append(struct.pack("<II", w >> 32, w & 0xFFFFFFFF))
    return b"".join(out) + (struct.pack("<II", 0, 0) if end else b"")


def bits(fields):
    """MSB-first bit string of (value, width), as little-endian 32-bit words padded with zeros."""
    acc, n, out = 0, 0, []
    for v, w in fields:
        assert 0 <= v < 1 << w, (v, w)
        acc = acc << w | v
        n += w
        while n >= 32:
            n -= 32
            out.append(acc >> n)
            acc &= (1 << n) - 1
    if n:
        out.append(acc << (32 - n))
    return struct.pack(f"<{len(out)}I", *out)


def fields(codes, m, b, escape=0, endbase=0):
    """codes: (timing code, base); bit i of escape forces the long form for event i."""
    f = []
    for i, (c, base) in enumerate(codes):
        f += [(c, m)] if 2 <= c < 1 << m and not escape >> i & 1 else [(0, m), (c, 32)]
        f.append((base, b))
    return f + [(1, m), (endbase, b)]


def t2(epoch, diffs, m, b, escape=0, count=None, endbase=0, tag=0x102):
    """diffs: (difference to the previous event in 125 ps units, pattern)"""
    return struct.pack("<IIIIII", tag, epoch, len(diffs) if count is None else count, m, b, 1) + bits(fields(diffs, m, b, escape, endbase))


def t4(epoch, diffs, m, b, escape=0, count=None, endbase=0, tag=0x104):
    """diffs: (index difference >= 0, basis)"""
    return struct.pack("<IIIII", tag, epoch, len(diffs) if count is None else count, m, b) + bits(fields([(d + 2, x) for d, x in diffs], m, b, escape, endbase))


def t3(epoch, pairs, count=None, tag=0x103):
    """pairs: bytes (first party in the high nibble); packed most significant byte first into words"""
    data = bytes(pairs) + b"\0" * (-len(pairs) % 4)
    return struct.pack("<IIII", tag, epoch, len(pairs) if count is None else count, 8) + b"".join(data[i:i + 4][::-1] for i in range(0, len(data), 4))


def put(directory, epoch, data):
    path = os.path.join(str(directory), "%x" % epoch)
    with open(path, "wb") as f:
        f.write(data)
    return path
