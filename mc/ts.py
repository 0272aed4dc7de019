"""Independent reference for timestamp files: events are (t, low) with t < 2^54 and low = 10 low bits (pattern = low & 15)."""
import contextlib, io, itertools, os, struct, sys

FORMATS = ("a0", "a1", "a1x", "a2")
MAXT = (1 << 54) - 1


def encode(fmt, events):
    if fmt == "a0":
        return "".join("%08x\n%08x\n" % (w & 0xFFFFFFFF, w >> 32) for w in (t << 10 | l for t, l in events)).encode()
    if fmt == "a2":
        return "".join("%016x\n" % (t << 10 | l) for t, l in events).encode()
    hi, lo = (lambda w: w >> 32), (lambda w: w & 0xFFFFFFFF)
    if fmt == "a1":
        return b"".join(struct.pack("<II", lo(w), hi(w)) for w in (t << 10 | l for t, l in events))
    return b"".join(struct.pack("<II", hi(w), lo(w)) for w in (t << 10 | l for t, l in events))


def decode(fmt, data):
    if fmt in ("a0", "a2"):
        text = data.decode().split("\n")
        assert text[-1] == ""
        width = 8 if fmt == "a0" else 16
        for x in text[:-1]:
            assert len(x) == width, "line %r" % x
        v = [int(x, 16) for x in text[:-1]]
        if fmt == "a0":
            assert len(v) % 2 == 0
            v = [v[i] | v[i + 1] << 32 for i in range(0, len(v), 2)]
    else:
        assert len(data) % 8 == 0, "length %d" % len(data)
        v = struct.unpack("<%dI" % (len(data) // 4), data)
        if fmt == "a1":
            v = [v[i] | v[i + 1] << 32 for i in range(0, len(v), 2)]
        else:
            v = [v[i + 1] | v[i] << 32 for i in range(0, len(v), 2)]
    return [(w >> 10, w & 1023) for w in v]


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)
    return path


def get(path):
    with open(path, "rb") as f:
        return f.read()


def values():
    """Timestamps exercising every bit position, carry and conversion boundary."""
    v = set()
    for k in range(54):
        for d in (-1, 0, 1):
            v.add((1 << k) + d)
            v.add(MAXT - (1 << k) + d)
        v.add((1 << k) | (1 << ((k * 7 + 3) % 54)))
    for pat in (0x2AAAAAAAAAAAAA, 0x15555555555555, 0x123456789ABCDE & MAXT, 255, 256, 257, 31, 32, 33, 63, 64, 10 ** 9 * 256, 10 ** 16 + 1):
        v.add(pat)
    return sorted(x for x in v if 0 <= x <= MAXT)


def spread(n, lo=0, hi=MAXT):
    """n increasing timestamps from lo to hi with varied low bits and (from n = 2 on) both ends included."""
    if n == 0:
        return []
    if n == 1:
        return [lo + (hi - lo) // 3]
    return [lo + (hi - lo) * i // (n - 1) for i in range(n)]


def expected(t, unit, fractional):
    """(numerator, denominator) of t in units of 1/unit ns (unit 1, 8, 256), rounded down unless fractional."""
    d = 256 // unit
    return (t, d) if fractional else (t // d, 1)


def as_exact(x, d):
    """Integer x*d if x is exactly a multiple of 1/d, else None.  Works for Python and all numpy numbers."""
    n, m = x.as_integer_ratio() if hasattr(x, "as_integer_ratio") else (int(x), 1)
    n, m = int(n), int(m)
    q, r = divmod(n * d, m)
    return q if r == 0 else None


def rows(t, p):
    return [(int(a), int(b)) for a, b in zip(t, p)]


def exact(ts, d):
    """Exact integers x*d for an array of units-of-1/d numbers; None where not a multiple."""
    import numpy as np
    ts = np.asarray(ts)
    if ts.dtype.kind in "ui" or ts.dtype == object:
        return [int(x) * d for x in ts.tolist()]
    return [as_exact(x, d) for x in ts]


@contextlib.contextmanager
def argv(*a):
    old = sys.argv
    sys.argv = [str(x) for x in a]
    try:
        yield
    finally:
        sys.argv = old


def cli(main, *a, stdin=None):
    """Runs main() with the arguments; returns (exit, stdout).  Exceptions propagate except SystemExit."""
    out, err = io.StringIO(), io.StringIO()
    code = 0
    with argv("prog", *a), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            main()
        except SystemExit as e:
            code = e.code if e.code is not None else 0
    return code, out.getvalue()


def compositions(n):
    """All ordered partitions of n events into non-empty batches."""
    for mask in range(1 << max(n - 1, 0)):
        out, run = [], 1
        for i in range(n - 1):
            if mask >> i & 1:
                out.append(run)
                run = 1
            else:
                run += 1
        yield tuple(out + [run]) if n else ()
