"""Options of the frequency corrector, on the compiled program: rates, decimal mode, file names, option order, missing files."""
import itertools
import os
import struct
import subprocess
from fractions import Fraction
from engine import check, same, digest, REPO
import ts

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of option values around every boundary, of option orders and of file-name lengths on the compiled program, with the rate in use recovered exactly from its output"
RULE = "all rates in ranges around 0, the limits, powers of two and conversion overflows, in both modes; all permutations of options; file-name lengths around the limit with decoy files; distinct results are counted"
ASSUMPTIONS = ["spaces or a plus sign before a rate may be accepted or refused"]
STEP = 1 << 34
MANY = 20000
LIM = (1 << 21) - 1


def setup(ctx):
    ctx.exe = os.path.join(ctx.top, "freqcd")
    r = os.path.join(REPO, "src/fpfind")
    p = subprocess.run(["gcc", "-w", "-o", ctx.exe, r + "/freqcd.c", r + "/lib/getopt.c"], capture_output=True, text=True)
    ctx.build = p.stderr[-300:] if p.returncode else ""


def prog(ctx, args, data=b"", cwd=None):
    check(not ctx.build, "freqcd does not build: %s", ctx.build)
    p = subprocess.run([ctx.exe] + [str(a).encode() for a in args], input=data, capture_output=True, timeout=20, cwd=cwd)
    return p.returncode, p.stdout


def events(n, legacy, t0=12345678901):
    return ts.encode("a1x" if legacy else "a1", [(t0 + i * STEP, 17 * i % 1024) for i in range(n)])


def applied(out, n, legacy, t0=12345678901):
    """Correction seen by each event."""
    ev = ts.decode("a1x" if legacy else "a1", out)
    same(len(ev), n, "number of events")
    check(all(l == 17 * i % 1024 for i, (_, l) in enumerate(ev)), "low bits changed")
    return [((t - t0 - i * STEP + (1 << 53)) & ((1 << 54) - 1)) - (1 << 53) for i, (t, _) in enumerate(ev)]


def rate(ctx, text, decimal):
    """Expected rate(s), or None if refused; a tuple where either is fine."""
    try:
        v = int(text) if text.lstrip("-").isdigit() and text.isascii() and text.count("-") <= 1 else None
    except ValueError:
        v = None
    if v is None:
        try:
            v = int(text)
        except ValueError:
            return [None]
        return rate(ctx, str(v), decimal) + [None] if not set(text.strip()) - set("+-0123456789") else [None]
    if not decimal:
        return [v] if abs(v) <= LIM else [None]
    x = Fraction(v * (1 << 34), 10 ** 10)
    if abs(v) > 1220703:
        return [None]
    lo = x.numerator // x.denominator
    return [r for r in (lo, lo + 1) if abs(r) <= LIM] if x != lo else [lo]


def values(ctx, decimal, texts):
    data = events(3, False)
    seen = []
    for t in texts:
        want = rate(ctx, t, decimal)
        args = ["-f", t] if not decimal else ["-d", "-f", t]
        code, out = prog(ctx, args, data)
        ctx.count("runs")
        if code or not out:
            check(None in want, "%s refused (exit %s, %d bytes written)", args, code, len(out))
            check(code != 0 and not out, "%s: exit %s but %d bytes written", args, code, len(out))
            seen.append(None)
            continue
        c = applied(out, 3, False)
        f = c[1]
        same(c, [0, f, 2 * f], "corrections with %s" % args)
        check(f in want, "%s: rate applied is %s, expected one of %s", args, f, want)
        seen.append(f)
    return digest(seen)


def orders(ctx, opts, f, decimal, legacy, stdin):
    """Every order of the options gives the same result."""
    data = events(5, legacy)
    ts.put(ctx.path("in"), data)
    ts.put(ctx.path("freq"), b"")
    seen = set()
    for perm in itertools.permutations(opts):
        ts.put(ctx.path("out"), b"z" * 1000)
        code, out = prog(ctx, [x for o in perm for x in o], data if stdin else events(2, legacy, 999), cwd=ctx.scratch)
        ctx.count("runs")
        same(code, 0, "exit status of %s" % (perm,))
        if any(o[0] == "-o" for o in opts):
            check(not out, "%s: events on standard output", perm)
            out = ts.get(ctx.path("out"))
        want = rate(ctx, f, decimal)
        c = applied(out, 5, legacy)
        check(c[1] in want and c == [i * c[1] for i in range(5)], "%s: corrections %s, expected rate %s", perm, c, want)
        seen.add(out)
    same(len(seen), 1, "number of different outputs over option orders")
    return digest(sorted(seen))


def spellings(perm):
    """All ways of writing a sequence of options: flags in one argument, values attached or separate."""
    out = [([], False)]  # (arguments, last argument consists of flags only)
    for o in perm:
        new = []
        for args, flags in out:
            heads = [args + ["-"]] + ([args] if flags else [])
            for h in heads:
                if len(o) == 1:
                    new.append((h[:-1] + [h[-1] + o[0][1:]], True))
                else:
                    new.append((h[:-1] + [h[-1] + o[0][1:], o[1]], False))
                    new.append((h[:-1] + [h[-1] + o[0][1:] + o[1]], False))
        out = new
    return [a for a, _ in out]


def spelled(ctx, opts, f, decimal, legacy):
    """The way of writing options (clustered flags, attached values, repeated options) makes no difference."""
    data = events(5, legacy)
    ts.put(ctx.path("in"), data)
    seen = set()
    for perm in itertools.permutations(opts):
        for args in spellings(perm):
            ts.put(ctx.path("out"), b"z" * 1000)
            code, out = prog(ctx, args, data, cwd=ctx.scratch)
            ctx.count("runs")
            same(code, 0, "exit status of %s" % (args,))
            if any(o[0] == "-o" for o in opts):
                check(not out, "%s: events on standard output", args)
                out = ts.get(ctx.path("out"))
            want = rate(ctx, f, decimal)
            c = applied(out, 5, legacy)
            check(c[1] in want and c == [i * c[1] for i in range(5)], "%s: corrections %s, expected rate %s", args, c, want)
            seen.add(out)
    same(len(seen), 1, "number of different outputs over spellings")
    return digest(sorted(seen))


def bad_order(ctx, opts, bad):
    """A bad option makes the run fail wherever it stands."""
    data = events(5, False)
    ts.put(ctx.path("in"), data)
    os.makedirs(ctx.path("dir"), exist_ok=True)
    for perm in itertools.permutations(opts + [bad]):
        if os.path.exists(ctx.path("out")):
            os.unlink(ctx.path("out"))
        code, out = prog(ctx, [x for o in perm for x in o], data, cwd=ctx.scratch)
        ctx.count("runs")
        left = ts.get(ctx.path("out")) if os.path.exists(ctx.path("out")) else b""
        check(code != 0 and not out and not left, "%s: exit %s, %d bytes of events", perm, code, len(out) + len(left))
    return digest(bad)


def named(ctx, opt, n, style):
    """A file name of n bytes names exactly that file; shortened versions of it are decoys."""
    d = ctx.path("n")
    os.makedirs(d, exist_ok=True)
    if style == "flat":                    # directories with long components
        if n < 3:
            name = "f" * n
        else:
            parts = []
            left = n
            while left > 60:
                parts.append("p" * 49)
                left -= 50
            os.makedirs(os.path.join(d, *parts), exist_ok=True)
            name = "/".join(parts + ["f" * left])
    elif style == "dots":
        name = "./" * ((n - 1) // 2) + ("f" if n % 2 else "ff")
        name = name[:n] if len(name) != n else name
    else:
        name = "f" * n
    same(len(name), n, "length of test name")
    full = os.path.join(d, name)
    # beyond what one read of a pipe can return, so that the frequency file is read before the last events
    size = MANY if opt == "-F" else 1100
    data, decoy = events(size, False), events(700, False, 5)
    try:
        made = []
        for cut in sorted({n, n - 1, n - 2, 199, 200, 198}):
            if cut < 1 or cut > n or name[:cut].endswith("/"):
                continue
            p = os.path.join(d, name[:cut])
            if os.path.isdir(p):
                continue
            real = cut == n
            if opt == "-i":
                ts.put(p, data if real else decoy)
            elif opt == "-F":
                ts.put(p, b"3\n" if real else b"7\n")
            else:
                ts.put(p, b"old" * 5000)
            made.append((p, real))
        code, out = prog(ctx, [opt, name], data, cwd=d)
        ctx.count("runs")
        if n >= 200:
            check(code != 0 and not out, "%s with a name of %d bytes: exit %s, %d bytes", opt, n, code, len(out))
            for p, real in made:
                if opt == "-o":
                    same(ts.get(p), b"old" * 5000, "file of a similar name")
            return digest("refused")
        same(code, 0, "exit status for %s with a name of %d bytes" % (opt, n))
        if opt == "-o":
            check(not out, "events on standard output")
            for p, real in made:
                if real:
                    out = ts.get(p)
                else:
                    same(ts.get(p), b"old" * 5000, "file of a similar name")
        c = applied(out, size, False)
        if opt == "-F":
            before = max(c.count(0), 1)             # events read before the rate
            check(c[-1] != 0, "rate from the named file not used: no event corrected")
            same(c, [0] * before + [3 * (i + 1) for i in range(size - before)], "corrections with the rate from the named file")
        else:
            same(c, [0] * size, "corrections")
        return digest(opt, n)
    finally:
        for p, _ in made:
            os.unlink(p)


def exists(ctx, opt, size):
    """An existing output is replaced whole, whatever its size."""
    data = events(20, False)
    p = ts.put(ctx.path("old"), b"\xff" * size)
    code, out = prog(ctx, ["-o", p, "-f", "5"], data)
    same((code, out), (0, b""), "exit status and standard output")
    same(applied(ts.get(p), 20, False), [5 * i for i in range(20)], "corrections")
    return digest(size)


def hard(ctx, what):
    d = ctx.path("h")
    os.makedirs(d, exist_ok=True)
    ts.put(os.path.join(d, "in"), events(4, False))
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    ts.put(os.path.join(d, "keep"), b"old")
    code, out = prog(ctx, what, events(4, False), cwd=d)
    check(code != 0 and not out, "%s: exit %s, %d bytes written", what, code, len(out))
    return digest(what)


def cases(ctx):
    near = set()
    for k in range(0, 65):
        for d in (-2, -1, 0, 1, 2):
            near |= {(1 << k) + d, -(1 << k) + d}
    for k in range(0, 21):
        near |= {10 ** k, 10 ** k - 1, -10 ** k}
    for c in (LIM, 1220703, 1220704, 1250000, 2500000000, 1 << 31, (1 << 31) * 5 ** 10 >> 24):
        near |= {s * c + d for d in range(-6, 7) for s in (1, -1)}
    # values that collide with valid ones if truncated to 32 bits or scaled
    for w in (1 << 32, 1 << 33, 1 << 63, 1 << 64, 3 << 32):
        near |= {w + x for x in (0, 5, 1000, -1000, LIM, -LIM)} | {-w + x for x in (0, 5, 1000, -1000)}
    n = ctx.pick(120, 8000)
    near |= set(range(-n, n + 1))
    if ctx.thorough:
        near |= set(range(LIM - 2500, LIM + 2500)) | set(range(-LIM - 2500, -LIM + 2500)) | set(range(1220703 - 2500, 1220703 + 2500)) | set(range(0, LIM, 397)) | set(range(-LIM, 0, 401))
    near = sorted(near)
    for decimal in (False, True):
        for i in range(0, len(near), 40):
            yield ("rates %d to %d decimal=%s" % (near[i], near[min(i + 39, len(near) - 1)], decimal), values, decimal, [str(x) for x in near[i:i + 40]])
        for t in (["", " ", "abc", "0x10", "5.0", "1e3", "--5", "-", "+", "+-5", "5 ", "5-", "5\n", "5x", "1,000", "1_000", "0b1", "nan", "inf", "\u0665", "- 5", "5 6"],
                  ["+5", " 5", "  -7", "\t9", "+0", "\n3"], ["007", "-0", "-00012", "0000000000000000000000000000000000000012", "000002097151", "0000002097152", "9" * 30, "-" + "9" * 30, "9" * 400, "1" + "0" * 200]):
            for x in t:
                yield ("rate %r decimal=%s" % (x, decimal), values, decimal, [x])
    I, O, D, X, Fq = ("-i", "in"), ("-o", "out"), ("-d",), ("-x",), ("-F", "freq")
    for f in ("1000", "-1220703", "1220703"):
        for opts in ([D], [D, X], [I, D], [I, O, D], [I, O, X], [O, D, X], [I, O, D, X], [Fq, D], [I, O, D, X, Fq]):
            if len(opts) == 5 and f != "1000" and not ctx.thorough:
                continue
            yield ("orders %s f=%s" % (opts, f), orders, opts + [("-f", f)], f, D in opts, X in opts, I not in opts)
    for f in ("1000", "-77"):
        for opts in ([X], [X, D], [I, X], [I, X, D], [X, O, D]):
            yield ("spellings %s f=%s" % (opts, f), spelled, opts + [("-f", f)], f, D in opts, X in opts)
    for bad in (("-f", "2097152"), ("-f", "-2097152"), ("-f", "x"), ("-i", "missing"), ("-F", "missing"), ("-o", "dir"), ("-o", "nowhere/out"), ("-i", ""), ("-o", ""), ("-F", ""), ("-h",),
                ("-i", "f" * 200), ("-F", "g" * 200), ("-o", "h" * 200), ("-f", "4294967301"), ("-f", "")):
        for opts in ([], [O], [I], [I, X], [O, X], [Fq], [("-f", "5"), X], [I, O]):
            if bad[0] in {o[0] for o in opts}:      # the last of repeated options counts
                continue
            if bad == ("-f", "x") or "missing" not in bad or Fq not in opts:
                if Fq in opts:
                    continue
                yield ("bad option %s with %s" % (bad, opts), bad_order, opts, bad)
    for opt in ("-i", "-o", "-F"):
        for n in (1, 2, 3, 50, 99, 100, 101, 127, 128, 150, 196, 197, 198, 199, 200, 201, 202, 203, 204, 207, 208, 215, 231, 250, 255, 256, 257, 300, 399, 400, 401, 500, 1000, 2000):
            for style in ("flat", "dots"):
                yield ("%s name of %d bytes, %s" % (opt, n, style), named, opt, n, style)
    for size in (0, 1, 7, 159, 160, 161, 8192, 100000):
        yield ("existing output of %d bytes" % size, exists, "-o", size)
    for what in (["-i", "missing"], ["-i", "in/x"], ["-o", "sub"], ["-o", "sub/no/x"], ["-o", "in/x"], ["-F", "missing"], ["-F", "in/x"], ["-i", "", "-f", "1"], ["-o", ""], ["-F", ""],
                 ["-h"], ["-i", "in", "-h"], ["-f", "1", "-h"], ["-d", "-f", "1220704"], ["-f", "1220704", "-d"], ["-d", "-f", "-1220704"], ["-f", "2147483647"], ["-f", "-2147483648"],
                 ["-d", "-f", "2147483647"], ["-f", "2147483647", "-d"], ["-i", "in", "-o", "sub", "-f", "3"], ["-i", "in", "-F", "missing", "-f", "3"]):
        yield ("refused: %s" % what, hard, what)
