"""Plotting tool: events handed to the histogram, with the plotting and histogram libraries replaced by recorders."""
import itertools
import os
import sys
import types
from fractions import Fraction
from unittest import mock
import numpy as np
import configargparse
from engine import check, same, digest

REC = []


def histogram(alice, bob, duration=None, *a, **kw):
    REC.append((np.asarray(alice), np.asarray(bob), duration))
    return "counts", "delays"


PLT = mock.MagicMock()


def _stub():
    b, bs, bl = types.ModuleType("boiler"), types.ModuleType("boiler.scriptutil"), types.ModuleType("boiler.logging")
    bs.generate_default_parser = lambda doc, *a, **k: configargparse.ArgumentParser(add_help=False)
    bs.parse_args_or_help = lambda p, *a, **k: p.parse_args()
    bl.set_default_handlers = bl.set_logging_level = lambda *a, **k: None
    b.scriptutil, b.logging = bs, bl
    s, g, gg = types.ModuleType("S15lib"), types.ModuleType("S15lib.g2lib"), types.ModuleType("S15lib.g2lib.g2lib")
    gg.histogram = histogram
    s.g2lib, g.g2lib = g, gg
    m = mock.MagicMock()
    m.pyplot = PLT
    sys.modules.update({"boiler": b, "boiler.scriptutil": bs, "boiler.logging": bl, "S15lib": s, "S15lib.g2lib": g, "S15lib.g2lib.g2lib": gg, "matplotlib": m, "matplotlib.pyplot": PLT})


_stub()
import fpfind.fpplot
import fpfind.fpfind
import streams
import ts
from checks.c27 import epoch_dirs, frac, norm, write

P = sys.modules["fpfind.fpplot"]
F = sys.modules["fpfind.fpfind"]
LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of option combinations of the plotting tool against an exact rational reference model of selection and alignment, and of search results replayed through it, "
             "with the plotting and histogram libraries replaced by recorders")
RULE = "states are (data, options) tuples of the reference model; each is replayed on the real tool; distinct event arrays are counted"
ASSUMPTIONS = ["the histogram library is not installed here; the arrays handed to it are what is checked"]


def plot(ctx, args):
    del REC[:]
    PLT.reset_mock()
    code, out = ts.cli(P.main, *args)
    same(code, 0, "exit")
    same(len(REC), 1, "histograms made")
    return REC[0]


def agree(got, want, what, tol):
    check(len(got) == len(want), "%s: %d events, expected %d", what, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        check(abs(frac(g) - w) <= tol, "%s: event %d at %.6f ns, expected %.6f", what, i, float(g), float(w))


def verify(ctx, args, wa, wb, freq, time, width, duration, save):
    args = list(args)
    if freq is not None:
        args += ["--freq=%s" % freq]
    if time is not None:
        args += ["--time=%s" % time]
    if width is not None:
        args += ["--width", width]
    if duration is not None:
        args += ["--duration", duration]
        d = Fraction(duration) * 10 ** 9
        wa, wb = [x for x in wa if x < d], [x for x in wb if x < d]
    if save:
        args += ["--save-plot", "plot.png"]
    a, b, w = plot(ctx, args)
    f, t = Fraction(freq or "0") / 10 ** 6, Fraction(time or "0")
    agree(a, wa, "reference", Fraction(1, 1000))
    agree(b, [(x - t) / (1 + f) for x in wb], "target", Fraction(1, 1000))
    check(float(w) == float(width or 1000), "histogram width %s, expected %s", w, width or 1000)
    same(PLT.plot.call_args[0][:2] if PLT.plot.call_args else None, ("delays", "counts"), "plotted")
    same(PLT.savefig.call_args[0][0] if PLT.savefig.call_args else None, "plot.png" if save else None, "plot saved as")
    ctx.state(args, wa, wb)
    ctx.step()
    ctx.traces += 1
    return digest(wa, wb, f, t, width)


def files(ctx, legacy, a, b, skip, align, width, duration, save):
    fmt = "a1x" if legacy else "a1"
    args = ["-t", write(ctx, "a", fmt, a), "-T", write(ctx, "b", fmt, b)] + ["-X"] * legacy + (["-Z", skip] if skip else [])
    wa, wb = norm([Fraction(x, 8) for x in a], [Fraction(x, 8) for x in b], Fraction(skip or "0"))
    return verify(ctx, args, wa, wb, align[0], align[1], width, duration, save)


def epochs_(ctx, first, sa, sb, e, z, n, align, duration, Z):
    def content(x, side):
        r = (x * 7919 + side * 131) % 1000
        return [8 * 1000 + r + side * 4321, 8 * (1 << 27) + r * 3, 8 * ((1 << 29) - 777) - r]
    d = epoch_dirs(ctx, first, sa, sb, content)
    start = min(x for x in set(sa) & set(sb) if e is None or x >= e)
    use = range(start + z, start + z + n)
    wa, wb = norm(*[[Fraction(x * (1 << 32) + t, 8) for x in use for t in content(x, i)] for i in (0, 1)])
    args = ["-d", d[0], "-D", d[1]] + (["-e", "%08x" % (first + e)] if e is not None else []) + (["-z", z] if z else []) + (["-n", n] if n != 1 else [])
    if Z:                       # skipped durations are for timestamp files only, as in the search
        args += ["-Z", "0.1"]
    return verify(ctx, args, wa, wb, align[0], align[1], None, duration, False)


def centred(ctx, q, R, r, sep, k, dt, df, source, seed):
    """Offsets reported by the search put every common event at zero delay."""
    p = streams.Pair("%d/c30/%s" % (ctx.seed, seed), q, R, k, sep, dt, df, nc=600, na=100, nb=400, grid=8)
    off = 1 << 24
    ia, ib = [int(x * 8) + off for x in p.a], [int(x * 8) + off for x in p.b]
    from fpfind.lib.utils import normalize_timestamps
    p.normalized(normalize_timestamps)
    opts = ["-q", q, "-R", R, "-r", r, "-s", sep, "-k", k]
    extra = []
    if source == "epochs":
        d = epoch_dirs(ctx, 0xba1f36c0, range(3), range(3), lambda e, i: [x - (e << 32) for x in (ia, ib)[i] if x >> 32 == e])
        args = ["-d", d[0], "-D", d[1]]
        extra = ["-n", "3"]
    else:
        args = ["-t", write(ctx, "a", source, ia), "-T", write(ctx, "b", source, ib)] + (["-X"] if source == "a1x" else [])
    code, out = ts.cli(F.main, *args, *opts)
    same(code, 0, "exit of the search")
    f, t = out.split()
    a, b, w = plot(ctx, args + extra + ["--freq=%r" % (float(f) * 1e6), "--time=%s" % t])
    common = set()
    z = Fraction(max(ia[0], ib[0]), 8)
    ca = np.array([float(Fraction(int(x * 8) + off, 8) - z) for x in p.common[0]])
    cb = np.array([float(Fraction(int(x * 8) + off, 8) - z) for x in p.common[1]])
    keep = (ca >= 0) & (cb >= 0)
    ca, cb = ca[keep], cb[keep]
    want = (cb - float(t)) / (1 + float(f))         # where common target events must be found
    near = np.abs(np.asarray(b, dtype=float)[np.clip(np.searchsorted(np.asarray(b, dtype=float), want - 0.01), 0, len(b) - 1)] - want)
    check(near.max() < 0.02, "common target events not where the reported offsets put them (%.3f ns off)", near.max())
    tol = p.tolerance(r) + 1
    res = want - ca
    check(np.abs(res).max() <= tol, "peak is up to %.2f ns from zero (allowed %.2f)", np.abs(res).max(), tol)
    ctx.count("centred")
    ctx.step()
    return digest(out)


def incomplete(ctx, which):
    """Without both streams nothing is plotted; a complete pair is used whatever else is given."""
    ev = [8 * x for x in range(1000, 2000, 37)]
    d = epoch_dirs(ctx, 0xba1f36c0, range(3), range(3), lambda e, i: [80, 4000 + e])
    have = {"t": ("-t", write(ctx, "a", "a1", ev)), "T": ("-T", write(ctx, "b", "a1", ev)), "d": ("-d", d[0]), "D": ("-D", d[1])}
    args = [x for c in which for x in have[c]]
    del REC[:]
    try:
        code, out = ts.cli(P.main, *args)
    except Exception as e:
        code = repr(e)
    if set("dD") <= set(which) or set("tT") <= set(which):
        same(code, 0, "exit with -%s" % which)
        same(len(REC), 1, "histograms with -%s" % which)
        same(len(REC[0][0]), 2 if set("dD") <= set(which) else len(ev), "events used with -%s" % which)
    else:
        check(code not in (0, None) and not REC, "with -%s only: exit %s, %d histograms", which, code, len(REC))
    return digest(which, code)


def cases(ctx):
    for n in range(5):
        for which in itertools.combinations("tTdD", n):
            yield ("inputs %s" % ("".join(which) or "none"), incomplete, "".join(which))
    base = [1000 * i + 7 * i * i for i in range(12)]
    aligns = [(None, None), ("12.5", None), (None, "300.25"), ("-100", "-4000.5"), ("122", "99999999"), ("0.001", "-0.125"), ("1e-3", "1e3")]
    n = 0
    for legacy in (0, 1):
        for oa, ob in ((0, 0), (5, 3000), (3000, 5), (1 << 48, (1 << 48) + 4321)):
            for skip in (None, "0.0000005", "0.000000813", "0.25"):
                for align in aligns:
                    for duration in (None, "0.000001", "0.0000003", "0.5", "5"):
                        for width in (None, 5, 20000):        # three, so that quick runs take one of them in turn
                            n += 1
                            if not ctx.thorough and (n + n // 3) % 3:
                                continue
                            a, b = [x + oa for x in base], [x + ob + 3 for x in base]
                            far = 8 * 10 ** 9
                            a, b = a + [a[-1] + far + i * 77 for i in (1, 2, 3)], b + [b[-1] + far + i * 91 for i in (1, 2, 3)]
                            yield ("files legacy=%d skip=%s start %d/%d align=%s duration=%s width=%s" % (legacy, skip, oa, ob, align, duration, width), files, legacy, a, b, skip, align, width, duration, n % 5 == 0)
    for first in (0, 0x1fffe, 0xba1f36c0):
        for sa, sb in ((range(6), range(6)), (range(1, 8), range(6)), (range(6), range(2, 9)), ((0, 1, 3, 4, 5, 6), range(7)), (range(7), (1, 3, 4, 5, 6, 7))):
            both = set(sa) & set(sb)
            for e in (None, 0, 1, 2, 3):
                for z in (0, 1, 2):
                    for m in (1, 2, 4):
                        st = [x for x in sorted(both) if e is None or x >= e]
                        if not st or any(st[0] + i not in both for i in range(z + m)):
                            continue
                        for i, align in enumerate(aligns[:4]):
                            yield ("epochs from %x, %s/%s first=%s skip=%d count=%d align=%s" % (first, list(sa), list(sb), e, z, m, align), epochs_, first, list(sa), list(sb), e, z, m, align, (None, "0.3", "1")[i % 3], i == 1)
    for q, R, r, sep, k in ((14, 16, 1, 40, 1), (16, 16, 1, 60, 1), (14, 32, 2, 300, 1)):
        for dt, df in ((0, 0), (20000, 5e-5), (-30000, -1e-4), (777, 1e-6), (-5000, 2e-5)):
            for source in ("a1", "a1x", "epochs"):
                for seed in range(ctx.pick(1, 4)):
                    N = 1 << q
                    if abs(dt) + abs(df) * (sep + 2) * N * R * k < 0.42 * N * R:
                        yield ("centred q=%d R=%d r=%d s=%d dt=%g df=%g from %s seed=%d" % (q, R, r, sep, dt, df, source, seed), centred, q, R, r, sep, k, dt, df, source, seed)
