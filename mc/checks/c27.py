"""Command line of the search: selected data and parameters, forms of the result, configuration files, epochs against files."""
import inspect
import itertools
import os
import shutil
import subprocess
import sys
from fractions import Fraction
import numpy as np
from engine import check, same, digest, REPO
import fpfind.fpfind
import epochs
import streams
import ts

F = sys.modules["fpfind.fpfind"]
LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of option combinations against a reference model of data selection, parameters and output forms (search stubbed at its entry point), and of full runs compared "
             "with a direct call of the search on independently decoded events")
RULE = "states are (options, data selected, parameters, output form) tuples of the reference model; each is replayed on the real command line; a run is one transition"
ASSUMPTIONS = ["the search itself is decided by C24 to C26", "event times in the files are multiples of 1/8 ns, which all formats hold exactly"]
CASE_LIMIT = 200
PARAMS = inspect.signature(F.fpfind)
NAMES = ("alice", "bob", "num_wraps", "num_bins", "resolution", "target_resolution", "threshold", "separation_duration", "precompensations", "precompensation_fullscan")
KNOWN = len(PARAMS.parameters) >= len(NAMES) and all(p.default is not p.empty for p in list(PARAMS.parameters.values())[len(NAMES):])        # by position, whatever they are called


class Captured(Exception):
    pass


def stubbed(result, args, calls):
    """Runs the command line with the search replaced; calls receives the bound arguments."""
    real = F.fpfind
    if not KNOWN:                   # another interface: only whole runs decide
        return None, ""

    def stub(*a, **kw):
        v = PARAMS.bind(*a, **kw)
        v.apply_defaults()
        calls.append(dict(zip(NAMES, v.args)))
        return result

    F.fpfind = stub
    try:
        return ts.cli(F.main, *args)
    finally:
        F.fpfind = real


IN_USE = []


def unused(ctx, args):
    """The search was not reached through its usual name. Quiet only if the plainest command line does not reach it that way, either."""
    if not IN_USE and not KNOWN:
        IN_USE.append(False)
    if not IN_USE:
        calls = []
        a = write(ctx, "plain", "a1", [0, 8000, 16000])
        try:
            stubbed((0, 0), ["-t", a, "-T", a], calls)
        except Exception:
            pass
        IN_USE.append(bool(calls))
    check(not IN_USE[0], "no search was run for %s", args)


def write(ctx, name, fmt, times):
    """times: multiples of 1/8 ns, as integers in units of 1/8 ns"""
    return ts.put(ctx.path(name), ts.encode(fmt, [(t * 32, 5) for t in times]))


def rounded(x):
    """Integers x may be rounded to."""
    f = x.numerator // x.denominator
    d = x - f
    return {f} if d < Fraction(49999, 100000) else {f + 1} if d > Fraction(50001, 100000) else {f, f + 1}


def verify_output(out, flag, dt, df):
    """dt, df: exact values returned by the search."""
    lines = out.split("\n")
    check(len(lines) == 2 and lines[1] == "", "printed %r", out)
    f = lines[0].split("\t")
    check(len(f) == (1 if flag & 4 else 2), "-V %d printed fields %s", flag, f)
    dt, df = Fraction(dt), Fraction(df)
    if flag & 1:
        dt, df = -dt / (1 + df), 1 / (1 + df) - 1
    if flag & 2:
        check(f[0].lstrip("-").isdigit() and int(f[0]) in rounded(df * (1 << 34)), "-V %d printed frequency %r, expected %.3f", flag, f[0], float(df * (1 << 34)))
    else:
        check(abs(Fraction(float(f[0])) - df) <= Fraction(1, 10 ** 15), "-V %d printed frequency %r, expected %r", flag, f[0], float(df))
    if not flag & 4:
        t = dt * 8 if flag & 8 else dt
        check(f[1].lstrip("-").isdigit() and int(f[1]) in rounded(t), "-V %d printed time %r, expected %.3f", flag, f[1], float(t))
    return f


def forms(ctx, flag, dfs, dts, kind, spell):
    a = write(ctx, "a", "a1", [0, 8000, 16000])
    seen = []
    for df in dfs:
        for dt in dts:
            calls = []
            x, y = (dt, df) if kind == "int" else (float(dt), float(df)) if kind == "float" else (np.longdouble(dt), np.longdouble(df))
            code, out = stubbed((x, y), ["-t", a, "-T", a, *spell, flag], calls)
            if not calls:
                unused(ctx, [spell, flag])
                ctx.count("stub_unused")
                return None
            same(code, 0, "exit")
            seen.append(verify_output(out, flag, frac(x), frac(y)))
            ctx.state("form", flag, df, dt, kind)
            ctx.step()
            ctx.traces += 1
    return digest(seen)


def frac(x):
    return Fraction(*x.as_integer_ratio()) if hasattr(x, "as_integer_ratio") else Fraction(int(x))


def agree(got, want, what, limit=None):
    """got: array of ns; want: sorted exact times in ns."""
    got = [frac(x) for x in np.asarray(got)]
    n = len(want) if limit is None else sum(w <= limit for w in want)
    check(n <= len(got) <= len(want), "%s: %d events, expected %d", what, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        check(abs(g - w) < Fraction(1, 1000), "%s: event %d at %.6f ns, expected %.6f", what, i, float(g), float(w))


def norm(a, b, skip=Fraction(0)):
    z = max(a[0], b[0]) + skip * 10 ** 9
    return [x - z for x in a if x >= z], [x - z for x in b if x >= z]


def files(ctx, legacy, a, b, skip, spell, extra=()):
    """Data selected from timestamp files."""
    fmt = "a1x" if legacy else "a1"
    fa, fb = write(ctx, "a", fmt, a), write(ctx, "b", fmt, b)
    calls = []
    opts = ["-X"] * legacy if spell == 0 else ["--legacy"] * legacy
    if skip is not None:
        opts += ["-Z" if spell == 0 else "--skip-duration", skip]
    args = (["-t", fa, "-T", fb] if spell == 0 else ["--target", fb, "--reference", fa]) + opts + list(extra)
    wa, wb = norm([Fraction(x, 8) for x in a], [Fraction(x, 8) for x in b], Fraction(skip or "0"))
    if not wa or not wb:        # nothing left to search: refusing is fine, inventing events is not
        try:
            code, out = stubbed((0, 0), args, calls)
        except Exception:
            return digest("empty")
        if calls:
            agree(calls[0]["alice"], wa, "reference")
            agree(calls[0]["bob"], wb, "target")
        return digest("empty", code)
    code, out = stubbed((0, 0), args, calls)
    if not calls:
        unused(ctx, args)
        ctx.count("stub_unused")
        return None
    same(code, 0, "exit")
    agree(calls[0]["alice"], wa, "reference")
    agree(calls[0]["bob"], wb, "target")
    ctx.state("files", legacy, a, b, skip)
    ctx.step()
    ctx.traces += 1
    return digest(wa, wb)


def epoch_dirs(ctx, first, sa, sb, content):
    """Writes epochs; content(e, i) gives offsets in 1/8 ns within epoch e for side i."""
    d = [ctx.path("send"), ctx.path("t1")]
    for x in d:
        shutil.rmtree(x, ignore_errors=True)
        os.makedirs(x)
    for e in sa:
        o = content(e, 0)
        prev, diffs = 0, []
        for t in o:
            diffs.append((t - prev, 1))
            prev = t
        epochs.put(d[0], first + e, epochs.t2(first + e, diffs, 17, 4))
    for e in sb:
        epochs.put(d[1], first + e, epochs.t1(first + e, [(t * 32, 1) for t in content(e, 1)]))
    return d


def from_epochs(ctx, first, sa, sb, e, z, q, R, k, s, extra=()):
    """Data selected from epoch directories."""
    def content(x, side):
        rnd = (x * 7919 + side * 131) % 1000
        return [8 * 1000 + rnd + side * 4321, 8 * (1 << 27) + rnd * 3, 8 * ((1 << 29) - 777) - rnd]
    d = epoch_dirs(ctx, first, sa, sb, content)
    need = (s + 1) * R * (1 << q) * k
    both = sorted(set(sa) & set(sb))
    start = min(x for x in both if e is None or x >= e)
    n = -(-int(need) // (1 << 29))
    use = range(start + z, start + z + n)
    check(all(x in both for x in use), "bad test case")
    later = [x for x in itertools.takewhile(lambda x: x in both, itertools.count(start + z))]
    wa, wb = norm(*[[Fraction(x * (1 << 32) + t, 8) for x in later for t in content(x, i)] for i in (0, 1)])
    args = ["-d", d[0], "-D", d[1], "-q", q, "-R", R, "-k", k, "-s", s] + (["-e", "%08x" % (first + e)] if e is not None else []) + (["-z", z] if z else []) + list(extra)
    calls = []
    code, out = stubbed((0, 0), args, calls)
    if not calls:
        unused(ctx, args)
        ctx.count("stub_unused")
        return None
    same(code, 0, "exit")
    agree(calls[0]["alice"], wa, "reference", limit=need)
    agree(calls[0]["bob"], wb, "target", limit=need)
    ctx.state("epochs", first, sa, sb, e, z, need)
    ctx.step()
    ctx.traces += 1
    return digest(wa, wb, n)


SETTINGS = (("num_wraps", ("-k", "--num-wraps", "num-wraps"), (1, 2, 5), 1), ("order", ("-q", "--buffer-order", "buffer-order"), (4, 13, 20), 26),
            ("resolution", ("-R", "--initial-res", "initial-res"), (1, 16, 64), 16), ("target_resolution", ("-r", "--final-res", "final-res"), (1, 4, 16), 1),
            ("separation", ("-s", "--separation", "separation"), (6, 2.5, 100), 6), ("threshold", ("-S", "--threshold", "threshold"), (6, 0.5, 1e3), 6))
PRE = (("-P", "--precomp-enable", "precomp-enable"), (None, "--precomp-start", "precomp-start"), (None, "--precomp-step", "precomp-step"), (None, "--precomp-stop", "precomp-stop"),
       (None, "--precomp-ordered", "precomp-ordered"), (None, "--precomp-fullscan", "precomp-fullscan"))


def verify_params(v, want, pre):
    n = 1 << want["order"]
    same(int(v["num_bins"]), n, "number of bins")
    for x in ("num_wraps", "resolution", "target_resolution", "threshold"):
        check(float(v[x]) == float(want[x]), "%s: %s, expected %s", x, v[x], want[x])
    sep = want["separation"] * want["resolution"] * n * want["num_wraps"]
    check(abs(float(v["separation_duration"]) - sep) <= 1e-12 * sep, "separation: %s, expected %s", v["separation_duration"], sep)
    cands = [float(x) for x in v["precompensations"]]
    if pre is None:
        same(cands, [0.0], "candidates")
        return
    start, step, stop, ordered, full = pre
    ref = [0.0]
    if step:
        s, d, e = (Fraction(str(x)) for x in (start, step, stop))
        if ordered:
            ref = [s + i * d for i in range(int((e - s) // d) + 1)]
        else:
            ref = [s]
            for i in range(1, int(e // d) + 1):
                ref += [s + i * d, s - i * d]
    check(len(ref) == len(cands) and all(abs(float(x) - y) < 1e-13 for x, y in zip(ref, cands)), "candidates %s, expected %s", cands[:6], list(map(float, ref[:6])))
    check(bool(v["precompensation_fullscan"]) == bool(full), "full scan: %s", v["precompensation_fullscan"])


def parameters(ctx, combo, pre, style):
    """combo: setting values; style: how they are given."""
    if not KNOWN:
        ctx.count("stub_unused")
        return None
    a = write(ctx, "a", "a1", [8, 8000, 16000])
    b = write(ctx, "b", "a1", [16, 8008, 16008])
    given, want = [], {}
    for (key, names, _, default), v in zip(SETTINGS, combo):
        want[key] = default if v is None else v
        if v is not None:
            given.append((names, v))
    if pre:
        given.append((PRE[0], True))
        for names, v in zip(PRE[1:], pre[0]):
            if v is not None:
                given.append((names, v))
    eff = None
    if pre:
        p = pre[0]
        eff = (p[0] or 0.0, 1e-7 if p[1] is None else p[1], 1e-5 if p[2] is None else p[2], p[3], p[4])
    data = [(("-t", "--reference", "reference"), a), (("-T", "--target", "target"), b)]
    conf, args = [], []
    items = data + given
    for i, (names, v) in enumerate(items):
        where = {"short": 0, "long": 1, "config": 2, "mixed": i % 3, "default": 2, "override": 2, "saved": i % 2}[style]
        if where == 2:
            conf.append("%s = %s\n" % (names[2], "true" if v is True else v))
        else:
            o = names[where] or names[1]
            args += [o] if v is True else ["%s=%s" % (o, v)] if str(v).startswith("-") else [o, v]
    for f in ("prog.default.conf", "c.conf"):
        if os.path.exists(ctx.path(f)):
            os.unlink(ctx.path(f))
    if style == "default":
        ts.put(ctx.path("prog.default.conf"), "".join(conf).encode())
    elif style == "override":               # command line beats configuration file
        conf += ["buffer-order = 3\n", "threshold = 77\n"] if combo[1] is not None and combo[5] is not None else []
        conf = [c for c in conf if not (c.startswith(("buffer-order", "threshold")) and combo[1] is not None and combo[5] is not None and c.strip() not in ("buffer-order = 3", "threshold = 77"))]
        if combo[1] is not None and combo[5] is not None:
            args += ["-q", combo[1], "-S", combo[5]]
        ts.put(ctx.path("c.conf"), "".join(conf).encode())
        args += ["--config", ctx.path("c.conf")]
    elif conf:
        ts.put(ctx.path("c.conf"), "".join(conf).encode())
        args += ["--config", ctx.path("c.conf")]
    calls = []
    try:
        if style == "saved":
            code, out = stubbed((0, 0), args + ["--save", ctx.path("saved.conf")], calls)
            same((code, len(calls)), (0, 0), "exit status and searches run when saving")
            args = ["--config", ctx.path("saved.conf")]
        code, out = stubbed((12.0, 0.0), args, calls)
    finally:
        for f in ("prog.default.conf", "c.conf", "saved.conf"):
            if os.path.exists(ctx.path(f)):
                os.unlink(ctx.path(f))
    if not calls:
        unused(ctx, args)
        ctx.count("stub_unused")
        return None
    same(code, 0, "exit")
    same(out, "0.0\t12\n", "output")
    v = calls[0]
    verify_params(v, want, eff)
    agree(v["alice"], [Fraction(x, 8) - 2 for x in (8000, 16000)], "reference")
    agree(v["bob"], [Fraction(x, 8) - 2 for x in (16, 8008, 16008)], "target")
    ctx.state("parameters", combo, pre, style)
    ctx.step()
    ctx.traces += 1
    return digest(combo, pre)


def full(ctx, q, R, r, sep, k, dt, df, flag, source, process):
    """Complete runs against a direct call on independently prepared events."""
    p = streams.Pair("%d/c27" % ctx.seed, q, R, k, sep, dt, df, nc=600, na=100, nb=400, gap=source == "skip", grid=8)
    off = 1 << 20
    ia = [int(x * 8) + off for x in p.a.tolist()] if not isinstance(p.a.tolist()[0], np.longdouble) else [int(x * 8) + off for x in p.a]
    ib = [int(x * 8) + off for x in p.b]
    ib = [x for x in ib if x >= 0]
    skip = Fraction(0)
    opts = ["-q", q, "-R", R, "-r", r, "-s", sep, "-k", k, "-V", flag]
    if source == "epochs":
        first = 0xba1f36c0
        ep = sorted({x >> 32 for x in ia + ib})
        last = max(ep) + 2
        d = epoch_dirs(ctx, first, range(last + 1), range(last + 1), lambda e, i: [x - (e << 32) for x in (ia, ib)[i] if x >> 32 == e])
        args = ["-d", d[0], "-D", d[1]]
    else:
        fmt = "a1x" if source == "legacy" else "a1"
        args = ["-t", write(ctx, "a", fmt, ia), "-T", write(ctx, "b", fmt, ib)] + (["-X"] if source == "legacy" else [])
        if source == "skip":
            skip = Fraction("0.000123")
            args += ["-Z", "0.000123"]
    if process:
        r_ = subprocess.run([sys.executable, "-m", "fpfind.fpfind"] + [str(x) for x in args + opts], capture_output=True, text=True, cwd=ctx.scratch)
        code, out = r_.returncode, r_.stdout
        check(code == 0, "exit %s: %s", code, r_.stderr[-300:])
    else:
        code, out = ts.cli(F.main, *args, *opts)
    same(code, 0, "exit")
    z = np.longdouble(max(ia[0], ib[0])) / 8
    a = np.array(ia, dtype=np.longdouble) / 8 - z
    b = np.array(ib, dtype=np.longdouble) / 8 - z
    if skip:
        a, b = a - 0.000123 * 1e9, b - 0.000123 * 1e9
    a, b = a[a >= 0], b[b >= 0]
    g = F.fpfind(a, b, k, p.N, R, r, 6, p.Ts, [0])
    verify_output(out, flag, frac(g[0]), frac(g[1]))
    ctx.state("full", q, R, r, sep, k, dt, df, flag, source)
    ctx.step()
    ctx.traces += 1
    return digest(out)


def usage(ctx, args):
    """Nothing to do: an error status and nothing that looks like a result."""
    code, out = ts.cli(F.main, *args)
    check(code not in (0, None) and "\t" not in out, "%s: exit %s, printed %r", args, code, out)
    return digest(args)


def cases(ctx):
    E = Fraction(1, 1 << 34)
    dfs = [Fraction(0), E, -E, E / 2, -E / 2, E * Fraction(3, 2), E * Fraction(49, 100), -E * Fraction(51, 100), Fraction(1, 10 ** 6), Fraction(-1, 10 ** 6), Fraction(1, 8193), Fraction(-1, 8193),
           Fraction(1, 10 ** 9), Fraction(12345, 10 ** 9), Fraction(-98765, 10 ** 9), 2097151 * E, -2097151 * E, Fraction(1, 10 ** 4)]
    dts = [Fraction(x) for x in (0, 1, -1, Fraction(1, 2), Fraction(-1, 2), Fraction(49, 100), Fraction(-51, 100), Fraction(1, 16), Fraction(-1, 16), Fraction(3, 32), Fraction(5, 2), 12345, Fraction(-1234567, 8), 99999999, -99999999,
                                 Fraction(1, 10), 4096 + Fraction(3, 10))]
    for flag in range(16):
        for kind in ("float", "longdouble"):
            for spell in (["-V"], ["--output"]):
                for d in range(0, len(dfs), 6):
                    yield ("output form %d %s %s" % (flag, kind, spell), forms, flag, dfs[d:d + 6], dts, kind, spell)
        yield ("output form %d, zero integers" % flag, forms, flag, [0], [0, 7, -7], "int", ["-V"])
    base = [1000 * i + 7 * i * i for i in range(12)]
    # options of the other kind of input do not apply
    for extra in (["-Z", "0.01"], ["-Z", "5"], ["-X"], ["--legacy", "--skip-duration", "1"]):
        for z in (0, 2):
            for e in (None, 1):
                yield ("epochs with %s, first=%s skip=%d" % (extra, e, z), from_epochs, 0xba1f36c0, list(range(8)), list(range(8)), e, z, 10, 16, 1, 6, extra)
    for extra in (["-z", "1"], ["-e", "ba1f36c0"], ["-z", "3", "-e", "ba1f36c1"]):
        for legacy in (0, 1):
            yield ("files with %s legacy=%d" % (extra, legacy), files, legacy, [8 * i * 1000 for i in range(9)], [8 * i * 1000 + 5 for i in range(9)], "1e-6", 0, extra)
    skips = [None, "0", "0.0000001", "0.000000813", "0.000001001", "1e-6", "0.0000015", "0.1", "2"]
    for legacy in (0, 1):
        for spell in (0, 1):
            for oa, ob in ((0, 0), (5, 3000), (3000, 5), (1 << 48, (1 << 48) + 12345), (0, 5 * 10 ** 9), (1 << 40, (1 << 40) + 8)):
                for n, m in ((12, 12), (12, 5), (3, 12), (1, 2), (1, 1)):
                    for skip in skips:
                        for far in (0, 1):
                            a, b = [x + oa for x in base[:n]], [x + ob + 3 for x in base[:m]]
                            if far:
                                a, b = a + [a[-1] + 8 * 10 ** 9 + 1], b + [b[-1] + 8 * 10 ** 9 + 5]
                            elif skip in ("0.1", "2") and oa:
                                continue
                            yield ("files legacy=%d skip=%s start %d/%d, %d/%d events far=%d" % (legacy, skip, oa, ob, n, m, far), files, legacy, a, b, skip, spell)
    for first in (0, 5, 0x1fffe, 0xba1f36c0, 0xfffffff0 - 16):
        for sa, sb in ((range(6), range(6)), (range(1, 8), range(6)), (range(6), range(2, 9)), ((0, 1, 3, 4, 5, 6), range(7)), (range(7), (1, 3, 4, 5, 6, 7))):
            both = set(sa) & set(sb)
            for e in (None, 0, 1, 2, 3):
                for z in (0, 1, 2):
                    for q, R, k, s in ((10, 16, 1, 6), (24, 16, 1, 1), (24, 16, 2, 0.999), (24, 16, 1, 2.5), (23, 32, 1, 3)):
                        n = -(-int((s + 1) * R * (1 << q) * k) // (1 << 29)) + 1
                        st = [x for x in sorted(both) if e is None or x >= e]
                        if not st or any(st[0] + z + i not in both for i in range(n)):
                            continue
                        # contiguity from the first epoch up to the skipped one is what makes the choice unambiguous
                        if any(st[0] + i not in both for i in range(z + n)):
                            continue
                        yield ("epochs from %x, %s/%s first=%s skip=%d q=%d R=%d k=%d s=%s" % (first, list(sa), list(sb), e, z, q, R, k, s), from_epochs, first, list(sa), list(sb), e, z, q, R, k, s)
    styles = ("short", "long", "config", "mixed", "default", "override", "saved")
    combos = [(None,) * 6]
    for i, (_, _, vs, _) in enumerate(SETTINGS):
        combos += [tuple(v if j == i else None for j in range(6)) for v in vs]
    combos += [tuple(s[2][(i * (j + 1) + j) % 3] for j, s in enumerate(SETTINGS)) for i in range(3)]
    if ctx.thorough:
        combos += list(itertools.product(*[s[2] for s in SETTINGS]))
    for combo in combos:
        for style in styles:
            yield ("parameters %s %s" % (combo, style), parameters, combo, None, style)
    for p in itertools.product((None, 1e-6, -2e-6), (None, 0.0, 5e-7, 1e-6), (None, 2e-6, 3e-6), (None, True), (None, True)):
        for style in styles if ctx.thorough else ("short", "config", "saved"):
            yield ("precompensation %s %s" % (p, style), parameters, combos[-1], (p,), style)
    n = 0
    for q, R, r, sep, k in ((14, 16, 1, 40, 1), (13, 16, 2, 30, 2), (14, 32, 1, 300, 1)):
        for dt, df in ((0, 0), (20000, 5e-5), (-30000, -1e-4), (777, 1e-6)):
            for source in ("files", "legacy", "epochs", "skip"):
                if source == "skip" and sep > 100:
                    continue
                for flag in range(16):
                    n += 1
                    if not ctx.thorough and n % 5:
                        continue
                    yield ("run q=%d R=%d r=%d s=%d k=%d dt=%g df=%g -V %d from %s" % (q, R, r, sep, k, dt, df, flag, source), full, q, R, r, sep, k, dt, df, flag, source, n % (40 if ctx.thorough else 100) == 0)
    for args in ([], ["-h"], ["-q", 10], ["-t", "x"], ["-T", "x"], ["-d", "."], ["-D", "."], ["-t", "x", "-D", "."], ["-d", ".", "-T", "x"], ["-V", 16, "-t", "x", "-T", "x"], ["-V", -1], ["-q", "x"], ["--nope"]):
        yield ("usage %s" % args, usage, args)
