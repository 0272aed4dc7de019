"""Verbosity, log files and profiling: results unchanged, messages complete, candidates reported."""
import itertools
import logging
import os
import re
import sys
import types
import numpy as np
from engine import check, same, digest
import fpfind.fpfind
from fpfind.lib.logging import LoggingOverrideFormatter
from fpfind.lib.utils import normalize_timestamps
import streams
import ts
from checks.c27 import epoch_dirs, write

F = sys.modules["fpfind.fpfind"]
LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of (scenario, verbosity, log file, order of options) runs against the quietest run of the same scenario and against a line-by-line reference of the "
             "message format; scanned candidates compared with direct searches")
RULE = "states are (scenario, verbosity, logging) tuples; each is run on the real command line in a process of its own; a run is one transition; message layouts enumerate prefix x text x details"
ASSUMPTIONS = ["the column naming function and line is free"]
LEVELS = ("CRITICAL", "ERROR", "WARNING", "INFO", "DEBUG")


def process(ctx, args):
    """Runs the command line in a process of its own: (outcome, stdout, stderr)."""
    paths = [ctx.path(x) for x in ("stdout", "stderr", "outcome")]
    pid = os.fork()
    if pid == 0:
        try:
            for i, p in enumerate(paths[:2]):
                fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(fd, i + 1)
            sys.stdout, sys.stderr = os.fdopen(1, "w", closefd=False), os.fdopen(2, "w", closefd=False)
            sys.argv = ["prog"] + [str(x) for x in args]
            out = "returned"
            try:
                F.main()
            except SystemExit as e:
                out = "exit %s" % (e.code or 0)
            except Exception as e:
                out = "raised %s" % type(e).__name__
            sys.stdout.flush(), sys.stderr.flush()
            with open(paths[2], "w") as f:
                f.write(out)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    res = []
    for p in paths:
        with open(p) as f:
            res.append(f.read())
        os.unlink(p)
    return res[2], res[0], res[1]


def records(text, what):
    """[(level, message, details)], with the layout verified."""
    out = []
    blank = None
    for line in text.split("\n")[:-1]:
        pre, delim, msg = line.partition("| ")
        m = re.match(r"\d{8}_\d{6}\t(\w+) *\t[^\t]*\t$", pre)
        if m:
            check(m.group(1) in LEVELS, "%s: level %s", what, m.group(1))
            out.append((m.group(1), msg, []))
            blank = re.sub(r"\S", " ", pre)
        elif delim and out and pre == blank:
            check(not msg.strip() or len(msg) - len(msg.lstrip(" ")) >= len(out[-1][1]) - len(out[-1][1].lstrip(" ")), "%s: detail %r outside %r", what, msg, out[-1][1])
            out[-1][2].append(msg)
        elif "Warning" in line or line.startswith("  warnings.warn"):
            continue                # Python's own warnings
        else:
            check(False, "%s: line %r is neither a message nor a detail aligned below one", what, line)
    check(text == "" or text.endswith("\n"), "%s: unterminated line", what)
    return [(a, re.sub(r"(PROFILING: ).*", r"\1", b), tuple(re.sub(r"[0-9a-fx]{14,}", "", x) for x in c)) for a, b, c in out]


def only(recs, verbosity):
    ok = LEVELS[:3 + min(verbosity, 2)]
    return [r for r in recs if r[0] in ok and not r[1].startswith("Namespace(")]


def scenario(ctx, name):
    """Arguments of the scenario and what must come of it."""
    p = streams.Pair("%d/c32" % ctx.seed, 14, 16, 1, 40, 20000, 5e-5, nc=600, na=100, nb=400, grid=8)
    off = 1 << 20
    ia, ib = [int(x * 8) + off for x in p.a], [int(x * 8) + off for x in p.b]
    if name == "fails":
        ia, ib = [8 * x for x in range(0, 1000000, 16)], [8 * x for x in range(0, 1000000, 16)]
    opts = ["-q", 14, "-R", 16, "-s", 40]
    if name.startswith("epochs"):
        n = {"epochs": 3, "epochs-short": 1, "epochs-missing": 0}[name]
        d = epoch_dirs(ctx, 0xba1f36c0, range(3), range(n), lambda e, i: [x - (e << 32) for x in (ia, ib)[i] if x >> 32 == e] or [0])
        return ["-d", d[0], "-D", d[1]] + opts
    if name == "nothing":
        return opts
    args = ["-t", write(ctx, "a", "a1", ia), "-T", write(ctx, "b", "a1", ib)] + opts
    if name.startswith("scan"):
        args += ["-P", "--precomp-start=%s" % ("-0.0003" if "ordered" in name else "0.0003"), "--precomp-step=0.0001", "--precomp-stop=0.0003"]
        args += ["--precomp-fullscan"] * ("full" in name) + ["--precomp-ordered"] * ("ordered" in name)
    if name == "spurious":
        # the first pass finds zero, so that the next one is held to be spurious
        i = [8 * int(x) for x in np.cumsum(np.array([17 + (k * 7919 + k * k * 31) % 977 for k in range(60000)]))]
        args = ["-t", write(ctx, "a", "a1", i), "-T", write(ctx, "b", "a1", [x + 96 for x in i])] + ["-q", 14, "-R", 32, "-s", 40]
    return args


def run_one(ctx, name, verbosity, log, style):
    base = scenario(ctx, name)
    outcome, out, err = process(ctx, base)
    quiet = records(err, "standard error without options")
    same([r for r in quiet if r not in only(quiet, 0)], [], "messages below warnings without -v")
    good = outcome == "returned" if name in ("epochs-short", "epochs-missing") else name not in ("fails", "nothing")
    if good:
        same(outcome, "returned", "outcome of " + name)
        check(re.match(r"[^\t\n]+\t-?\d+\n$", out), "standard output %r", out)
    else:
        check(outcome not in ("returned", "exit 0"), "outcome of %s: %s", name, outcome)
        same(out, "", "standard output of a failure")
    if name in ("epochs-short", "epochs-missing", "spurious"):
        check(any(r[0] == "WARNING" for r in quiet), "no warning for %s", name)
    if name == "nothing":
        check(any(r[0] == "ERROR" for r in quiet), "no error message for missing inputs")
    extra = {"short": ["-" + "v" * verbosity] if verbosity else [], "long": ["--verbosity"] * verbosity, "split": ["-v"] * verbosity}[style]
    path = ctx.path("log.txt")
    if log:
        if log == "old":
            ts.put(path, b"previous\ncontent\n" * 50)
        extra += ["-L" if style == "short" else "--logging", path]
    if style == "split":
        extra += ["--quiet"]
    got = process(ctx, extra + base if style == "short" else base + extra)
    same(got[0], outcome, "outcome with %s" % extra)
    same(got[1], out, "standard output with %s" % extra)
    if style == "split":
        recs = None
    else:
        recs = records(got[2], "standard error")
        same(only(recs, 0), only(quiet, 0), "warnings with %s" % extra)
        same([r[0] for r in recs if r[0] not in LEVELS[:3 + min(verbosity, 2)]], [], "levels shown with %s" % extra)
        if name != "nothing":
            for level in LEVELS[3:3 + min(verbosity, 2)]:
                check(any(r[0] == level for r in recs), "no %s messages with %s", level, extra)
        depth = []
        for r in recs:
            if r[1].strip().startswith("START PROFILING"):
                check(len(r[1]) - len(r[1].lstrip()) == 2 * len(depth), "profile %r at depth %d", r[1], len(depth))
                depth.append(r)
            elif r[1].strip().startswith("END PROFILING"):
                check(depth, "profile ends without start")
                depth.pop()
                check(len(r[1]) - len(r[1].lstrip()) == 2 * len(depth), "profile %r at depth %d", r[1], len(depth))
        same(depth, [], "profiles left open")
        if verbosity:
            less = process(ctx, base + ["-v"] * (verbosity - 1))
            same(only(recs, verbosity - 1), only(records(less[2], "standard error"), verbosity - 1), "messages also shown with less verbosity")
    if log:
        with open(path) as f:
            text = f.read()
        os.unlink(path)
        lr = records(text, "log file")
        if recs is None:
            check(name == "nothing" or not verbosity or lr, "nothing logged with %s", extra)
            same([r[0] for r in lr if r[0] not in LEVELS[:3 + min(verbosity, 2)]], [], "levels logged with %s" % extra)
        else:
            same(lr, recs, "log file against standard error")
    else:
        check(not os.path.exists(path), "log file made without being asked for")
    ctx.state(name, verbosity, log, style)
    ctx.step(3)
    ctx.traces += 1
    return digest(name, verbosity, bool(log), outcome, out)


def candidates(ctx, ordered, fullscan, start, step, stop, verbosity, q, dt, df):
    """The candidates of a scan are reported in order, each with its own result."""
    p = streams.Pair("%d/c32/scan" % ctx.seed, q, 16, 1, 40, dt, df, nc=600, na=100, nb=400, grid=8)
    off = 1 << 20
    ia, ib = [int(x * 8) + off for x in p.a], [int(x * 8) + off for x in p.b]
    args = ["-t", write(ctx, "a", "a1", ia), "-T", write(ctx, "b", "a1", ib), "-q", q, "-R", 16, "-s", 40, "-P", "--precomp-start=%s" % start, "--precomp-step=%s" % step, "--precomp-stop=%s" % stop]
    args += ["--precomp-fullscan"] * fullscan + ["--precomp-ordered"] * ordered + ["-v"] * verbosity
    outcome, out, err = process(ctx, args)
    z = np.longdouble(max(ia[0], ib[0])) / 8
    a, b = (np.array(x, dtype=np.longdouble) / 8 - z for x in (ia, ib))
    a, b = a[a >= 0], b[b >= 0]
    n = int(round(stop / step, 6))
    m = int(round((stop - start) / step, 6))
    cands = [start + i * step for i in range(m + 1)] if ordered else [start] + [start + s * i * step for i in range(1, n + 1) for s in (1, -1)]
    want = []
    for c in cands:
        try:
            d, f = F.time_freq(a, b / (1 + c), 1, p.N, 16, 1, 6, p.Ts)
            want.append(((1 + c) * float(d), (1 + c) * (1 + float(f)) - 1))
            if not fullscan:
                break
        except ValueError:
            want.append(None)
    text = [r[1] for r in records(err, "standard error") if r[0] == "INFO" and re.search(r"ppm:", r[1])]
    same(len(text), len(want), "candidates reported (%s)" % (text[-2:],))
    for line, w, c in zip(text, want, cands):
        m = re.search(r"(-?\d+\.?\d*) ppm:(.*)", line)
        check(m and abs(float(m.group(1)) - c * 1e6) < 0.00051, "candidate %.4f ppm reported as %r", c * 1e6, line)
        check(("found" in line) == (w is not None) and ("failed" in line) == (w is None), "candidate %.4f ppm %s, reported as %r", c * 1e6, "found" if w else "failed", line)
        if w:
            t, f = re.search(r"dt= *(-?\d+)[ ,)]", m.group(2)), re.search(r"df= *(-?\d+\.\d+) *ppm", m.group(2))
            check(t and abs(int(t.group(1)) - w[0]) <= 0.51 and f and abs(float(f.group(1)) - w[1] * 1e6) < 0.0001, "candidate %.4f ppm found dt=%.3f df=%.5f ppm, reported as %r", c * 1e6, w[0], w[1] * 1e6, line)
    first = next((w for w in want if w), None)
    if first is None:
        check(outcome.startswith("raised"), "outcome %s although every candidate fails", outcome)
    else:
        f, t = out.split()
        check(abs(float(f) - first[1]) < 1e-12 and abs(int(t) - first[0]) < 0.51, "printed %r, expected %s", out, first)
    ctx.count("candidates", len(want))
    ctx.state("scan", ordered, fullscan, start, step, stop, dt, df)
    ctx.step(len(want))
    return digest(want)


def layout(ctx, human, delim, fmt):
    kw = dict(fmt=fmt, style="{", human_readable=human)
    if delim:
        kw["delimiter"] = delim
    f = LoggingOverrideFormatter(**kw)
    d = delim or "| "
    seen = []
    for text in ("a", "  two", "      six x", "", "  ", "x %s y" % d, "x\ty"):
        for details in (None, [], ["one"], ["one", "two  2"], ("t",), ("t", "  u", ""), {"k": 1}, {"k": 1, "l": "v"}, {}, "free", 5):
            for over in ({}, {"_funcname": "[f]"}, {"_filename": "zz.py", "_lineno": 9}):
                rec = logging.LogRecord("n", logging.INFO, "/p/q.py", 7, text.replace("%", "%%"), None, None, "func")
                for k, v in over.items():
                    setattr(rec, k, v)
                if details is not None:
                    rec.details = details
                got = f.format(rec)
                pre = fmt.format(levelname="INFO", funcName=over.get("_funcname", "func"), filename=over.get("_filename", "q.py"), lineno=over.get("_lineno", 7), message="\0").split("\0")[0]
                first = pre + text
                what = "message %r with details %r, %s" % (text, details, over)
                if details is None:
                    same(got, first, what)
                elif not human:
                    check(got.startswith(first) and got.endswith(str(details)) and len(got) > len(first) + len(str(details)), "%s: %r", what, got)
                else:
                    items = ["%s: %s" % x for x in details.items()] if isinstance(details, dict) else list(details) if isinstance(details, (list, tuple)) else []
                    lead = len(text) - len(text.lstrip(" "))
                    blank = re.sub(r"\S", " ", pre[:-len(d)])
                    lines = [first] + ["%s%s%s  %s" % (blank, d, " " * lead, x) for x in items]
                    if items and text.strip(" ") == "":     # an empty message gives its line to the first detail
                        lines[:2] = ["%s%s  %s" % (pre, " " * lead, items[0])]
                    same(got.split("\n"), lines, what)
                seen.append(got)
                ctx.count("layouts")
    return digest(seen)


def cases(ctx):
    for fmt in ("{levelname:<7s}\t{funcName}:{lineno}\t| {message}", "{filename} | {message}"):
        for human in (False, True):
            yield ("layout %r human=%s" % (fmt, human), layout, human, None, fmt)
    yield ("layout with another delimiter", layout, True, "# ", "{levelname} {filename}:{lineno} # {message}")
    for name in ("found", "fails", "nothing", "epochs", "epochs-short", "epochs-missing", "scan", "scan-full", "scan-ordered", "scan-ordered-full", "spurious"):
        for verbosity in range(4):
            for log in (None, "new", "old"):
                for style in ("short", "long", "split"):
                    if not ctx.thorough and style == "split" and log == "old":
                        continue
                    yield ("%s verbosity=%d log=%s %s" % (name, verbosity, log, style), run_one, name, verbosity, log, style)
    n = 0
    for ordered in (0, 1):
        for fullscan in (0, 1):
            for start, step, stop in ((0.0, 1e-5, 3e-5), (3e-4, 1e-4, 4e-4), (-2e-4, 1e-4, 1e-4), (1e-4, 0.5e-4, 2e-4), (1e-3, 1e-3, 2e-3)):
                for dt, df in ((20000, 5e-5), (-3000, -1e-4), (0, 0)):
                    n += 1
                    if ordered and stop < start:
                        continue
                    yield ("scan ordered=%d full=%d %g/%g/%g dt=%g df=%g" % (ordered, fullscan, start, step, stop, dt, df), candidates, ordered, fullscan, start, step, stop, 1 + n % 2, 14, dt, df)
