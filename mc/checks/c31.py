"""Stand-in script: first and later invocations against the compiled program, in a scratch installation and as an unprivileged user."""
import itertools
import os
import shutil
import struct
import subprocess
from engine import check, same, digest, REPO
import ts

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of invocation sequences (way of calling x working directory x arguments x standard streams, first and later calls) of the real script in a scratch "
             "installation, compared step by step with a directly compiled program")
RULE = "states are (script or compiled, way of calling, directory, arguments); every first call and every pair of calls is run for real; distinct observations are counted"
ASSUMPTIONS = ["installation paths without white space, as the script relies on ps and awk", "sh, ps, awk, python3 and gcc of this machine"]
NOBODY = 65534


def setup(ctx):
    os.chmod(ctx.top, 0o755)
    ctx.ref = os.path.join(ctx.top, "reference")
    r = os.path.join(REPO, "src/fpfind")
    p = subprocess.run(["gcc", "-w", "-o", ctx.ref, r + "/freqcd.c", r + "/lib/getopt.c"], capture_output=True, text=True)
    ctx.build = p.stderr[-300:] if p.returncode else ""


def chown(path):
    if os.geteuid():
        return
    for d, ds, fs in os.walk(path):
        os.chown(d, NOBODY, NOBODY)
        for f in fs:
            os.lchown(os.path.join(d, f), NOBODY, NOBODY)


def prefix():
    """Command for giving up privileges."""
    return dict(user=NOBODY, group=NOBODY, extra_groups=[]) if os.geteuid() == 0 else {}


def data(n=6, legacy=False):
    return ts.encode("a1x" if legacy else "a1", [(98765432109 + (i << 33) + i * 977, i * 131 % 1024) for i in range(n)])


FILES = {"in": data(), "freq": b"100\n-2000\n", "in put": data(4), "old": b"q" * 500}
# (arguments, legacy input on stdin, files of the working directory to compare)
JOBS = [(["-f", "1000"], data()), ([], data(1100)), (["-f", "-2000000", "-x"], data(5, True)), (["-d", "-f", "1220703"], data()), (["-i", "in", "-f", "77"], b""), (["-i", "in", "-o", "out", "-f", "5"], b""),
        (["-o", "old", "-f", "9"], data()), (["-i", "in put", "-o", "out put", "-f", "123456"], b""), (["-i", "./in", "-F", "freq"], b""), (["-F", "freq", "-f", "3"], data(1500)),
        (["-f", "99999999"], data()), (["-f", "x"], data()), (["-i", "missing"], data()), (["-o", "no/such"], data()), (["-h"], b""), (["-i", "../work/in", "-o", "../work/out"], b""), (["-f", "1", "-f", "2"], data()), (["-i", ""], data())]
WAYS = ("absolute", "relative", "dot", "search", "search relative", "parent")
DIRS = ("work", "w o r k", "bin", "root")


class World:
    """Scratch installation."""

    def __init__(self, ctx, editable):
        self.top = ctx.path("inst")
        shutil.rmtree(self.top, ignore_errors=True)
        os.makedirs(self.top)
        os.chmod(ctx.scratch, 0o755)
        self.pkg = os.path.join(self.top, "lib", "fpfind")
        shutil.copytree(os.path.join(REPO, "src/fpfind"), self.pkg, ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "freqcd_path"))
        self.bin = self.pkg if editable else os.path.join(self.top, "bin")
        if not editable:
            os.makedirs(self.bin)
            shutil.copy(os.path.join(self.pkg, "freqcd"), self.bin)
        self.prog = os.path.join(self.bin, "freqcd")
        os.chmod(self.prog, 0o755)
        self.src = {f: ts.get(os.path.join(self.pkg, f)) for f in os.listdir(self.pkg) if f.endswith((".py", ".c")) or f == "_postinstall"}
        chown(self.top)
        self.env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "PYTHONPATH": os.path.join(self.top, "lib"), "HOME": self.top, "TMPDIR": self.top, "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C"}

    def directory(self, name):
        """Fresh working directory with the input files."""
        d = self.bin if name == "bin" else self.top if name == "root" else os.path.join(self.top, name)
        os.makedirs(d, exist_ok=True)
        self.clean(d)
        for f, c in FILES.items():
            ts.put(os.path.join(d, f), c)
        chown(d if name not in ("bin", "root") else "/nonexistent")
        if os.geteuid() == 0:
            os.chown(d, NOBODY, NOBODY)
            for f in FILES:
                os.chown(os.path.join(d, f), NOBODY, NOBODY)
        return d

    def clean(self, d):
        for f in list(FILES) + ["out", "out put"]:
            if os.path.exists(os.path.join(d, f)):
                os.unlink(os.path.join(d, f))

    def snapshot(self, d):
        return {f: ts.get(os.path.join(d, f)) if os.path.exists(os.path.join(d, f)) else None for f in list(FILES) + ["out", "out put"]}

    def command(self, way, d, env):
        rel = os.path.relpath(self.prog, d)
        if way == "absolute":
            return [self.prog]
        if way == "relative":
            return [rel if "/" in rel else "./" + rel]
        if way == "dot":
            return ["./" + rel]
        if way == "parent":
            return [os.path.join(self.bin, "..", os.path.basename(self.bin), "freqcd")]
        env["PATH"] = (self.bin if way == "search" else os.path.dirname(rel) or ".") + ":" + env["PATH"]
        return ["freqcd"]


def call(ctx, w, way, where, job, direct, env=None):
    """One call of the script (or whatever has replaced it), or of the directly compiled program."""
    d = w.directory(where)
    env = dict(env or w.env)
    args, stdin = job
    cmd = w.command(way, d, env)
    if direct:
        cmd = [ctx.ref]
    # searching happens in the shell, as for a user; a file on standard input makes both inputs ready from the start
    with open(ts.put(ctx.path("stdin"), stdin), "rb") as f:
        kw = dict(stdin=f) if "-F" in args or len(args) % 2 else dict(input=stdin)
        p = subprocess.run(["/bin/sh", "-c", 'exec "$0" "$@"'] + cmd + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=env, timeout=60, umask=0o022, **kw, **prefix())
    return p.returncode, p.stdout, w.snapshot(d), p.stderr


def sequence(ctx, editable, steps):
    check(not ctx.build, "freqcd does not build: %s", ctx.build)
    w = World(ctx, editable)
    seen = []
    try:
        for n, (way, where, j) in enumerate(steps):
            if n:       # later calls need nothing of the tools used to compile
                env = dict(w.env, PATH="/nonexistent")
                env.pop("PYTHONPATH")
            else:
                env = None
            want = call(ctx, w, way, where, JOBS[j], True, env)
            got = call(ctx, w, way, where, JOBS[j], False, env)
            what = "call %d (%s path from %r, %s)" % (n + 1, way, where, JOBS[j][0])
            check(got[0] == want[0], "%s: exit status %s, the compiled program's is %s: %s", what, got[0], want[0], got[3][-200:])
            same(got[1].hex(), want[1].hex(), "%s: standard output" % what)
            same(got[2], want[2], "%s: files" % what)
            if n:
                same(got[3], want[3], "%s: standard error" % what)
            check(ts.get(w.prog)[:4] == b"\x7fELF" and os.access(w.prog, os.X_OK), "%s: script not replaced by the compiled program", what)
            for f, c in w.src.items():
                same(ts.get(os.path.join(w.pkg, f)), c, "installed file %s" % f)
            ctx.state(editable, n, way, where, j)
            ctx.step()
            seen.append((got[0], got[1], sorted(got[2].items())))
        ctx.traces += 1
    finally:
        shutil.rmtree(w.top, ignore_errors=True)
    return digest(seen)


def broken(ctx, editable, how):
    """Without a compiler nothing is run, and nothing is lost."""
    w = World(ctx, editable)
    try:
        tools = os.path.join(w.top, "tools")
        os.makedirs(tools)
        for t in ("gcc", "cc"):
            ts.put(os.path.join(tools, t), b"#!/bin/sh\nexit 1\n")
            os.chmod(os.path.join(tools, t), 0o755)
        env = dict(w.env, PATH=tools + ":" + w.env["PATH"])
        got = call(ctx, w, how, "work", JOBS[0], False, env)
        check(got[0] != 0 and got[1] .find(data()[:8]) < 0, "compilation failed but exit %s, printed %r", got[0], got[1][:80])
        # it works once the compiler is back
        want = call(ctx, w, how, "work", JOBS[0], True)
        got = call(ctx, w, how, "work", JOBS[0], False)
        same((got[0], got[1].hex()), (want[0], want[1].hex()), "call after a failed one")
        return digest(how, got[1])
    finally:
        shutil.rmtree(w.top, ignore_errors=True)


def cases(ctx):
    for editable in (False, True):
        for way in WAYS:
            for where in DIRS:
                for j in range(len(JOBS)):
                    if where == "w o r k" and way in ("relative", "dot", "search relative"):
                        continue        # the script is then called through a path, relative to a directory with spaces
                    if JOBS[j][0][:2] == ["-i", "../work/in"] and where != "work":
                        continue
                    if not ctx.thorough and (j + WAYS.index(way) + DIRS.index(where) + editable) % 2:
                        continue
                    # pairs: the second call from somewhere else, with other arguments
                    k = (j * 5 + 3) % len(JOBS)
                    second = [(WAYS[(WAYS.index(way) + 1 + j) % len(WAYS)], "work", k)]
                    if JOBS[k][0][:2] == ["-i", "../work/in"]:
                        second = [("absolute", "work", k)]
                    yield ("editable=%s %s from %s: %s, then %s" % (editable, way, where, JOBS[j][0], second[0]), sequence, editable, [(way, where, j)] + second)
        for how in ("absolute", "search"):
            yield ("no compiler, editable=%s %s" % (editable, how), broken, editable, how)
