"""First calls of the stand-in that are killed, whose tools fail, or that run at the same time: controlled schedules of the real script."""
import os
import select
import shutil
import signal
import subprocess
import time
from engine import check, same, digest
import ts
from checks import c31

LEVEL = "model_checking"
TECHNIQUE = ("stateless exploration of the real script under a controlled scheduler: every tool that touches the installation is a scheduling point (the linker's single steps included), and every "
             "crash point, tool failure and interleaving of two first calls within the preemption bound is run")
RULE = ("processes stop before each tool and between the linker's steps on its output (remove, create, half written, written, executable); all crash points, all failures, all pairs of points "
        "of two processes in either order of completion; states are (points, kind of file at the program path)")
ASSUMPTIONS = ["the linker treats its output as ld does (removes, creates, writes, makes executable; removes it again on failure), compared with the real one through strace where that works",
               "the kernel's hand-over of the script to its interpreter is not interrupted", "installation paths without white space"]
CASE_LIMIT = 300
TOOLS = ("gcc", "cc", "mv", "cp", "ln", "install", "chmod", "rm", "python3", "readlink", "cat", "mktemp", "touch", "dd")
SHIM = r'''#!/bin/sh
# Reports each step to the controller and waits for its answer: go on, or fail.
PATH=%(path)s
tool=${0##*/}
step() {
    echo "$tool $1" >"$CTL/out"
    read answer <"$CTL/in"
    [ "$answer" = go ] || { $2; exit 1; }
}
case $tool in
gcc|cc)
    out=a.out
    for x in "$@"; do
        [ "$last" = -o ] && out=$x
        last=$x
    done
    case " $* " in *" -c "*|*" -S "*|*" -E "*) step other; exec $tool "$@";; esac
    fail() { rm -f "$out"; }
    step compile
    [ -s freqcd.c ] && [ -s lib/getopt.c ] || exit 1
    rm -f "$out"
    step removed fail
    (umask 0111; : >"$out")
    step created fail
    head -c 9000 %(ref)s >"$out"
    step half fail
    cat %(ref)s >"$out"
    step written fail
    chmod 755 "$out"
    step linked fail
    ;;
cp|install)
    step start
    for x in "$@"; do
        from=$to
        to=$x
    done
    [ -d "$to" ] && to=$to/${from##*/}
    # overwrites in place; install removes the old file first
    [ $tool = install ] && rm -f "$to"
    : >"$to" && step truncated
    head -c 9000 "$from" >"$to"
    step half
    $tool "$@" || exit $?
    step copied
    ;;
*)
    step start
    $tool "$@" || exit $?
    ;;
esac
'''


def setup(ctx):
    c31.setup(ctx)
    if os.path.exists(ctx.ref):
        os.chmod(ctx.ref, 0o755)


class Installation(c31.World):
    def __init__(self, ctx, editable):
        super().__init__(ctx, editable)
        self.tools = os.path.join(self.top, "tools")
        os.makedirs(self.tools)
        for t in TOOLS:
            ts.put(os.path.join(self.tools, t), (SHIM % {"path": self.env["PATH"], "ref": ctx.ref}).encode())
            os.chmod(os.path.join(self.tools, t), 0o755)
        for d in "w1", "w2":
            self.directory(d)

    def kind(self):
        """What is at the program path."""
        if not os.path.exists(self.prog):
            return "absent"
        c = ts.get(self.prog)
        return ("script" if c[:2] == b"#!" else "empty" if not c else "program" if len(c) > 9000 and c[:4] == b"\x7fELF" else "part") + ("" if os.stat(self.prog).st_mode & 0o100 else ", not executable")


class Process:
    """A first call under control."""

    def __init__(self, ctx, w, name, way, job):
        self.w, self.job = w, job
        self.ctl = os.path.join(w.top, "ctl" + name)
        self.cwd = os.path.join(w.top, "w" + name)
        shutil.rmtree(self.ctl, ignore_errors=True)
        os.makedirs(self.ctl)
        for f in "in", "out":
            os.mkfifo(os.path.join(self.ctl, f))
        if os.geteuid() == 0:
            c31.chown(self.ctl)
        self.out = os.open(os.path.join(self.ctl, "out"), os.O_RDWR | os.O_NONBLOCK)
        self.go = os.open(os.path.join(self.ctl, "in"), os.O_RDWR)
        args, stdin = job
        env = dict(w.env, CTL=self.ctl)
        env["PATH"] = w.tools + ":" + env["PATH"]
        cmd = w.command(way, self.cwd, env)
        ts.put(os.path.join(self.ctl, "stdin"), stdin)
        self.stdout = open(os.path.join(self.ctl, "stdout"), "w+b")
        self.stderr = open(os.path.join(self.ctl, "stderr"), "w+b")
        with open(os.path.join(self.ctl, "stdin"), "rb") as f:
            self.p = subprocess.Popen(["/bin/sh", "-c", 'exec "$0" "$@"'] + cmd + args, stdin=f, stdout=self.stdout, stderr=self.stderr, cwd=self.cwd, env=env, umask=0o022, start_new_session=True, **c31.prefix())
        self.steps = []
        self.text = b""
        self.waiting = None
        self.wait()

    def wait(self):
        """Runs up to the next step, or to the end."""
        end = time.time() + 60
        while b"\n" not in self.text:
            if self.p.poll() is not None:
                try:
                    self.text += os.read(self.out, 4096)
                except BlockingIOError:
                    pass
                if b"\n" not in self.text:
                    self.waiting = None
                    return
                break
            check(time.time() < end, "no progress after %s", self.steps)
            if select.select([self.out], [], [], 0.004)[0]:
                self.text += os.read(self.out, 4096)
        line, self.text = self.text.split(b"\n", 1)
        self.waiting = line.decode()
        self.steps.append(self.waiting)

    def answer(self, text="go"):
        os.write(self.go, text.encode() + b"\n")
        self.wait()

    def advance(self, n):
        """Passes n steps; False if it ended before."""
        while n and self.waiting:
            self.answer()
            n -= 1
        return bool(self.waiting)

    def finish(self):
        while self.waiting:
            check(len(self.steps) < 200, "endless: %s", self.steps[-20:])
            self.answer()
        return self.result()

    def kill(self):
        os.killpg(self.p.pid, signal.SIGKILL)
        self.p.wait()

    def result(self):
        rc = self.p.wait()
        self.stdout.seek(0)
        self.stderr.seek(0)
        return rc, self.stdout.read(), self.stderr.read()

    def close(self):
        if self.p.poll() is None:
            self.kill()
        else:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        for f in self.out, self.go:
            os.close(f)
        self.stdout.close()
        self.stderr.close()


JOBS = [(["-f", "1000"], c31.data()), (["-f", "-2000000", "-d"], c31.data(1100)), (["-i", "in", "-o", "out", "-f", "77"], b"")]


def expected(ctx, w, job):
    d = w.directory("work")
    p = subprocess.run([ctx.ref] + job[0], input=job[1], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=60)
    return p.returncode, p.stdout, w.snapshot(d)


def right(ctx, w, process, what):
    want = expected(ctx, w, process.job)
    got = process.finish()
    check(got[0] == want[0], "%s: exit status %s, the program's is %s: %s (program path: %s)", what, got[0], want[0], got[2][-200:], w.kind())
    same(got[1].hex(), want[1].hex(), "%s: standard output" % what)
    same(w.snapshot(process.cwd), want[2], "%s: files" % what)


def later(ctx, w, what):
    """A call after all that, with the ordinary tools."""
    job = JOBS[1]
    want = expected(ctx, w, job)
    kind = w.kind()
    got = c31.call(ctx, w, "absolute", "work", job, False)
    check(got[0] == want[0], "%s: the next call exits with %s, the program's status is %s: %s (program path: %s)", what, got[0], want[0], got[3][-200:], kind)
    same(got[1].hex(), want[1].hex(), "%s: standard output of the next call" % what)
    check(w.kind() == "program", "%s: script not replaced by the next call: %s", what, w.kind())


def points(ctx, editable):
    """Number of steps of an undisturbed call."""
    w = Installation(ctx, editable)
    try:
        p = Process(ctx, w, "1", "absolute", JOBS[0])
        try:
            p.finish()
            return list(p.steps)
        finally:
            p.close()
    finally:
        shutil.rmtree(w.top, ignore_errors=True)


def crash(ctx, editable, way, n, job):
    check(not ctx.build, "freqcd does not build: %s", ctx.build)
    w = Installation(ctx, editable)
    p = None
    try:
        p = Process(ctx, w, "1", way, JOBS[job])
        if not p.advance(n):
            check(w.kind() == "program", "script not replaced: %s", w.kind())
            right(ctx, w, p, "undisturbed call")
            ctx.count("beyond_the_end")
            return digest("end")
        at = p.waiting
        p.kill()
        ctx.state("killed", editable, at, w.kind())
        ctx.step()
        later(ctx, w, "killed at %r" % at)
        ctx.traces += 1
        return digest(at)
    finally:
        if p:
            p.close()
        shutil.rmtree(w.top, ignore_errors=True)


def failing(ctx, editable, way, n, job):
    check(not ctx.build, "freqcd does not build: %s", ctx.build)
    w = Installation(ctx, editable)
    p = None
    try:
        p = Process(ctx, w, "1", way, JOBS[job])
        if not p.advance(n):
            return digest("end")
        at = p.waiting
        p.answer("fail")
        while p.waiting:
            p.answer()
        got = p.result()
        ctx.state("failed", editable, at, w.kind())
        ctx.step()
        if got[0]:
            same(got[1].hex(), "", "failure at %r, exit %s: standard output" % (at, got[0]))
            check(got[2], "failure at %r, exit %s: nothing reported", at, got[0])
            w.directory("work")
            same(w.snapshot(p.cwd), w.snapshot(os.path.join(w.top, "work")), "failure at %r: files" % at)
        else:
            right(ctx, w, p, "failure at %r" % at)
        check(not at.startswith("gcc") or got[0], "failure at %r: exit status 0", at)
        later(ctx, w, "failure at %r" % at)
        ctx.traces += 1
        return digest(at, got[0])
    finally:
        if p:
            p.close()
        shutil.rmtree(w.top, ignore_errors=True)


def race(ctx, editable, i, j, how):
    """One call stops at its i-th step, the other at its j-th; then they end in either order, or one is killed there."""
    check(not ctx.build, "freqcd does not build: %s", ctx.build)
    w = Installation(ctx, editable)
    ps = []
    try:
        a = Process(ctx, w, "1", "absolute", JOBS[0])
        ps.append(a)
        if not a.advance(i):
            return digest("end")
        b = Process(ctx, w, "2", "search", JOBS[2])
        ps.append(b)
        if not b.advance(j):
            if j:
                return digest("end")
        at = "first call at %r, second at %r" % (a.waiting, b.waiting)
        ctx.state("race", editable, a.waiting, b.waiting, w.kind())
        ctx.step()
        if how == "first":
            right(ctx, w, a, at + ", the first goes on: it")
            right(ctx, w, b, at + ", the first goes on: the second")
        elif how == "second":
            right(ctx, w, b, at + ", the second goes on: it")
            right(ctx, w, a, at + ", the second goes on: the first")
        elif how == "alternate":
            while a.waiting or b.waiting:
                for p in b, a:
                    if p.waiting:
                        p.answer()
            right(ctx, w, a, at + ", in turns: the first")
            right(ctx, w, b, at + ", in turns: the second")
        else:
            a.kill()
            right(ctx, w, b, at + ", the first is killed: the second")
        ctx.state("after race", how, editable, w.kind())
        later(ctx, w, at + ", " + how)
        ctx.traces += 1
        return digest(a.steps, b.steps)
    finally:
        for p in ps:
            p.close()
        shutil.rmtree(w.top, ignore_errors=True)


def linker(ctx):
    """The steps of the real linker on its output, where they can be observed."""
    d = os.path.join(ctx.scratch, "ld")
    os.makedirs(d)
    out = os.path.join(d, "prog")
    ts.put(out, b"#!/bin/sh\n")
    from engine import REPO
    r = os.path.join(REPO, "src/fpfind")
    try:
        p = subprocess.run(["strace", "-f", "-e", "trace=unlink,unlinkat,open,openat,creat,chmod,fchmod,fchmodat,rename,renameat,renameat2", "-o", d + "/trace", "gcc", "-w", "-o", out, r + "/freqcd.c", r + "/lib/getopt.c"],
                           capture_output=True, timeout=120)
    except (OSError, subprocess.TimeoutExpired):
        return 0
    lines = [l for l in open(d + "/trace", errors="replace").read().split("\n") if '"%s"' % out in l and "O_RDONLY" not in l] if os.path.exists(d + "/trace") else []
    names = [l.split(None, 1)[1].split("(")[0] for l in lines]
    ctx.count("linker " + " ".join(names))
    return digest(names)


def cases(ctx):
    N = 14
    yield "steps of the real linker", linker
    for editable in (False, True):
        for way in ("absolute", "search") if ctx.thorough or not editable else ("absolute",):
            for n in range(N + 4):
                yield ("killed at step %d, editable=%s %s" % (n, editable, way), crash, editable, way, n, n % 3)
                yield ("failure at step %d, editable=%s %s" % (n, editable, way), failing, editable, way, n, n % 3)
        for i in range(N):
            for j in range(N):
                for how in ("first", "second", "alternate", "killed"):
                    if not ctx.thorough and (editable or how == "alternate") and (i + j) % 3:
                        continue
                    yield ("two calls at steps %d and %d, then %s, editable=%s" % (i, j, how, editable), race, editable, i, j, how)
