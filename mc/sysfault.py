"""Runs a function in a forked child in which one file system call (or all from it on) fails in a chosen way.

The environment is explored at the system call boundary: an undisturbed run counts the calls on files below the scratch
directory, then every call is made to fail in every way that applies to it, each time in a fresh child.
"""
import ctypes, errno, gc, io, os, pickle, signal, subprocess, sys, time

ERRNO, SHORT, END, KILL, HALFKILL, HALFERR = 1, 2, 3, 4, 5, 6
NEVER = 0xFFFFFFFF
L = None


def build(ctx):
    """Compiles the injector; called before the workers start."""
    global L
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "sysfault", "sysfault.c")
    so = os.path.join(ctx.top, "sysfault.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, src], check=True)
    L = ctypes.CDLL(so)
    L.sf_shared.restype = ctypes.c_void_p
    L.sf_count.restype = L.sf_fired.restype = ctypes.c_uint32


class Op(ctypes.Structure):
    _fields_ = [("kind", ctypes.c_uint8), ("writable", ctypes.c_uint8), ("fd", ctypes.c_uint16), ("want", ctypes.c_int32), ("ret", ctypes.c_int64)]


_ready = None


def _shared():
    global _ready
    if _ready != os.getpid():       # one region per worker
        assert L.sf_shared()
        L.sf_op.restype = ctypes.POINTER(Op)
        _ready = os.getpid()
    L.sf_reset()


class Result:
    """status: "ok", "error" or "killed"; value of the function or text of its error; calls made."""

    def __init__(self, status, value, ops, fired):
        self.status, self.value, self.ops, self.fired = status, value, ops, fired

    def __repr__(self):
        return "%s %s" % (self.status, self.value)


def attempt(scratch, fn, k=NEVER, action=ERRNO, err=errno.EIO, persistent=False, stdout=None, stdin=None, kind="o"):
    """Calls fn() in a child with its k-th file system call below scratch disturbed.

    The call is left alone if it is not of the given kind.  With stdout (a path) standard output is that file, taking part in the exploration; leaving a program flushes it.
    """
    _shared()
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_RDWR)
            if stdin is not None:
                f = os.open(stdin, os.O_RDONLY)
                os.dup2(f, 0); os.close(f)
                sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, "rb", closefd=False)))
            if stdout is not None:
                f = os.open(stdout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(f, 1); os.close(f)
                sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "wb", closefd=False)))
            else:
                os.dup2(null, 1)
            os.dup2(null, 2)
            if stdout is not None:
                L.sf_mark(1, 1)
            if stdin is not None:
                L.sf_mark(0, 0)
            if L.sf_install(os.path.join(scratch, "").encode(), 1, ctypes.c_uint32(k), action, err, int(persistent), ord(kind)):
                raise RuntimeError("system call filter refused")
            try:
                value = fn()
                if L.sf_left(3):
                    gc.collect(); gc.collect()      # files left open are closed
                if stdout is not None:
                    sys.stdout.flush()
                res = "ok", value
            except SystemExit as e:
                res = ("ok", None) if not e.code else ("error", "exit status %s" % (e.code,))
                try:
                    if stdout is not None:
                        sys.stdout.flush()
                except Exception as e:
                    res = "error", repr(e)
            except BaseException as e:
                res = "error", "%s: %s" % (type(e).__name__, e)
            L.sf_on(0)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(res))
        except BaseException as e:
            os.write(w, pickle.dumps(("broken", repr(e))))
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    finally:
        if sys.exc_info()[0]:
            os.kill(pid, signal.SIGKILL)
        st = os.waitpid(pid, 0)[1]
    if data:
        status, value = pickle.loads(data)
    elif os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL and action in (KILL, HALFKILL):
        status, value = "killed", None
    else:
        status, value = "crashed", "status %d" % st
    if status == "broken":
        raise RuntimeError(value)
    n = L.sf_count()
    ops = []
    for i in range(min(n, 65536)):
        o = L.sf_op(ctypes.c_uint32(i)).contents
        ops.append((chr(o.kind), bool(o.writable), o.fd, o.want, o.ret))
    return Result(status, value, ops, L.sf_fired())


def faults(op):
    """Ways in which a call can fail: (name, action, errno or size, persistent)."""
    kind, writable = op[:2]
    if kind == "o":
        yield "cannot be opened", ERRNO, errno.EACCES, False
        yield "not there", ERRNO, errno.ENOENT, False
        yield "too many open files", ERRNO, errno.EMFILE, False
    elif kind == "r":
        yield "read error", ERRNO, errno.EIO, False
        yield "read errors from here on", ERRNO, errno.EIO, True
        yield "short read", SHORT, 3, False
        yield "short reads from here on", SHORT, 13, True
        yield "file ends here", END, 0, True
    elif kind == "w":
        yield "write error", ERRNO, errno.EIO, False
        yield "no space left", ERRNO, errno.ENOSPC, True
        yield "no space for a moment", ERRNO, errno.ENOSPC, False
        yield "short write", SHORT, 0, False
        yield "no space for half of it", HALFERR, errno.ENOSPC, True
    elif kind == "c":
        yield "close error", ERRNO, errno.EIO, False
    elif kind == "l":
        yield "directory unreadable", ERRNO, errno.EIO, False
    else:
        yield "failed", ERRNO, errno.EIO, False


def crashes(op):
    yield "killed before", KILL, 0, False
    if op[0] == "w":
        yield "killed half way", HALFKILL, 0, False


def name(op):
    return {"o": "open", "r": "read", "w": "write", "c": "close", "l": "listing", "x": "other call"}[op[0]] + (" (output)" if op[1] else "")
