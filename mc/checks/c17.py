"""Epoch names, numbers and dates."""
import datetime as dt, os, time
from engine import check, same, digest
from fpfind.lib import parse_epochs as E
import epochs

LEVEL = "exploration"
RULE = ("every epoch in windows around counter boundaries plus a stride over all 32-bit epochs; for each the first, last and inner microseconds of its interval in several time zones; "
        "an outcome is a distinct window of results")
UNIX = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)
ZONES = [dt.timezone.utc, dt.timezone(dt.timedelta(hours=8)), dt.timezone(dt.timedelta(hours=-9, minutes=-30)), dt.timezone(dt.timedelta(hours=14))]
LEN = 1 << 32            # epoch length, units of 125 ps; 8000 units per microsecond


def settz(tz):
    os.environ["TZ"] = tz
    time.tzset()


def window(ctx, first, count, step, tz):
    settz(tz)
    seen = []
    for e in range(first, min(first + count * step, 1 << 32), step):
        name = E.int2epoch(e)
        same(name, "%x" % e, "name of epoch %d" % e)
        same(E.epoch2int(name), e, "number of epoch %s" % name)
        same(E.epoch2int("%08x" % e), e, "number of epoch %08x" % e)
        same(int(E.date2epoch(E.epoch2date(name)), 16), e, "epoch %s to date %s and back" % (name, E.epoch2date(name)))
        same(E.date2epoch(E.epoch2date("%08x" % e)), "%08x" % e, "epoch to date and back")
        lo, hi = -(-e * LEN // 8000), -(-(e + 1) * LEN // 8000) - 1      # first and last microsecond inside
        for us in (lo, lo + 1, (lo + hi) // 2, hi - 1, hi):
            for z in ZONES[:1] if us not in (lo, hi) else ZONES:
                d = (UNIX + dt.timedelta(microseconds=us)).astimezone(z)
                same(E.date2epoch(d), "%08x" % e, "epoch of %s" % d.isoformat())
                ctx.count("dates")
        d = (UNIX + dt.timedelta(microseconds=(lo + hi) // 2)).astimezone().replace(tzinfo=None)   # naive dates are local
        if tz in ("UTC", "SGT-8", "NST3:30"):
            same(E.date2epoch(d), "%08x" % e, "epoch of local date %s in %s" % (d, tz))
        d = E.epoch2date(name)
        us = round(d.timestamp() * 10 ** 6)
        check(abs(us - lo) <= 1, "date of epoch %s is %s, %d us off the start of the interval", name, d, us - lo)
        seen.append(name)
    return digest(seen, tz)


def now(ctx):
    for tz in ("UTC", "SGT-8"):
        settz(tz)
        a = int(time.time() * 8e9) >> 32
        got = int(E.date2epoch(), 16)
        b = int(time.time() * 8e9) >> 32
        check(a <= got <= b, "current epoch %x not in %x..%x", got, a, b)
    return 1


def cases(ctx):
    yield ("current epoch", now)
    for tz in ("UTC", "SGT-8", "NST3:30", "CET-1CEST,M3.5.0,M10.5.0/3"):
        for c in (0, 1 << 17, 0xffff, 1 << 24, 1 << 28, 1 << 31, 0xba1f36c0, 0xbb000000, (1 << 32) - 1):
            w = ctx.pick(200, 3000)
            for lo in range(max(0, c - w // 2), c + w // 2, 50):
                yield ("epochs from %x in %s" % (lo, tz), window, lo, 50, 1, tz)
        n = ctx.pick(4000, 60000)
        stride = (1 << 32) // n | 1
        for k in range(0, n, 50):
            yield ("epochs from %x every %x in %s" % (k * stride, stride, tz), window, k * stride, 50, stride, tz)
