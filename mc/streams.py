"""Deterministic pairs of event streams with a known clock relation b = a*(1+df) + dt."""
import random
import numpy as np


class Pair:
    """Common and private events in the windows the search looks at: [0, Ta] and [Ts, Ts+Ta] with margins."""

    def __init__(self, seed, q, R, k, sep, dt, df, nc=1500, na=400, nb=1500, dtype=np.longdouble, gap=False, grid=None):
        self.N, self.R, self.k, self.sep = 1 << q, R, k, sep
        self.Ta = self.N * R * k
        self.Ts = sep * self.Ta
        self.dt, self.df = dt, df
        rnd = random.Random("%s %s" % (seed, sep))

        def win(n, lo=0.0, hi=1.35):
            out = []
            spans = [(0.0, self.Ta * hi), (self.Ts - 0.3 * self.Ta, self.Ts + hi * self.Ta)] if not gap else [(0.0, self.Ts + hi * self.Ta)]
            for x, y in spans:
                out += [rnd.uniform(x, y) for _ in range(int(n * (y - x) / self.Ta))]
            return out
        c = win(nc)
        if grid:                            # event times representable in files
            c = [round(x * grid) / grid for x in c]
        one = dtype(1)
        c = np.array(sorted(c), dtype=dtype)
        b = c * (one + dtype(df)) + dtype(dt)
        self.common = c, b                  # the same photon on either side
        a = np.sort(np.concatenate([c, np.array(win(na), dtype=dtype)]))
        lo = float(dt)
        b = np.sort(np.concatenate([b, np.array([x + lo for x in win(nb)], dtype=dtype)]))
        if grid:
            a = np.floor(a * grid) / grid
            b = np.floor(b * grid) / grid
        self.a, self.b = a, b

    def normalized(self, normalize):
        a, b = normalize(self.a, self.b)
        self.z = max(self.a[0], self.b[0])
        self.want = float(self.dt + self.z * self.df)
        return a, b

    def residual(self, dt, df):
        """Remaining time difference at both ends of the span, if dt and df were corrected for."""
        e = float(dt) - self.want
        return e, e + (self.Ts + self.Ta) * (float(df) - self.df)

    def coarse(self):
        return max(self.R, 2 * abs(self.df) * self.Ta)

    def tolerance(self, r):
        """Final resolution steps; a coarse pass where the search's guard against spurious peaks may stop it."""
        c = self.coarse()
        if self.R != r and (abs(self.want) >= 2 * c or c <= 8) and (self.R / self.Ts <= 0.7e-8 or abs(self.df) >= 2 * self.R / self.Ts):
            return 3 * self.final(r)
        return 2 * c + 3 * self.final(r)

    def final(self, r):
        """Width of the peak in the last pass: each pass leaves an error that smears the next one."""
        res, width = self.R, self.coarse()
        while res > r:
            res = max(res / (self.sep / 2 ** 0.5), r)
            width = max(res, 2 * width / self.sep)
        return width

    def allowed(self):
        """Within the search's declared range, with the error of a coarse pass to spare."""
        return abs(self.dt) + abs(self.df) * (self.Ts + 2 * self.Ta) < 0.45 * self.N * self.R and abs(self.df) + 3 * self.coarse() / self.Ts < 2.0 ** -13 and abs(self.dt) < 9e7
