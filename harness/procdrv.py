"""Sample paths, driven beside the specification."""
import itertools, math
from datetime import date, datetime, timedelta
from dateutil.relativedelta import relativedelta
import numpy as np
from vlib import call, f, vec, dec_us, behaviours
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.base_processes import DiffusionProcess, DriftDiffusionPair

ALL = list(DayCountConvention)
ACTUALS = [c for c in ALL if c.name != "THIRTY_OVER_THREESIXTY"]


def stamp(x):
    if isinstance(x, datetime):
        us = (x.hour * 3600 + x.minute * 60 + x.second) * 10**6 + x.microsecond
        return {"d": x.toordinal(), "s": dec_us(us)}
    if isinstance(x, date):
        return {"d": x.toordinal(), "s": "0"}
    raise TypeError(f"not a timestamp: {type(x).__name__}")


def number(x):
    if isinstance(x, np.ndarray) and x.ndim:
        raise TypeError("an array where a number belongs")
    return f(x)


def columns(p):
    """A path as the sequence of its values."""
    p = np.asarray(p)
    if p.ndim != 2:
        raise TypeError(f"a path of {p.ndim} dimensions")
    return [vec(c) for c in p.T]


def line(p):
    p = np.asarray(p)
    if p.ndim != 1:
        raise TypeError(f"a path of {p.ndim} dimensions where one belongs")
    return vec(p)


def increment(rng, plain=False):
    """(the library's, the specification's, seconds roughly)"""
    u = rng.choice(["d", "d", "w", "m"] + ([] if plain else ["h", "h", "s", "td"]))
    n = {"d": rng.randint(1, 12), "w": rng.randint(1, 3), "m": rng.randint(1, 4), "h": rng.randint(1, 40), "s": rng.randint(600, 50000), "td": 0}[u]
    if u == "d":
        return rng.choice([relativedelta(days=n), timedelta(days=n)]), {"m": 0, "d": n, "s": "0"}, n * 86400
    if u == "w":
        return relativedelta(weeks=n), {"m": 0, "d": 7 * n, "s": "0"}, n * 7 * 86400
    if u == "m":
        return relativedelta(months=n), {"m": n, "d": 0, "s": "0"}, n * 30 * 86400
    if u == "h":
        return rng.choice([relativedelta(hours=n), timedelta(hours=n)]), {"m": 0, "d": 0, "s": str(n * 3600)}, n * 3600
    if u == "s":
        return rng.choice([relativedelta(seconds=n), timedelta(seconds=n)]), {"m": 0, "d": 0, "s": str(n)}, n
    us = rng.randint(10**9, 10**12)
    return timedelta(microseconds=us), {"m": 0, "d": 0, "s": dec_us(us)}, us / 1e6


def correlation(rng, dim, identity=.3):
    if dim == 1 or rng.random() < identity:
        return None
    if rng.random() < .25:       # a single pair, or a strong one
        c = np.eye(dim)
        i, j = rng.sample(range(dim), 2)
        c[i, j] = c[j, i] = rng.choice([-1, 1]) * rng.choice([rng.uniform(.05, .9), rng.uniform(.9, .995)])
        return c
    a = np.array([[rng.uniform(-1, 1) for _ in range(dim)] for _ in range(dim)]) + np.eye(dim) * .4
    c = a @ a.T
    s = np.sqrt(np.diag(c))
    c = c / np.outer(s, s)
    return (c + c.T) / 2


class Motion:
    """A Brownian motion and its record."""

    def __init__(self, rng, dims=(1, 2, 3), dccs=ALL, steps=14, plain=False, inc=None):
        self.plain = plain
        self.dim = rng.randint(4, 6) if len(dims) > 2 and rng.random() < .05 else rng.choice(dims)
        self.corr = correlation(rng, self.dim)
        self.dcc = rng.choice(list(dccs))
        self.start = datetime.fromordinal(rng.randint(730000, 746000)) + (timedelta() if rng.random() < .4 else timedelta(seconds=rng.randint(0, 86399)))
        if rng.random() < .2:
            self.start = datetime(rng.randint(2001, 2030), rng.choice([12, 2, 1]), 28) + timedelta(days=rng.randint(0, 3))
        if plain:
            self.start = self.start.date()
        self.inc = inc or increment(rng, plain)
        self.hourly = not plain and rng.random() < .06       # the documented default
        if self.hourly:
            self.inc = timedelta(hours=1), {"m": 0, "d": 0, "s": "3600"}, 3600.0
        n = rng.randint(steps, 12 * steps) if steps == 14 and self.dim < 3 and rng.random() < .05 else rng.randint(1, steps)
        end = self.start + self.inc[0] * n
        if rng.random() < .5:      # the last step is shorter
            part = timedelta(seconds=rng.uniform(0, .95) * self.inc[2])
            end = end + (timedelta(days=part.days) if plain else timedelta(seconds=int(part.total_seconds())))
        self.end = end

    def record(self):
        corr = np.eye(self.dim) if self.corr is None else self.corr
        return {"start": stamp(self.start), "end": stamp(self.end), "dim": self.dim, "corr": [vec(r) for r in corr], "dcc": self.dcc.name}

    def build(self):
        kw = dict(start_date_time=self.start, end_date_time=self.end, dimension=self.dim, correlation_matrix=self.corr)
        if self.dcc.name != "ACTUAL_OVER_ACTUAL":
            kw["day_count_convention"] = self.dcc
        return BrownianMotion(**kw)

    def dt(self):
        return {} if self.hourly else {"dt": self.inc[0]}

    def steps(self, inc):
        """Number of steps of the grid."""
        n = 0
        while self.start + inc[0] * (n + 1) <= self.end:
            n += 1
        return n + (self.start + inc[0] * n < self.end)

    def inside(self, rng):
        """A timestamp of its life, or just outside."""
        if rng.random() < .1:
            d = timedelta(days=rng.randint(1, 9)) if self.plain else timedelta(seconds=rng.randint(1, 10**6))
            return rng.choice([self.start - d, self.end + d])
        if rng.random() < .3:
            t = self.start + self.inc[0] * rng.randint(0, 14)
            return min(t, self.end)
        u = rng.choice([rng.random(), rng.random() ** 6, 1 - rng.random() ** 6])
        if self.plain:
            return self.start + timedelta(days=round(u * (self.end - self.start).days))
        return min(self.end, self.start + timedelta(microseconds=int(u * ((self.end - self.start) / timedelta(microseconds=1)))))


def close(rng, inc):
    """Another increment that is nearly the same, so that as many steps fit."""
    us = round(inc[2] * 10**6 * rng.uniform(.97, 1.03))
    return timedelta(microseconds=us), {"m": 0, "d": 0, "s": dec_us(us)}, us / 1e6


def seeds_differ(s, key, rng, make):
    """Two seeds, two paths."""
    a = rng.randint(0, 2**31)
    b = rng.choice([a + 1, a + 2 ** rng.randint(0, 31), rng.randint(0, 2**32 - 1)]) % 2**32
    s.ev("seeds", f"{key}:seeds:{a}:{b}", call(lambda: (make(a), make(b)), lambda v: {"a": columns(v[0]), "b": columns(v[1])}), a=f(a), b=f(b))


def probe(s, key, seed, dim, n):
    """The draws of a seed, seen through an uncorrelated motion of equal steps."""
    if n == 0:
        return
    a = datetime(2020, 1, 1)
    m = BrownianMotion(a, a + timedelta(days=n), dim, None, DayCountConvention.ACTUAL_OVER_360)
    rec = {"start": stamp(a), "end": stamp(a + timedelta(days=n)), "dim": dim, "corr": [vec(r) for r in np.eye(dim)], "dcc": "ACTUAL_OVER_360"}
    increments(s, f"{key}:probe{seed}:{dim}:{n}", m, rec, (timedelta(days=1), {"m": 0, "d": 1, "s": "0"}), seed)


def increments(s, key, bm, rec, inc, seed):
    s.ev("increments", key, call(lambda: bm.generate_increments(inc[0], seed=seed) if seed is not None else bm.generate_increments(dt=inc[0]),
                                 lambda v: {"shocks": columns(v[0]), "dts": line(v[1]), "grid": [stamp(x) for x in bm.datetimes]}),
         m=rec, inc=inc[1], seed=-1 if seed is None else seed)


def kept(s, key, shape, asks=()):
    s.ev("kept", f"{key}:kept", call(shape), asks=[stamp(x) for x in asks])


def opt(v, shape):
    return {"set": False} if v is None else {"set": True, "v": shape(v)}


def affine_rows(rng, dim, noise, kind=None):
    """Rows of an Euler process and the library's functions."""
    rows, pairs = [], {}
    names = [f"x{i}" + "y" * rng.choice([0, 0, 1, 3]) for i in range(dim)]
    rng.shuffle(names)
    for i in range(dim):
        kind_i = kind or rng.choice(["const", "ou", "gbm", "full"])
        a, b = rng.uniform(-1, 1), rng.choice([0, rng.uniform(-1, 1)])
        lin = np.array([rng.uniform(-.6, .6) for _ in range(dim)])
        sv = np.array([rng.uniform(-.5, .5) for _ in range(noise)])
        u = np.array([rng.uniform(-.4, .4) for _ in range(noise)])
        if kind_i == "const":
            lin, u, b = lin * 0, u * 0, 0
        elif kind_i == "ou":
            lin, u = -np.eye(dim)[i] * rng.uniform(.1, 1.5), u * 0
        elif kind_i == "gbm":
            a, b, sv = 0, 0, sv * 0
            lin = np.eye(dim)[i] * rng.uniform(-.2, .3)
        rows.append({"a": f(a), "lin": vec(lin), "b": f(b), "s": vec(sv), "u": vec(u)})

        def drift(t, x, a=a, b=b, lin=lin):
            return a + lin @ x + b * t

        def diffusion(t, x, sv=sv, u=u, i=i):
            return sv + u * x[i]
        pairs[names[i]] = DriftDiffusionPair(drift=drift, diffusion=diffusion)
    return rows, pairs


def histories(rec, kind, n):
    """Operations: those of every short history of the specification, then n random ones."""
    seqs, st, tr = behaviours("MCLifecycle", "MCLifecycle.cfg", {"Depth": rec.n(3, 4), "Kind": '"%s"' % kind})
    rec.gen = (st, tr)
    rec.rng.shuffle(seqs)
    for i, q in enumerate(seqs[:rec.n(120, 2000)]):
        yield f"b{i}", q
    for i in range(n):
        yield i, None
