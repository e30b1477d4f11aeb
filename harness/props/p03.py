"""Schedules at equal increments."""
from vlib import call, d, dt, exact_date, dec_us
from caldrv import *
from datetime import datetime
from dateutil.relativedelta import relativedelta
from fixedIncome.src.scheduling_tools.scheduler import Scheduler


def plain(v):
    return [exact_date(x) for x in v]


def again(rec, h):
    """The same schedules asked for again, after their callers have changed the answers."""
    rng = rec.rng
    s = rec.stream("TraceSched")
    start = date.fromordinal(rng.randint(720000, 750000))
    n = rng.randint(1, 6)
    incs = [(relativedelta(months=n), {"m": n, "d": 0}, True), (timedelta(days=n), {"m": 0, "d": n}, True), (relativedelta(days=n), {"m": 0, "d": n}, True),
            (relativedelta(months=-n), {"m": -n, "d": 0}, False), (timedelta(days=-n), {"m": 0, "d": -n}, False)]
    for k in range(rng.randint(4, 9)):
        inc, si, up = rng.choice(incs)
        end = start + (10 if si["d"] else 4) * inc
        mx = rng.choice([1000, 2, 6])

        def spoil(v):
            out = plain(v)
            v.pop() if v and rng.random() < .5 else v.append(start)
            return out
        s.ev("increments", f"r{h}.{k}:{iso(start)}:{iso(end)}:{n}:{mx}",
             call(lambda: Scheduler.generate_dates_by_increments(start, end, inc, max_dates=mx) if mx != 1000 else Scheduler.generate_dates_by_increments(start, end, inc), spoil),
             start=d(start), end=d(end), inc=si, up=up, max=mx)


def run(rec):
    rng = rec.rng
    for h in range(rec.n(40, 500)):
        again(rec, h)
    for part in range(8):
        s = rec.stream("TraceSched")
        for k in range(rec.n(60, 900)):
            y = rng.randint(1995, 2060)
            start = rng.choice([date.fromordinal(rng.randint(700000, 760000)), date(y, rng.choice([1, 3, 5, 7, 8, 10, 12]), 31),
                                date(y, rng.randint(1, 12), 28) + timedelta(days=rng.randint(0, 4)), date(2000 + 4 * rng.randint(0, 14), 2, 29)])
            sign = rng.choice([1, -1])
            unit = rng.choice(["m", "m", "m", "y", "d", "w", "td"])
            n = rng.choice([1, 3, 6, 12, rng.randint(1, 18)])
            if unit == "m":
                inc, si, span = relativedelta(months=sign * n), {"m": sign * n, "d": 0}, n * 30 * rng.choice([0.5, 1, 4, 12, 12, 150])
            elif unit == "y":
                n = rng.randint(1, 4)
                inc, si, span = relativedelta(years=sign * n), {"m": sign * 12 * n, "d": 0}, n * 365 * rng.choice([1, 3, 9])
            elif unit == "d":
                inc, si, span = relativedelta(days=sign * n), {"m": 0, "d": sign * n}, n * rng.choice([1, 5, 20, 20, 400])
            elif unit == "w":
                inc, si, span = relativedelta(weeks=sign * n), {"m": 0, "d": sign * 7 * n}, n * 7 * rng.choice([1, 5, 20])
            else:
                inc, si, span = timedelta(days=sign * n), {"m": 0, "d": sign * n}, n * rng.choice([1, 5, 20])
            span = int(span * rng.choice([1, 1, 1, 0, -1])) + rng.randint(-2, 2)
            end = date.fromordinal(start.toordinal() + sign * span)
            if rng.random() < 0.4 and span > 0:          # the end is a date of the schedule
                e2 = start + inc * rng.randint(0, 8)
                end = e2
            mx = rng.choice([1000, 1000, 1000, 5])
            s.ev("increments", f"{part}.{k}:{iso(start)}:{iso(end)}:{unit}{sign * n}:{mx}",
                 call(lambda: Scheduler.generate_dates_by_increments(start, end, inc, max_dates=mx), plain),
                 start=d(start), end=d(end), inc=si, up=sign > 0, max=mx)
        # months forward and days back, month ends, long schedules either way
        for k in range(rec.n(30, 400)):
            y = rng.randint(1995, 2060)
            start = rng.choice([date.fromordinal(rng.randint(700000, 760000)), date(y, rng.randint(1, 12), 28) + timedelta(days=rng.randint(0, 4)), date(y, rng.choice([1, 2, 3]), rng.choice([1, 28]))])
            sign = rng.choice([1, -1])
            kind = rng.choice(["mixed", "mixed", "day", "day", "long"])
            mx = 1000
            if kind == "mixed":
                m, e = rng.choice([1, 1, 1, 2, 3, 12]), rng.choice([-1, 1])
                n = {1: rng.choice([27, 28, 29, 30, 31, 32, 2]), 2: rng.randint(58, 63), 3: rng.randint(88, 93), 12: rng.randint(363, 368)}[m]
                inc, si = relativedelta(months=sign * m, days=e * n), {"m": sign * m, "d": e * n}
                end = start + inc * rng.choice([0, 1, 2, 5, 12, 30]) + timedelta(days=rng.choice([0, 0, 1, -1]))
            elif kind == "day":
                m, day = rng.choice([1, 1, 3, 6, 12]), rng.choice([31, 31, 30, 15, 29, 1])
                inc, si = relativedelta(months=sign * m, day=day), {"m": sign * m, "d": 0, "day": day}
                end = start + relativedelta(months=sign * m * rng.choice([1, 2, 6, 14])) + timedelta(days=rng.randint(-2, 2))
            else:
                n = rng.choice([1, 7, 2])
                inc, si = rng.choice([timedelta(days=sign * n), relativedelta(days=sign * n)]), {"m": 0, "d": sign * n}
                size, mx = rng.randint(900, 2600), rng.choice([10000, 3000, 1500])
                if rng.random() > .1:
                    continue
                end = start + inc * size
            up = start + inc >= start
            s.ev("increments", f"{part}.x{k}:{iso(start)}:{iso(end)}:{inc!r}:{mx}",
                 call(lambda: Scheduler.generate_dates_by_increments(start, end, inc, max_dates=mx) if mx != 1000 else Scheduler.generate_dates_by_increments(start, end, inc), plain),
                 start=d(start), end=d(end), inc=si, up=up, max=mx)
        # timestamps
        s = rec.stream("TraceSched")
        for k in range(rec.n(25, 400)):
            start = datetime.fromordinal(rng.randint(720000, 750000)) + timedelta(seconds=rng.choice([0, 0, 43200, 86399, rng.randint(0, 86399)]))
            sign = rng.choice([1, -1])
            unit = rng.choice(["h", "s", "d", "m", "td"])
            n = rng.randint(1, 30)
            secs = 0
            if unit == "h":
                inc, si = relativedelta(hours=sign * n), {"m": 0, "d": 0, "s": str(sign * n * 3600)}
            elif unit == "s":
                n *= 997
                inc, si = relativedelta(seconds=sign * n), {"m": 0, "d": 0, "s": str(sign * n)}
            elif unit == "d":
                inc, si = relativedelta(days=sign * n), {"m": 0, "d": sign * n, "s": "0"}
            elif unit == "m":
                inc, si = relativedelta(months=sign * n), {"m": sign * n, "d": 0, "s": "0"}
            else:
                us = rng.randint(1, 10 ** 11)
                inc = timedelta(microseconds=sign * us)
                si = {"m": 0, "d": 0, "s": ("-" if sign < 0 else "") + dec_us(us)}
            end = start + inc * rng.randint(0, 25) + timedelta(seconds=rng.choice([0, 0, 1, -1, 500]))
            s.ev("increments_dt", f"{part}.{k}:{start.isoformat()}:{end.isoformat()}:{inc!r}",
                 call(lambda: Scheduler.generate_dates_by_increments(start, end, inc), lambda v: [dt(x) for x in v]),
                 start=dt(start), end=dt(end), inc=si, max=1000)
    rec.mc.append(("a schedule built one increment at a time", "MCSchedule", "MCSchedule.cfg",
                   {"From": 730000, "Days": rec.n(400, 1600)}))
