"""Day counts between dates and between timestamps."""
from vlib import call, d, dt, f
from caldrv import *
from datetime import datetime, time
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention, PaymentFrequency

DCC = list(DayCountConvention)


def acc(a, b, c):
    return call(lambda: DayCountCalculator.compute_accrual_length(a, b, c), number)


def number(v):
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        raise TypeError("not a number")
    return f(v)


def pick(rng):
    y = rng.choice([rng.randint(1985, 2075)] * 4 + [1900, 2000, 2100, 2200, rng.randint(1600, 2400)])
    return rng.choice([
        date.fromordinal(rng.randint(715000, 765000)),
        date(y, 2, 27) + timedelta(days=rng.randint(0, 3)),
        date(4 * (y // 4), 2, 27) + timedelta(days=rng.randint(0, 3)),
        date(y, rng.choice([1, 3, 5, 7, 8, 10, 12]), rng.choice([30, 31])),
        date(y, rng.randint(1, 12), rng.randint(1, 28)),
        date(y, 12, 30) + timedelta(days=rng.randint(0, 3))])


def moment(rng, x):
    us = rng.choice([0, 0, 43200 * 10 ** 6, 86399999999, 1, rng.randint(0, 86399999999)])
    return datetime.combine(x, time(0)) + timedelta(microseconds=us)


def run(rec):
    rng = rec.rng
    for part in range(8):
        s = rec.stream("TraceDayCount")
        for k in range(rec.n(250, 5000)):
            a = pick(rng)
            b = rng.choice([pick(rng), date(a.year + rng.randint(1, 3), rng.randint(1, 12), rng.randint(1, 28)), a + timedelta(days=rng.choice([0, 1, 2, 28, 29, 30, 31, 365, 366, rng.randint(0, 4000)])),
                            date(a.year + rng.randint(0, 8), 2, 28), date(a.year, 12, 31), date(a.year + 1, 1, 1)])
            c = rng.choice(DCC)
            s.ev("accrual", f"{part}.{k}:{c.name}:{iso(a)}:{iso(b)}", acc(a, b, c), a=d(a), b=d(b), conv=c.name)
        for k in range(rec.n(150, 3000)):
            x = pick(rng)
            y = rng.choice([x, x + timedelta(days=1), pick(rng), x + timedelta(days=rng.randint(0, 900))])
            a, b = moment(rng, x), moment(rng, y)
            mode = rng.randint(0, 3)
            if mode == 0:
                b = y                   # a date stands for its midnight
            elif mode == 1:
                a = x
            c = rng.choice(DCC)
            fa = a if isinstance(a, datetime) else datetime.combine(a, time(0))
            fb = b if isinstance(b, datetime) else datetime.combine(b, time(0))
            s.ev("accrual_dt", f"{part}.{k}:{c.name}:{a.isoformat()}:{b.isoformat()}", acc(a, b, c), a=dt(fa), b=dt(fb), conv=c.name)
        for k, c in enumerate((None, "no such convention", 7.5, PaymentFrequency.ANNUAL)):
            a = pick(rng)
            b = a + timedelta(days=rng.randint(0, 800))
            s.ev("unknown", f"{part}.unknown{k}", acc(a, b, c))
        # consecutive periods: the accruals of a partition, and of the whole
        for k in range(rec.n(25, 400)):
            n = rng.randint(3, 6)
            timed = rng.random() < 0.4
            pts = sorted(moment(rng, pick(rng)) if timed else pick(rng) for _ in range(n))
            c = rng.choice(DCC[:4])
            outs = [acc(p, q, c) for p, q in zip(pts, pts[1:])] + [acc(pts[0], pts[-1], c)]
            bad = next((o for o in outs if not o["ok"]), None)
            s.ev("partition", f"{part}.{k}:{c.name}:{pts[0].isoformat()}", bad or {"ok": True, "v": [o["v"] for o in outs]}, conv=c.name)
        for k in range(rec.n(15, 200)):
            td = timedelta(days=rng.randint(-5000, 20000), seconds=rng.choice([0, rng.randint(0, 86399)]), microseconds=rng.choice([0, rng.randint(0, 999999)]))
            us = td // timedelta(microseconds=1)
            s.ev("fraction", f"{part}.{k}:fraction:{us}", call(lambda: DayCountCalculator.time_fraction_in_years(td), number), seconds=f"{us}E-6")
    # exhaustive on a window: all pairs of dates around month ends, year ends and leap days
    base = [date(y, 12, 29) + timedelta(days=i) for y in (2022, 2023) for i in range(0, 5)] + \
           [date(y, m, 1) + timedelta(days=i) for y in (2023, 2024, 2025) for m in (3, rng.randint(4, 12)) for i in range(-4, 2)]
    base = sorted(set(base))
    for c in DCC:
        s = rec.stream("TraceDayCount")
        for a in base:
            bs = [b for b in base if b >= a]
            outs = [acc(a, b, c) for b in bs]
            bad = next((o for o in outs if not o["ok"]), None)
            s.ev("accrual_row", f"row:{c.name}:{iso(a)}", bad or {"ok": True, "v": [o["v"] for o in outs]},
                 a=d(a), bs=[d(b) for b in bs], conv=c.name)
    rec.mc.append(("day counts while the end date ticks", "MCDayCount", "MCDayCount.cfg", {"Span": rec.n(420, 1600)}))
