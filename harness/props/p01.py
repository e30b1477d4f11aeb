"""Holiday listings and business-day status."""
from vlib import call, d, exact_date
from caldrv import *
from fixedIncome.src.scheduling_tools.scheduler import Scheduler


def ords(s):
    return sorted(exact_date(x) for x in s)


def boolean(x):
    if x is not True and x is not False:
        raise TypeError("not a boolean")
    return x


def spoil(rng, shape):
    """The caller keeps the answer and does with it what it likes."""
    def f(v):
        out = shape(v)
        if isinstance(v, set):
            v.add(date(1999, 1, 4)) if rng.random() < .5 else v.clear()
        elif isinstance(v, list):
            v.append(date(1999, 1, 4)) if rng.random() < .5 else v.clear()
        return out
    return f


def desk(rec, h):
    """Questions about a calendar whose holidays change."""
    rng = rec.rng
    s = rec.stream("TraceSched")
    c = Held(rec, s, f"d{h}")
    y0 = rng.randint(1990, 2080)
    for k in range(rng.randint(8, 16)):
        if rng.random() < .35:
            c.change()
        a = y0 + rng.choice([0, 0, 0, 1])
        b = a + rng.choice([0, 0, 1, 3])
        op = rng.choice(["holidays", "holidays_named", "is_business_day", "is_business_day", "between"])
        lib = c.lib
        if op == "holidays":
            s.ev(op, c.k(f"{op}:{a}-{b}"), call(lambda: generate_all_holidays(a, b, lib), spoil(rng, ords)), **{"from": a, "to": b})
        elif op == "holidays_named" and c.names:
            i = rng.randrange(len(c.names))
            s.ev(op, c.k(f"{op}:{i}:{a}-{b}"), call(lambda: generate_holiday_dates(c.names[i], a, b, lib), spoil(rng, ords)), index=i + 1, **{"from": a, "to": b})
        elif op == "between":
            x = date(a, rng.choice([1, 7, 12]), 1)
            y = x + timedelta(days=40)
            s.ev(op, c.k(f"{op}:{iso(x)}"), call(lambda: Scheduler.generate_business_days(x, y, lib), spoil(rng, lambda v: [exact_date(x) for x in v])), a=d(x), b=d(y))
        else:
            near = sorted(t for t in generate_all_holidays(a - 1, a + 1, lib)) or [date(a, 1, 1)]
            x = rng.choice(near) + timedelta(days=rng.choice([0, 0, 0, 1, -1]))
            s.ev("is_business_day", c.k(f"day:{iso(x)}"), call(lambda: boolean(Scheduler.is_business_day(x, lib))), d=d(x))
        del lib


def run(rec):
    rng = rec.rng
    for h in range(rec.n(60, 800)):
        desk(rec, h)
    lo, hi = (1985, 2085) if rec.quick else (1900, 2320)     # the calendar repeats after 400 years
    cals = [US] + [random_calendar(rng) for _ in range(rec.n(12, 60))]

    for ci, (spec, lib) in enumerate(cals):
        s = rec.stream("TraceSched")
        spans = [(2021, 2022), (2022, 2022), (2000, 2010)] + [tuple(sorted((rng.randint(1950, 2100), rng.randint(1950, 2100))))
                                                              for _ in range(6)]
        for a, b in spans:
            s.ev("holidays", f"{ci}:{a}-{b}", call(lambda: generate_all_holidays(a, b, lib), ords), cal=spec, **{"from": a, "to": b})
        for name in lib:
            i = list(lib).index(name)
            a = rng.randint(1950, 2080)
            b = a + rng.randint(0, 30)
            s.ev("holidays_named", f"{ci}:{name}:{a}-{b}", call(lambda: generate_holiday_dates(name, a, b, lib), ords),
                 cal=spec, index=i + 1, **{"from": a, "to": b})

    # every day of a year, asked one by one
    def year(s, y, spec, lib, ci):
        a, b = date(y, 1, 1), date(y, 12, 31)
        days = [date.fromordinal(o) for o in range(d(a), d(b) + 1)]
        s.ev("business_days", f"{ci}:{y}", call(lambda: [d(x) for x in days if boolean(Scheduler.is_business_day(x, lib))]),
             cal=spec, a=d(a), b=d(b))

    for y in range(lo, hi + 1):
        if y % 10 == 0 or y == lo:
            s = rec.stream("TraceSched")
        year(s, y, *US, "US")
    for ci, (spec, lib) in enumerate(cals[1:]):
        s = rec.stream("TraceSched")
        for y in rng.sample(range(1950, 2101), rec.n(3, 12)):
            year(s, y, spec, lib, ci)

    # next weekday
    s = rec.stream("TraceSched")
    for _ in range(rec.n(300, 3000)):
        x = date.fromordinal(rng.randint(700000, 770000))
        w = rng.choice(WD)
        s.ev("next_weekday", f"{iso(x)}:{w.name}", call(lambda: Scheduler.get_next_weekday(x, w), exact_date), d=d(x), wd=w.value)
    # all business days of an interval, interval ends anywhere (also empty intervals)
    s = rec.stream("TraceSched")
    for k in range(rec.n(60, 500)):
        spec, lib = rng.choice(cals + [US] * 6)
        o = rng.choice([rng.randint(700000, 770000), date(rng.randint(1990, 2080), 12, rng.randint(20, 31)).toordinal()])
        a, b = date.fromordinal(o), date.fromordinal(o + rng.choice([-3, 0, 1, 5, 40, 400]))
        s.ev("between", f"{k}:{iso(a)}:{iso(b)}",
             call(lambda: Scheduler.generate_business_days(a, b, lib), lambda v: [exact_date(x) for x in v]),
             cal=spec, a=d(a), b=d(b))
    for k in range(rec.n(3, 12)):
        spec, lib = rng.choice(cals + [US] * 6)
        o = rng.randint(700000, 765000)
        a, b = date.fromordinal(o), date.fromordinal(o + rng.randint(2500, 5500))
        s.ev("between", f"long{k}:{iso(a)}:{iso(b)}", call(lambda: Scheduler.generate_business_days(a, b, lib), lambda v: [exact_date(x) for x in v]), cal=spec, a=d(a), b=d(b))
    rec.mc.append(("calendar arithmetic, a day at a time", "MCCalendar", "MCCalendar.cfg",
                   {"From": 2000 if rec.quick else 1900, "To": 2099 if rec.quick else 2399}))
