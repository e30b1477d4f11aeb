"""Moving by business days, date adjustment and settlement."""
from vlib import call, d, exact_date
from caldrv import *
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.schedule_enumerations import SettlementConvention, BusinessDayAdjustment

ADJ = {"FOLLOWING": Scheduler.following_date_adjustment,
       "MODIFIED_FOLLOWING": Scheduler.modified_following_date_adjustment}


def interesting(rng):
    y = rng.choice([rng.randint(1990, 2090)] * 5 + [1900, 2100, rng.randint(1895, 2400)])
    return rng.choice([
        date.fromordinal(rng.randint(700000, 770000)),
        date(y, 12, rng.randint(20, 31)), date(y, 1, rng.randint(1, 4)),
        date(y, rng.randint(1, 12), 28) + timedelta(days=rng.randint(0, 4)),
        date(y, 7, rng.randint(1, 6)), date(y, 11, rng.randint(9, 30)), date(y, 5, rng.randint(26, 31))])


def run(rec):
    rng = rec.rng
    cals = [US] * 4 + [random_calendar(rng) for _ in range(rec.n(8, 40))]
    # a calendar whose holidays change
    for h in range(rec.n(40, 500)):
        s = rec.stream("TraceSched")
        c = Held(rec, s, f"d{h}")
        base = interesting(rng)
        for k in range(rng.randint(6, 14)):
            if rng.random() < .35:
                c.change()
            lib = c.lib
            x = base + timedelta(days=rng.randint(-3, 3))
            op = rng.choice(["add_business_days", "adjust", "settle"])
            if op == "add_business_days":
                n = rng.randint(-4, 4)
                s.ev(op, c.k(f"{op}:{iso(x)}:{n}"), call(lambda: Scheduler.add_business_days(x, n, lib), exact_date), d=d(x), n=n)
            elif op == "adjust":
                name = rng.choice(list(ADJ))
                s.ev(op, c.k(f"{op}:{name}:{iso(x)}"), call(lambda: ADJ[name](x, lib), exact_date), d=d(x), conv=name)
            else:
                cv = rng.choice(list(SettlementConvention)[:7])
                s.ev(op, c.k(f"{op}:{cv.name}:{iso(x)}"), call(lambda: Scheduler.calculate_settlement_date(x, cv, lib), exact_date), d=d(x), conv=cv.name)
            del lib
    # single calls
    for part in range(8):
        s = rec.stream("TraceSched")
        for k in range(rec.n(120, 2500)):
            spec, lib = rng.choice(cals)
            x = interesting(rng)
            n = rng.choice([0, 1, -1, 2, -2, 3, -3, rng.randint(-12, 12)])
            s.ev("add_business_days", f"{part}.{k}:{iso(x)}:{n}",
                 call(lambda: Scheduler.add_business_days(x, n, lib), exact_date), cal=spec, d=d(x), n=n)
            for name, fn in ADJ.items():
                s.ev("adjust", f"{part}.{k}:{name}:{iso(x)}", call(lambda: fn(x, lib), exact_date), cal=spec, d=d(x), conv=name)
            c = rng.choice(list(SettlementConvention))
            s.ev("settle", f"{part}.{k}:{c.name}:{iso(x)}",
                 call(lambda: Scheduler.calculate_settlement_date(x, c, lib), exact_date), cal=spec, d=d(x), conv=c.name)
    s = rec.stream("TraceSched")
    for k in range(rec.n(10, 100)):
        spec, lib = rng.choice(cals)
        x = interesting(rng)
        n = rng.choice([-1, 1]) * rng.choice([rng.randint(13, 80), rng.randint(240, 300), rng.randint(80, 600)])
        s.ev("add_business_days", f"far{k}:{iso(x)}:{n}", call(lambda: Scheduler.add_business_days(x, n, lib), exact_date), cal=spec, d=d(x), n=n)
    # every convention on every day around every year end, and of one year
    s = rec.stream("TraceSched")
    days = [date(y, 12, 25) + timedelta(days=i) for y in range(1995, rec.n(2035, 2095)) for i in range(0, 12, rec.n(2, 1))]
    y = rng.randint(2000, 2050)
    days += [date(y, 1, 1) + timedelta(days=i) for i in range(0, 366)]
    for x in days:
        c = rng.choice(list(SettlementConvention)[:7])
        s.ev("settle", f"ye:{c.name}:{iso(x)}", call(lambda: Scheduler.calculate_settlement_date(x, c, US[1]), exact_date),
             cal=US[0], d=d(x), conv=c.name)
        name = rng.choice(list(ADJ))
        s.ev("adjust", f"ye:{name}:{iso(x)}", call(lambda: ADJ[name](x, US[1]), exact_date), cal=US[0], d=d(x), conv=name)
    # walks: each step starts from the date the previous one returned
    for w in range(rec.n(40, 400)):
        spec, lib = rng.choice(cals)
        s = rec.stream("TraceSched")
        cur = interesting(rng)
        s.ev("walk_start", f"{w}:{iso(cur)}", d=d(cur))
        cur = Scheduler.add_business_days(cur, 0, lib)
        s.ev("walk_jump", f"{w}:start", {"ok": True, "v": d(cur)}, cal=spec, n=0)
        for k in range(rng.randint(3, 12)):
            op = rng.choice(["walk_add", "walk_add", "walk_sub", "walk_jump", "walk_adjust"])
            kw = {"cal": spec}
            if op == "walk_add":
                out = call(lambda: Scheduler.add_single_business_day(cur, lib), exact_date)
            elif op == "walk_sub":
                out = call(lambda: Scheduler.subtract_single_business_day(cur, lib), exact_date)
            elif op == "walk_jump":
                kw["n"] = rng.randint(-6, 6)
                out = call(lambda: Scheduler.add_business_days(cur, kw["n"], lib), exact_date)
            else:
                kw["conv"] = rng.choice(list(ADJ))
                out = call(lambda: ADJ[kw["conv"]](cur, lib), exact_date)
            s.ev(op, f"{w}.{k}", out, **kw)
            if not out["ok"]:
                break
            cur = date.fromordinal(out["v"])
    # a day that is not a business day is refused, not moved
    s = rec.stream("TraceSched")
    for k in range(rec.n(100, 800)):
        spec, lib = rng.choice(cals)
        x = interesting(rng)
        s.ev("add_single", f"{k}:{iso(x)}", call(lambda: Scheduler.add_single_business_day(x, lib), exact_date), cal=spec, d=d(x))
    rec.mc.append(("business-day walk by single days against the closed definitions", "MCWalk", "MCWalk.cfg",
                   {"Starts": rec.n(40, 400), "Steps": 9}))
