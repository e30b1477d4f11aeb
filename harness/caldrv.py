"""Common to the calendar drivers: the library's calendar and generated ones, in both languages."""
from datetime import date, timedelta
from fixedIncome.src.scheduling_tools.holidays import (Holiday, US_FEDERAL_HOLIDAYS, us_federal_holiday_adjustment,
                                                       get_next_weekday, generate_all_holidays, generate_holiday_dates)
from fixedIncome.src.scheduling_tools.schedule_enumerations import Weekdays, Months

US = ({"us": True, "t": []}, US_FEDERAL_HOLIDAYS)
WD = list(Weekdays)


def template(m, dd, rule, wd):
    if rule == "federal":
        return Holiday(m, dd, us_federal_holiday_adjustment)
    if rule == "next":
        return Holiday(Months(m), dd, lambda x, w=WD[wd]: get_next_weekday(x, w))
    if rule == "shift":
        return Holiday(m, dd, lambda x, k=wd: x + timedelta(days=k))
    return Holiday(m, dd, lambda x: x)


def calendar_of(tpls):
    """(specification's calendar, library's calendar)"""
    return {"us": False, "t": tpls}, {f"H{i}": template(t["m"], t["d"], t["rule"], t["wd"]) for i, t in enumerate(tpls)}


def random_calendar(rng):
    out = []
    for _ in range(rng.randint(0, 6) if rng.random() < .94 else rng.randint(18, 34)):
        rule = rng.choice(["federal", "next", "none", "shift"])
        m = rng.choice([1, 1, 12, 12, rng.randint(1, 12)])
        dd = rng.choice([1, 2, 28, 27, rng.randint(1, 28)] + ([31, 30] if m in (1, 12) else []))
        wd = rng.randint(0, 6) if rule == "next" else rng.randint(-3, 3) if rule == "shift" else 0
        out.append({"m": m, "d": dd, "rule": rule, "wd": wd})
    return calendar_of(out)


def iso(x):
    return x.isoformat()


class Held:
    """A calendar kept for a while, recorded: holidays are added, moved and dropped between questions."""
    def __init__(self, rec, s, key):
        self.rng, self.s, self.key, self.n = rec.rng, s, key, 0
        self.lib = None
        self.hold()

    def k(self, what):
        self.n += 1
        return f"{self.key}.{self.n}:{what}"

    def rule(self):
        while True:
            spec, lib = random_calendar(self.rng)
            if spec["t"]:
                return spec["t"][0], next(iter(lib.values()))

    def hold(self):
        """Another calendar, at best where the last one was."""
        us = self.rng.random() < .3
        self.lib = None
        spec, lib = US if us else random_calendar(self.rng)
        self.lib = dict(lib)
        lib = None
        self.names = list(self.lib)
        self.s.ev("cal_hold", self.k("hold"), rules=spec)

    def change(self):
        rng = self.rng
        op = rng.choice(["put", "put", "new", "drop", "hold"])
        if op == "hold":
            return self.hold()
        if op == "drop" and self.names:
            i = rng.randrange(len(self.names))
            del self.lib[self.names.pop(i)]
            self.s.ev("cal_drop", self.k("drop"), at=i + 1)
            return
        t, h = self.rule()
        if op == "put" and self.names:
            i = rng.randrange(len(self.names))
        else:
            i = len(self.names)
            self.names.append(f"N{self.n}")
        self.lib[self.names[i]] = h
        self.s.ev("cal_put", self.k("put"), at=i + 1, rule=t)
