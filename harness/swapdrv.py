"""Swaps and futures, driven beside the specification."""
from vlib import call, d, f, exact_date
from curvedrv import *
from caldrv import US, random_calendar
from fixedIncome.src.assets.base_cashflow import Cashflow, CashflowKeys
from fixedIncome.src.assets.rates.linear_rates.interest_rate_swap import (InterestRateSwapDirection, TermInterestRateSwap,
                                                                          OvernightIndexSwap)
from fixedIncome.src.assets.rates.linear_rates.interest_rate_future import OneMonthSofrFuture
from fixedIncome.src.scheduling_tools.schedule_enumerations import Months
from fixedIncome.src.scheduling_tools.scheduler import Scheduler

SETTLE = [c for c in SettlementConvention if "BUSINESS" in c.name]
FREQ = [PaymentFrequency.ANNUAL, PaymentFrequency.SEMI_ANNUAL, PaymentFrequency.QUARTERLY]
KIND = {"term": TermInterestRateSwap, "ois": OvernightIndexSwap}


def params(rng, kind, custom=True, long=True):
    cal = US if not custom or rng.random() < .75 else random_calendar(rng)
    tenor = rng.choice([12, 24, 36, 60, 3, 6, 18, rng.randint(1, 40)] + ([120, 84, rng.choice([84, 240, 360])] if long else [])) if kind == "term" else rng.choice([12, 6, 3, rng.randint(1, 15)])
    freqs = FREQ * 6 + ([PaymentFrequency.MONTHLY, PaymentFrequency.ZERO_COUPON] if custom else [])
    buy = rng.choice([date.fromordinal(rng.randint(730000, 745000)), date(rng.randint(2001, 2040), rng.randint(1, 12), 28) + timedelta(days=rng.randint(-2, 5)),
                      date(rng.randint(2001, 2040), 12, 20) + timedelta(days=rng.randint(0, 14))])
    if rng.random() < .12:             # around the end of February in and out of leap years
        buy = date(rng.choice([2000, 2004, 2012, 2016, 2020, 2024, 2028, 2032, 2036, 2023, 2025]), 2, 26) + timedelta(days=rng.randint(-1, 4))
        tenor = rng.choice([tenor, rng.randint(12, 30)]) if kind == "term" else tenor
    return dict(float_index=CurveIndex.SOFR if kind == "ois" else CurveIndex.LIBOR_3M, direction=rng.choice(list(InterestRateSwapDirection)),
                fixed_rate=rng.choice([0.05, rng.uniform(-.01, .1), 0]), notional=rng.choice([1_000_000, 100, rng.randint(1, 10**7)]), purchase_date=buy,
                settlement_convention=rng.choice(SETTLE), tenor=f"{tenor // 12}Y" if tenor % 12 == 0 and rng.random() < .7 else f"{tenor}M",
                floating_leg_payment_frequency=rng.choice(freqs), fixed_leg_payment_frequency=rng.choice(freqs),
                floating_leg_day_count_convention=rng.choice(list(DayCountConvention)), fixed_leg_day_count_convention=rng.choice(list(DayCountConvention)),
                holiday_calendar=cal, fixing_date_for_accrual_period=rng.choice(SETTLE), payment_delay=rng.choice(SETTLE),
                business_day_adjustment=rng.choice(list(BusinessDayAdjustment))), tenor


def record(kw, tenor, kind):
    return {"kind": kind, "purchase": d(kw["purchase_date"]), "conv": kw["settlement_convention"].name, "tenor": tenor, "notional": f(kw["notional"]),
            "rate": f(kw["fixed_rate"]), "payer": kw["direction"].name == "PAYER_FIXED", "cal": kw["holiday_calendar"][0],
            "adj": kw["business_day_adjustment"].name, "fix": kw["fixing_date_for_accrual_period"].name, "delay": kw["payment_delay"].name,
            "fx": {"n": kw["fixed_leg_payment_frequency"].value, "dcc": kw["fixed_leg_day_count_convention"].name},
            "fl": {"n": kw["floating_leg_payment_frequency"].value, "dcc": kw["floating_leg_day_count_convention"].name}}


def terms(x, kw, tenor, kind):
    """What the swap says it was made with."""
    read = {k: getattr(x, k) for k in kw}
    cal = kw["holiday_calendar"]
    ok = read["holiday_calendar"] == cal[1] and read["float_index"] is kw["float_index"]
    read["holiday_calendar"] = cal if ok else ({"us": False, "days": [-1]},)
    return record(read, tenor if read["tenor"] == kw["tenor"] else -1, kind)


def build(s, rng, key, kw, tenor, kind):
    box = []
    real = {**kw, "holiday_calendar": kw["holiday_calendar"][1]}
    if (kw["fixing_date_for_accrual_period"].name, kw["payment_delay"].name, kw["business_day_adjustment"].name) == ("T_MINUS_TWO_BUSINESS", "T_PLUS_TWO_BUSINESS", "MODIFIED_FOLLOWING"):
        for k in ("fixing_date_for_accrual_period", "payment_delay", "business_day_adjustment"):
            del real[k]
    out = call(lambda: KIND[kind](**real), lambda x: (box.append(x), {
        "terms": terms(x, kw, tenor, kind), "start": exact_date(x.start_accrual_date), "end": exact_date(x.end_accrual_date),
        "knot": {"d": exact_date(x.to_knot_value_pair().knot), "v": num(x.to_knot_value_pair().value)}})[1])
    s.ev("swap", f"{key}:{kind}:{kw['tenor']}:{kw['purchase_date']}", out, swap=record(kw, tenor, kind))
    return box[0] if box else None


def periods(v):
    return [{"a": exact_date(x.start_accrual), "b": exact_date(x.end_accrual), "f": num(x.accrual_factor)} for x in v]


def pays(c):
    if not isinstance(c, Cashflow):
        raise TypeError("not a Cashflow")
    return [{"d": exact_date(p.payment_date), "has": p.payment is not None, "v": num(p.payment)} for p in c]


def leg(c):
    return {"set": False, "pay": []} if c is None else {"set": True, "pay": pays(c)}


def legs(s, key, x):
    s.ev("legs", f"{key}:legs", call(lambda: x, lambda x: {"fixed": leg(x.fixed_leg), "float": leg(x[CashflowKeys.FLOATING_LEG]),
                                                          "fixed2": leg(x[CashflowKeys.FIXED_LEG]), "float2": leg(x.floating_leg)}))


def random_rate(rng, first, last):
    """(the specification's rate, the library's)"""
    kind = rng.choice(["const", "linear", "curve", "curve"])
    if kind == "const":
        a = rng.choice([rng.uniform(-.005, .08)] * 5 + [0.0, rng.uniform(-.9, 1.5)])
        return {"kind": "const", "a": f(a)}, (lambda x: a)
    if kind == "linear":
        a, b = rng.uniform(0, .05), rng.uniform(-1e-5, 1e-5)
        return {"kind": "linear", "a": f(a), "b": f(b), "from": d(first)}, (lambda x: a + b * (d(x) - d(first)))
    method = rng.choice(METHODS)
    dcc = rng.choice(ACTUAL)
    n = rng.randint(MINK[method.value], 5)
    start = first - timedelta(days=rng.choice([10, 10, 10, 0, -3]))
    span = (last - start).days + rng.choice([40, 40, 40, -30])
    pairs = [(start + timedelta(days=round(max(span, 30) * i / (n - 1))), rng.uniform(0, .07)) for i in range(n)]
    left, right = rng.choice(list(EndBehavior)), rng.choice(list(EndBehavior))
    obj = Curve([KnotValuePair(*p) for p in pairs], method, dcc, start, left, right)
    return {"kind": "curve", "c": curve_rec(pairs, method, dcc, start, left, right)}, obj


def discount(s, rng, key, kw, tenor, x=None):
    """A discount curve around the swap's life, recorded."""
    ref = kw["purchase_date"] + timedelta(days=rng.choice([0, -6, -20, rng.randint(-5, 20 + tenor * 15)]))
    if x is not None and rng.random() < .35:        # around a payment and the end of its period
        try:
            y = rng.choice([x.generate_fixed_leg_accrual_schedule, x.generate_floating_leg_accrual_schedule])()[rng.choice([0, -1, -1, -2])].end_accrual
            ref = rng.choice([y, Scheduler.calculate_settlement_date(y, kw["payment_delay"], kw["holiday_calendar"][1])]) + timedelta(days=rng.choice([0, 0, 1, -1]))
        except (ValueError, IndexError):
            pass
    end = kw["purchase_date"] + timedelta(days=int(tenor * 30.5) + rng.choice([40, 40, 40, -60]))
    rc, obj, last = discount_curve(rng, ref, max(60, (end - ref).days))
    s.ev("discount", f"{key}:discount", None, curve=rc)
    return obj


def adjust(s, key, x, dates):
    s.ev("adjust", f"{key}:adjust", call(lambda: [exact_date(x.date_adjustment_function(y)) for y in dates]), at=[d(y) for y in dates])
