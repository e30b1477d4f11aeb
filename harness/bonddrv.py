"""Bonds, driven beside the specification."""
from vlib import call, d, f, exact_date
from curvedrv import num, COUPONS, PLUS
from caldrv import US, random_calendar
from datetime import date, timedelta
from dateutil.relativedelta import relativedelta
from fixedIncome.src.assets.base_cashflow import CashflowKeys
from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond
from fixedIncome.src.assets.credit.corporate_bond import FixedRateBond
from fixedIncome.src.scheduling_tools.schedule_enumerations import (PaymentFrequency, SettlementConvention, DayCountConvention,
                                                                    BusinessDayAdjustment)

SETTLE = [c for c in SettlementConvention if "BUSINESS" in c.name]


def pay(p):
    return {"u": exact_date(p.unadjusted_payment_date), "d": exact_date(p.payment_date), "v": num(p.payment)}


def terms(b, kw, tenor):
    """What the bond says it was made with."""
    read = {k: getattr(b, k, kw[k]) if k == "settlement_convention" else getattr(b, k) for k in kw}
    cal = kw["holiday_calendar"]
    read["holiday_calendar"] = cal if read["holiday_calendar"] == cal[1] else ({"us": False, "days": [-1]},)
    return record(read, tenor if read["tenor"] == kw["tenor"] else -1)


def shape_bond(b, kw, tenor):
    k = b.to_knot_value_pair()
    return {"terms": terms(b, kw, tenor), "dated": exact_date(b.dated_date), "coupons": [pay(p) for p in b[CashflowKeys.COUPON_PAYMENTS]],
            "principal": [pay(p) for p in b[CashflowKeys.SINGLE_PAYMENT]], "settlement": exact_date(b.settlement_date),
            "accrued": num(b.accrued_interest), "full": num(b.full_price), "knot": {"d": exact_date(k.knot), "v": num(k.value)}}


def params(rng, zero=True, plus=False, months=360, custom=True, early=True):
    freq = rng.choice(COUPONS * 2 + ([PaymentFrequency.ZERO_COUPON] if zero else []))
    tenor = rng.choice([rng.choice([3, 6, 12, 24, 36, 60, 84, 120, 360]), rng.randint(1, 40)])
    tenor = min(tenor, months)
    unit = f"{tenor // 12}Y" if tenor % 12 == 0 and rng.random() < .7 else f"{tenor}M"
    mat = rng.choice([date.fromordinal(rng.randint(732000, 752000)), date(rng.randint(2005, 2055), rng.choice([1, 3, 5, 8, 12]), 31),
                      date(2000 + 4 * rng.randint(1, 13), 2, 29), date(rng.randint(2005, 2055), 2, 28), date(rng.randint(2005, 2055), rng.randint(1, 12), 15)])
    if tenor > 12 and rng.random() < .12:      # interest starts at the end of a February
        unit = f"{tenor}M"
        m = 2 + tenor
        mat = date(2000 + 4 * rng.randint(1, 12) + rng.choice([0, 0, 1]) + (m - 1) // 12, (m - 1) % 12 + 1, 28) + timedelta(days=rng.randint(0, 3))
    life = int(tenor * 30.4)
    purchase = mat - timedelta(days=rng.choice([rng.randint(6, max(7, life - 6)), rng.randint(6, max(7, min(life - 6, 400)))]))
    if early and rng.random() < .25:      # around coupon dates, the dated date and maturity
        step = 12 // (freq.value or 2)
        purchase = mat - relativedelta(months=step * rng.randint(0, max(1, tenor // step))) + timedelta(days=rng.randint(-6, 3))
    cal = US if not custom or rng.random() < .85 else random_calendar(rng)
    return dict(price=rng.choice([100, round(rng.uniform(80, 120), 5), round(rng.uniform(80, 120), 5), round(rng.choice([rng.uniform(15, 80), rng.uniform(120, 220)]), 3)]), coupon_rate=rng.choice([0, 5, round(rng.uniform(0.1, 9), 4), round(rng.uniform(0.1, 9), 4), round(rng.uniform(9, 25), 2)]),
                principal=rng.choice([100, 1000, 1000000, 50]), tenor=unit, purchase_date=purchase, maturity_date=mat,
                settlement_convention=rng.choice(PLUS if plus else SETTLE), payment_frequency=freq,
                day_count_convention=rng.choice(list(DayCountConvention)), business_day_adjustment=rng.choice(list(BusinessDayAdjustment)),
                holiday_calendar=cal), tenor


def record(kw, tenor):
    return {"mat": d(kw["maturity_date"]), "tenor": tenor, "n": kw["payment_frequency"].value, "coupon": f(kw["coupon_rate"]),
            "principal": f(kw["principal"]), "price": f(kw["price"]), "purchase": d(kw["purchase_date"]), "conv": kw["settlement_convention"].name,
            "dcc": kw["day_count_convention"].name, "adj": kw["business_day_adjustment"].name, "cal": kw["holiday_calendar"][0]}


def build(s, key, cls, kw, tenor):
    """The bond, recorded; None if it was refused."""
    box = []
    real = {**kw, "holiday_calendar": kw["holiday_calendar"][1]}
    dflt = cls is not None and kw["settlement_convention"].name == "T_PLUS_ONE_BUSINESS" and kw["payment_frequency"].name == "SEMI_ANNUAL" and \
        kw["day_count_convention"].name == "ACTUAL_OVER_ACTUAL" and kw["business_day_adjustment"].name == "FOLLOWING" and kw["holiday_calendar"][0]["us"]
    if dflt:                      # the documented defaults
        real = {k: real[k] for k in ("price", "coupon_rate", "principal", "tenor", "purchase_date", "maturity_date")}
    lead = list(real.values())[:sum(map(ord, str(key))) % 7] if len(real) > 6 or dflt else []       # the leading ones by place
    rest = {k: v for n, (k, v) in enumerate(real.items()) if n >= len(lead)}
    out = call(lambda: cls(*lead, **rest), lambda b: (box.append(b), shape_bond(b, kw, tenor))[1])
    s.ev("bond", f"{key}:{cls.__name__}:{kw['tenor']}:{kw['maturity_date']}:{kw['purchase_date']}", out, bond=record(kw, tenor))
    return box[0] if out["ok"] else None


def later(rng, kw, tenor):
    """A date one may ask about."""
    mat = kw["maturity_date"]
    life = int(tenor * 30.4)
    dated = mat - relativedelta(months=tenor)
    return rng.choice([dated + timedelta(days=rng.randint(-5, 2)), mat - timedelta(days=rng.randint(0, life)), mat - timedelta(days=rng.randint(-3, 12)), mat - timedelta(days=life + rng.randint(-12, 12)),
                       kw["purchase_date"], kw["purchase_date"] + timedelta(days=rng.randint(0, 40))])
