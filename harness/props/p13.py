"""Full price, discounting at a rate, yield to maturity."""
from bonddrv import *
from curvedrv import discount_curve


def fair(rng, kw, tenor, cls):
    """The same bond at a price with a plausible yield."""
    real = {**kw, "holiday_calendar": kw["holiday_calendar"][1], "price": 100.0}
    try:
        b = cls(**real)
        y = rng.choice([rng.uniform(0.0, 0.1), rng.uniform(-0.01, 0.15), rng.uniform(-0.01, 0.15), rng.uniform(.1, .9)])
        full = b.discount_cashflows_by_fixed_rate(y) / kw["principal"] * 100
        price = round(full - b.accrued_interest / kw["principal"] * 100, 6)
    except Exception:
        return kw
    if not 2 < price < 400:
        return kw
    return {**kw, "price": price}


def settling(rng, kw, tenor):
    """A purchase that settles on a coupon date or on the dated date."""
    step = 12 // kw["payment_frequency"].value
    day = kw["maturity_date"] - relativedelta(months=rng.choice([tenor, step * rng.randint(1, max(1, tenor // step))]))
    n = ["T_PLUS_ZERO_BUSINESS", "T_PLUS_ONE_BUSINESS", "T_PLUS_TWO_BUSINESS", "T_PLUS_THREE_BUSINESS"]
    n = n.index(kw["settlement_convention"].name) if kw["settlement_convention"].name in n else 1
    x = day
    while n:
        x -= timedelta(days=1)
        n -= x.weekday() < 5
    return x if (kw["maturity_date"] - x).days > 40 else kw["purchase_date"]


def run(rec):
    rng = rec.rng
    curves = []          # (curve, object) made lately: they price other bonds too
    for h in range(rec.n(300, 4000)):
        s = rec.stream("TraceBond")
        kw, tenor = params(rng, zero=False, plus=rng.random() < .9, early=False)
        if (kw["maturity_date"] - kw["purchase_date"]).days < 40 or tenor < 3:
            continue
        cls = rng.choice([UsTreasuryBond, FixedRateBond])
        kw = fair(rng, kw, tenor, cls)
        if rng.random() < .12:           # at par, settling where no interest has accrued
            kw.update(price=100, purchase_date=settling(rng, kw, tenor))
        b = build(s, h, cls, kw, tenor)
        if b is None:
            continue
        asked = [kw["purchase_date"]]
        for k in range(rng.randint(2, 5)):
            x = rng.choice([rng.choice(asked), kw["purchase_date"], kw["purchase_date"] + timedelta(days=rng.randint(0, 30)),
                            kw["purchase_date"] + timedelta(days=rng.randint(0, (kw["maturity_date"] - kw["purchase_date"]).days - 35))])
            op = rng.choice(["ytm", "ytm", "full_price", "pv_rate", "pv_rate", "pv_curve"])
            key = f"{h}.{k}:{op}:{x}"
            asked.append(x)
            own = x == kw["purchase_date"] and rng.random() < .7
            if op == "full_price":
                s.ev(op, key, call(lambda: b.get_full_price() if own else b.get_full_price(x), num), ref=d(x))
            elif op == "pv_curve":
                # several curves of one reference date, and the same curves again
                days = (kw["maturity_date"] - x).days + rng.choice([5, 5, 5, 400, -1])
                these = [discount_curve(rng, x, days)[:2] for _ in range(rng.choice([1, 2, 2]))]
                these += rng.sample(these, 1) + rng.sample(curves, min(len(curves), 1))
                curves = (curves + these)[-8:]
                for n, (c, obj) in enumerate(these):
                    via = rng.random() < .3
                    s.ev(op, f"{key}:{n}", call(lambda: obj.present_value(b) if via else b.present_value(obj), num), curve=c)
            elif op == "pv_rate":
                r = rng.choice([0.0, rng.uniform(-0.02, 0.2)])
                s.ev(op, key, call(lambda: b.discount_cashflows_by_fixed_rate(r) if own else b.discount_cashflows_by_fixed_rate(r, x), num), ref=d(x), rate=f(r))
            elif kw["settlement_convention"] in PLUS:
                if not own and (x - kw["purchase_date"]).days > 60 and not 80 < kw["price"] < 125:
                    continue       # the old price may have no sensible yield that much later
                s.ev(op, key, call(lambda: b.yield_to_maturity() if own else b.yield_to_maturity(x), num), ref=d(x))
