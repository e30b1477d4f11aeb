"""Bond schedules, accrued interest and settlement."""
from bonddrv import *


def run(rec):
    rng = rec.rng
    for h in range(rec.n(420, 6000)):
        s = rec.stream("TraceBond")
        kw, tenor = params(rng)
        if rng.random() < .2:
            kw.update(settlement_convention=SettlementConvention.T_PLUS_ONE_BUSINESS, payment_frequency=PaymentFrequency.SEMI_ANNUAL,
                      day_count_convention=DayCountConvention.ACTUAL_OVER_ACTUAL, business_day_adjustment=BusinessDayAdjustment.FOLLOWING, holiday_calendar=US)
        b = build(s, h, rng.choice([UsTreasuryBond, FixedRateBond]), kw, tenor)
        if b is None:
            continue
        for k in range(rng.randint(2, 6)):
            x = later(rng, kw, tenor)
            op = rng.choice(["accrued", "accrued", "accrued", "full_price", "received", "coupon"])
            moved = [p for c in (CashflowKeys.COUPON_PAYMENTS, CashflowKeys.SINGLE_PAYMENT) for p in b[c] if p.payment_date != p.unadjusted_payment_date]
            if moved and rng.random() < .35:      # around a payment that is made later than it falls due
                p = rng.choice(moved)
                x = rng.choice([p.unadjusted_payment_date, p.payment_date]) - timedelta(days=rng.randint(0, 5))
                op = rng.choice([op, "received"])
            key = f"{h}.{k}:{op}:{x}"
            if op == "accrued":
                s.ev(op, key, call(lambda: b.calculate_accrued_interest(x), num), ref=d(x))
            elif op == "full_price":
                s.ev(op, key, call(lambda: b.get_full_price(x), num), ref=d(x))
            elif op == "coupon":
                s.ev(op, key, call(lambda: b.calculate_coupon_payment(), num))
            else:
                ps = [p for c in (CashflowKeys.COUPON_PAYMENTS, CashflowKeys.SINGLE_PAYMENT) for p in b[c]]
                here = rng.random() < .25      # without a date: when the bond settles
                s.ev(op, key, call(lambda: [bool(b.is_payment_received(p) if here else b.is_payment_received(p, x)) for p in ps]),
                     ref=d(kw["purchase_date"] if here else x))
        near = [later(rng, kw, tenor) for _ in range(2)] + [kw["maturity_date"]]
        s.ev("adjust", f"{h}:adjust", call(lambda: [exact_date(b.adjustment_function(y)) for y in near]), at=[d(y) for y in near])
        s.ev("full_price", f"{h}:price", call(lambda: b.get_full_price(), num), ref=d(kw["purchase_date"]))
        s.ev("accrued", f"{h}:end", call(lambda: b.calculate_accrued_interest(), num), ref=d(kw["purchase_date"]))
    rec.mc.append(("settlement moving over a bond's life", "MCBond", "MCBond.cfg", {"Maturities": rec.n(1, 12)}))
