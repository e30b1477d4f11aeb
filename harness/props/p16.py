"""Swap valuation and implied rates; the settlement rate of futures is P26."""
from swapdrv import *


def run(rec):
    rng = rec.rng
    for h in range(rec.n(200, 2600)):
        s = rec.stream("TraceSwap")
        kind = rng.choice(["term", "term", "ois"])
        kw, tenor = params(rng, kind, custom=rng.random() < .2)
        x = build(s, rng, h, kw, tenor, kind)
        if x is None:
            continue
        first, last = x.start_accrual_date - timedelta(days=6), x.end_accrual_date
        q = discount(s, rng, h, kw, tenor, x)
        bad = any(kw[k].value not in (1, 2, 4) for k in ("fixed_leg_payment_frequency", "floating_leg_payment_frequency"))
        for k in range(rng.randint(2, 6)):
            key = f"{h}.{k}"
            op = rng.choice(["fixed", "float", "pv", "pv", "implied", "fair", "discount"])
            r = random_rate(rng, first, last)
            if op == "discount":
                q = discount(s, rng, key, kw, tenor, x)
            elif op == "fixed":
                s.ev("fixed_leg", f"{key}:fixed", call(lambda: x.generate_fixed_leg_cashflow(), pays), set=True)
            elif op == "float":
                s.ev("float_leg", f"{key}:float", call(lambda: x.generate_floating_leg_cashflow(r[1]), pays), set=True, rate=r[0])
            elif op == "pv":
                s.ev("pv", f"{key}:pv", call(lambda: x.present_value(q), num))
            else:
                st = rng.random() < .3 and not bad
                out = call(lambda: x.implied_rate(q, r[1], set_cashflow=st) if st or rng.random() < .5 else x.implied_rate(q, r[1]), num)
                s.ev("implied", f"{key}:implied:{st}", out, set=st, rate=r[0])
                if op == "fair" and out["ok"] and not bad:
                    # a swap struck at the implied rate is worth nothing
                    kw2 = {**kw, "fixed_rate": float(out["v"])}
                    y = build(s, rng, f"{key}:fair", kw2, tenor, kind)
                    s.ev("fixed_leg", f"{key}:fair:fixed", call(lambda: y.generate_fixed_leg_cashflow(), pays), set=True)
                    s.ev("float_leg", f"{key}:fair:float", call(lambda: y.generate_floating_leg_cashflow(r[1]), pays), set=True, rate=r[0])
                    s.ev("pv", f"{key}:fair:pv", call(lambda: y.present_value(q), num))
                    x, kw = y, kw2
        s.ev("fixed_leg", f"{h}:end:fixed", call(lambda: x.generate_fixed_leg_cashflow(), pays), set=True)
        r = random_rate(rng, first, last)
        s.ev("float_leg", f"{h}:end:float", call(lambda: x.generate_floating_leg_cashflow(r[1]), pays), set=True, rate=r[0])
        s.ev("pv", f"{h}:end:pv", call(lambda: x.present_value(q), num))
        legs(s, f"{h}:end", x)
