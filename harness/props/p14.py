"""Duration, convexity, Macaulay duration."""
from bonddrv import *
from props.p13 import fair


def run(rec):
    rng = rec.rng
    for h in range(rec.n(260, 3500)):
        s = rec.stream("TraceBond")
        kw, tenor = params(rng, zero=False, plus=True, early=False)
        if (kw["maturity_date"] - kw["purchase_date"]).days < 40 or tenor < 3:
            continue
        cls = rng.choice([UsTreasuryBond, FixedRateBond])
        kw = fair(rng, kw, tenor, cls)
        b = build(s, h, cls, kw, tenor)
        if b is None:
            continue
        for k in range(rng.randint(1, 3)):
            op = rng.choice(["risk", "risk", "pv_deriv", "macaulay"])
            key = f"{h}.{k}:{op}"
            if op == "risk":
                s.ev(op, key, call(lambda: {"duration": num(b.duration()), "convexity": num(b.convexity()), "ytm": num(b.yield_to_maturity())}))
            elif op == "pv_deriv":
                r, o = rng.choice([0.0, rng.uniform(-.01, .12), rng.uniform(-.01, .12)]), rng.choice([0, 0.00005, -0.00005, 0.01, -0.01, rng.uniform(-.02, .05)])
                pos = rng.random() < .5
                s.ev(op, key, call(lambda: b.pv_deriv(ytm=r) if o == 0 else b.pv_deriv(o, r) if pos else b.pv_deriv(offset=o, ytm=r), num), rate=f(r), offset=f(o))
            elif cls is FixedRateBond:
                r = rng.choice([0.0, rng.uniform(-.01, .12), rng.uniform(-.01, .12)])
                x = kw["purchase_date"] + timedelta(days=rng.choice([0, rng.randint(0, 30)]))
                own = x == kw["purchase_date"] and rng.random() < .6
                s.ev(op, key, call(lambda: b.macaulay_duration(r) if own else b.macaulay_duration(r, x), num), ref=d(x), rate=f(r))
