"""Curves calibrated to bond prices."""
import math, multiprocessing, random
from vlib import call, d, f
from curvedrv import *


def world(seed):
    """Bonds priced on a smooth curve plus a little noise."""
    rng = random.Random(seed)
    ref = date.fromordinal(rng.randint(732000, 748000))
    method = rng.choice(METHODS)
    long, many = "long" in seed, "many" in seed
    how = rng.choice(["construct", "bootstrap"]) if method.value in ("previous", "linear") else "construct"
    n = rng.randint(MINK[method.value], MINK[method.value] + 1) if not many else rng.randint(5, 9)
    span = rng.choice([200, 420, 600]) if not long and not many else rng.choice([700, 1500]) if not long else rng.choice([1500, 3000, 4500])
    level, slope = rng.choice([rng.uniform(0.0, 0.07), rng.uniform(0.0, 0.07), rng.uniform(-0.015, 0.01)]), rng.uniform(-0.01, 0.01)
    bonds, knots = [], set()
    k = 0
    while len(bonds) < n:
        k += 1
        left = round(span * (len(bonds) + 1) / n) + rng.randint(-8, 8)
        freq = rng.choice(COUPONS + [PaymentFrequency.ZERO_COUPON])
        step = 12 // (freq.value or 4)
        tenor = step * (left // (30 * step) + rng.randint(1, 3))
        coupon = round(rng.uniform(0.5, 6), 3)
        kw = dict(coupon_rate=coupon, principal=100, tenor=f"{tenor}M", purchase_date=ref, maturity_date=ref + timedelta(days=left),
                  settlement_convention=rng.choice(PLUS), payment_frequency=freq)
        cls = rng.choice([UsTreasuryBond, UsTreasuryBond, FixedRateBond])
        b = made(cls, price=100.0, **kw)
        x = last_date(b)
        if x in knots or (knots and abs(min((x - y).days for y in knots if y <= x) if any(y <= x for y in knots) else 9) < 5):
            continue
        knots.add(x)
        price = sum(p.payment * math.exp(-(level + slope * (p.payment_date - ref).days / 365) * (p.payment_date - ref).days / 365)
                    for key in (CashflowKeys.COUPON_PAYMENTS, CashflowKeys.SINGLE_PAYMENT) for p in b[key] if b.is_payment_received(p, ref))
        bonds.append(made(cls, price=round(price + rng.uniform(-0.15, 0.15), 4), **kw))
    if rng.random() < 0.6:
        rng.shuffle(bonds)
    return rng, ref, method, how, bonds


def one(seed):
    events = []
    rng, ref, method, how, bonds = world(seed)
    fac = YieldCurveFactory()
    fn = fac.construct_yield_curve if how == "construct" else fac.bootstrap_yield_curve
    given = rng.choice([list, tuple, iter])(bonds)
    box = []
    key = f"{seed}:{how}:{method.value}:{len(bonds)}"
    out = call(lambda: fn(given, method, ref), box.append, 120)
    yc = box[0] if box else None
    if out["ok"]:
        out = call(lambda: yc, lambda c: {"knots": shape_knots(c.interpolation_values), "pv": [num(c.present_value(b)) for b in bonds]})
    events.append(("calibrated", key, out, dict(
        curve=curve_rec([(last_date(b), 0) for b in bonds], method, DayCountConvention.ACTUAL_OVER_ACTUAL, ref, EndBehavior.CONSTANT, EndBehavior.CONSTANT),
        inst=[{**inst_of(b), "price": f(b.price)} for b in bonds])))
    if yc is not None and out["ok"]:
        last = max(last_date(b) for b in bonds)
        for k in range(3):
            x = ref + timedelta(days=rng.randint(0, (last - ref).days + 30))
            events.append(("value", f"{key}:value{k}", call(lambda: yc(x), num), dict(t=when(x), adj={"kind": "none"})))
        a = random_asset(rng, ref, last)
        adj, fx = random_adj(rng, ref, (last - ref).days)
        events.append(("pv", f"{key}:pv", call(lambda: yc.present_value(a, fx), num), dict(inst=inst_of(a), space="CONTINUOUSLY_COMPOUNDED_YIELD", adj=adj)))
    return events


def run(rec):
    seeds = [f"{rec.seed}-{i}" for i in range(rec.n(40, 320))] + [f"{rec.seed}-long{i}" for i in range(rec.n(4, 24))] + [f"{rec.seed}-many{i}" for i in range(rec.n(6, 40))]
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for events in pool.imap(one, seeds, chunksize=1):
            s = rec.stream("TraceCurve")
            for op, key, out, kw in events:
                s.ev(op, key, out, **kw)
