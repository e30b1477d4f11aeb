"""Common to the drivers that use curves."""
import math
from vlib import call, d, dt, f, exact_date
from datetime import date, datetime, timedelta
from fixedIncome.src.curves.base_curve import Curve, DiscountCurve, KnotValuePair
from fixedIncome.src.curves.curve_enumerations import InterpolationMethod, InterpolationSpace, CurveIndex, EndBehavior
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection

METHODS = list(InterpolationMethod)
ACTUAL = [c for c in DayCountConvention if c.name.startswith("ACTUAL")]
MINK = {"previous": 2, "linear": 2, "quadratic": 3, "cubic": 4}


def num(v):
    """A plain finite number (numpy scalars and 0-d arrays included)."""
    import numpy as np
    if isinstance(v, bool) or (isinstance(v, np.ndarray) and v.ndim):
        raise TypeError("not a number")
    v = float(v)
    if not math.isfinite(v):
        raise ValueError("not finite")
    return f(v)


def when(x):
    return dt(x) if isinstance(x, datetime) else {"d": d(x), "s": "0"}


def knots_of(pairs):
    return [{**when(t), "v": f(v)} for t, v in pairs]


def shape_knots(v):
    out = []
    for p in v:
        t, x = p.knot, p.value
        out.append({**when(t), "v": num(x)})
    return out


def curve_rec(pairs, method, dcc, ref, left, right):
    return {"knots": knots_of(pairs), "method": method.value, "dcc": dcc.name, "ref": when(ref),
            "left": left.name, "right": right.name}


def size(rng, lo, hi, big, often=.04):
    """Mostly lo..hi; now and then up to big."""
    return rng.randint(hi, big) if rng.random() < often else rng.randint(lo, hi)


def random_dates(rng, n, first, lo=3, hi=500):
    """n increasing dates, the first one given."""
    out = [first]
    step = rng.choice([rng.randint(lo, 40), rng.randint(lo, hi)])
    while len(out) < n:
        out.append(out[-1] + timedelta(days=rng.randint(max(1, step // 2), step + 1)))
    return out


def random_adj(rng, base, span):
    """(the specification's adjustment, the library's)"""
    kind = rng.choice(["none", "const", "linear", "keyrates", "keyrates"])
    if kind == "none":
        return {"kind": "none"}, None
    if kind == "const":
        a = rng.uniform(-0.01, 0.01)
        return {"kind": "const", "a": f(a)}, (lambda x: a)
    if kind == "linear":
        a, b = rng.uniform(-0.01, 0.01), rng.uniform(-1e-5, 1e-5)
        return {"kind": "linear", "a": f(a), "b": f(b), "from": d(base)}, (lambda x: a + b * (d(x) - d(base)))
    return keyrate_adj(rng, base, span)


def keyrate_adj(rng, base, span, n=None):
    n = n or size(rng, 1, 4, 15, .06)
    ds = sorted(rng.sample(range(-10, max(span, n + 12)), n))
    ds = [base + timedelta(days=x) for x in ds]
    dcc = rng.choice(ACTUAL)
    bump = rng.choice([0.0001, -0.002, rng.uniform(-0.01, 0.01)])
    krs = [KeyRate(dcc, x) for x in ds]
    col = KeyRateCollection(krs)
    col.set_bump_val(bump)
    hs = hats(ds, dcc, bump)
    if rng.random() < .2:       # one of them alone
        i = rng.randrange(n)
        return {"kind": "keyrates", "hats": [hs[i]]}, krs[i]
    return {"kind": "keyrates", "hats": hs}, col


def hats(ds, dcc, bump):
    o = [d(x) for x in ds]
    return [{"d": o[i], "dcc": dcc.name, "bump": f(bump), "prior": o[i - 1] if i else 0,
             "next": o[i + 1] if i + 1 < len(o) else 0} for i in range(len(o))]


def discount_curve(rng, ref, span, dcc=None, method=None):
    """A discount curve with decaying factors: (record, object, last date)."""
    method = method or rng.choice(METHODS)
    dcc = dcc or rng.choice(ACTUAL)
    n = size(rng, max(MINK[method.value], 3), 7, 24, .05 if span > 400 else 0)
    ds = [ref + timedelta(days=round(span * i / (n - 1)) + (rng.randint(-2, 2) if 0 < i < n - 1 and span > 8 * n else 0)) for i in range(n)]
    r = rng.uniform(0.0, 0.08)
    pairs = [(x, math.exp(-r * (x - ref).days / 365.0) * rng.uniform(0.995, 1.005) if i else 1.0) for i, x in enumerate(ds)]
    left, right = rng.choice(list(EndBehavior)), rng.choice(list(EndBehavior))
    shuffled = pairs[:]
    rng.shuffle(shuffled)
    obj = DiscountCurve([KnotValuePair(*p) for p in shuffled], method, CurveIndex.NONE, dcc, ref, left, right)
    return curve_rec(shuffled, method, dcc, ref, left, right), obj, ds[-1]


# --------------------------------------------------------------------------- yield curves and instruments

from fixedIncome.src.assets.base_cashflow import Cashflow, Payment, ZeroCoupon, CashflowKeys
from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond
from fixedIncome.src.assets.credit.corporate_bond import FixedRateBond
from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurve, YieldCurveFactory
from fixedIncome.src.scheduling_tools.schedule_enumerations import (PaymentFrequency, SettlementConvention,
                                                                    BusinessDayAdjustment)

COUPONS = [PaymentFrequency.ANNUAL, PaymentFrequency.SEMI_ANNUAL, PaymentFrequency.QUARTERLY]
PLUS = [c for c in SettlementConvention if "PLUS" in c.name and "BUSINESS" in c.name]


def inst_of(x):
    """The specification's view of an instrument: its payments (with unadjusted dates for bonds) and settlement."""
    if isinstance(x, Cashflow):
        return {"conv": "NONE", "pay": [{"d": d(p.payment_date), "u": d(p.payment_date), "has": p.payment is not None,
                                         "v": f(p.payment or 0)} for p in x]}
    if isinstance(x, ZeroCoupon):
        return inst_of(x[CashflowKeys.SINGLE_PAYMENT])
    return {"conv": x.vp_convention.name,
            "pay": [{"d": d(p.payment_date), "u": d(p.unadjusted_payment_date), "has": True, "v": f(p.payment)}
                    for k in (CashflowKeys.COUPON_PAYMENTS, CashflowKeys.SINGLE_PAYMENT) for p in x[k]]}


def made(cls, **kw):
    """A bond that carries the convention it was made with (not all of them have it as a public attribute)."""
    b = cls(**kw)
    b.vp_convention = kw["settlement_convention"]
    return b


def last_date(x):
    """The last payment date of a bond, a zero-coupon claim or a cash flow."""
    return date.fromordinal(max(p["d"] for p in inst_of(x)["pay"]))


def random_bond(rng, ref, months=None, cls=None, price=None, conv=None, purchase=None):
    """A bond bought at ref that matures within `months` months."""
    freq = rng.choice(COUPONS)
    step = 12 // freq.value
    tenor = step * rng.randint(1, max(1, (months or 36) // step))
    unit = f"{tenor // 12}Y" if tenor % 12 == 0 and rng.random() < .6 else f"{tenor}M"
    left = rng.randint(20, max(21, tenor * 30 - 10))
    mat = ref + timedelta(days=left)
    if rng.random() < 0.2:
        mat = (mat.replace(day=28) + timedelta(days=4)).replace(day=1) - timedelta(days=1)
        if (mat - ref).days < 10 or (mat - ref).days > tenor * 30 - 5:
            mat = ref + timedelta(days=left)
    cls = cls or rng.choice([UsTreasuryBond, FixedRateBond])
    return made(cls, price=price or round(rng.uniform(92, 106), 4), coupon_rate=rng.choice([0.0, rng.uniform(0.1, 8)]) if rng.random() < .15 else round(rng.uniform(0.5, 7), 3),
               principal=rng.choice([100, 100, 1000]) if price is None else 100, tenor=unit, purchase_date=purchase or ref, maturity_date=mat,
               settlement_convention=conv or rng.choice(PLUS), payment_frequency=freq,
               business_day_adjustment=rng.choice(list(BusinessDayAdjustment)))


def random_asset(rng, ref, last):
    span = (last - ref).days
    kind = rng.choice(["cash", "cash", "zero", "bond", "bond"])
    if kind == "zero":
        return ZeroCoupon(ref + timedelta(days=rng.randint(0, span)), 0.9)
    if kind == "cash":
        return Cashflow(Payment(ref + timedelta(days=rng.randint(-20, span)), rng.choice([None, rng.uniform(-5, 110), rng.uniform(0, 5)]))
                        for _ in range(rng.randint(1, 6)))
    for _ in range(20):
        b = random_bond(rng, ref, months=max(3, span // 31))
        if b[CashflowKeys.SINGLE_PAYMENT][0].payment_date <= last and b[CashflowKeys.COUPON_PAYMENTS][-1].payment_date <= last:
            return b
    return ZeroCoupon(ref + timedelta(days=rng.randint(0, span)), 0.9)


def yield_curve(rng, ref, span, space=InterpolationSpace.CONTINUOUSLY_COMPOUNDED_YIELD, method=None, anchored=False):
    """A YieldCurve through zero-coupon instruments: (curve record, quotes, object, last date)."""
    method = method or rng.choice(METHODS)
    dcc = rng.choice(ACTUAL)
    n = size(rng, MINK[method.value], 6, 24, .06 if span > 400 else 0)
    first = ref if anchored else ref + timedelta(days=rng.choice([1, rng.randint(1, 30)]))
    ds = [first + timedelta(days=round(span * i / (n - 1))) for i in range(n)]
    if space is InterpolationSpace.DISCOUNT_FACTOR:
        r = rng.uniform(0, 0.08)
        vals = [math.exp(-r * (x - ref).days / 365) * rng.uniform(.997, 1.003) for x in ds]
    else:
        vals = [rng.uniform(-0.005, 0.08) for _ in ds]
    quotes = [rng.uniform(-0.01, 0.01) for _ in range(rng.choice([0, 0, 0, 1, n, n, n + 1, n + 3]))]
    left, right = rng.choice(list(EndBehavior)), rng.choice(list(EndBehavior))
    if space is InterpolationSpace.CONTINUOUSLY_COMPOUNDED_YIELD and not anchored:
        left = EndBehavior.CONSTANT
    pairs = list(zip(ds, vals))
    rng.shuffle(pairs)
    ins = [ZeroCoupon(*p) for p in pairs]
    qs = [KnotValuePair(p[0], q) for p, q in zip(pairs + pairs[-1:] * 3, quotes)]
    obj = YieldCurve(iter(ins) if rng.random() < .3 else ins, (None if not qs and rng.random() < .5 else qs), method, dcc, space, ref, left, right)
    return curve_rec(pairs, method, dcc, ref, left, right), [f(q) for q in quotes], obj, ds[-1]
