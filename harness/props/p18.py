"""Portfolios: entries, cash, value, key rates."""
from curvedrv import *
from krdrv import kr_shape
import swapdrv
from dateutil.relativedelta import relativedelta
from fixedIncome.src.assets.credit.loan import Loan
from fixedIncome.src.portfolio.base_portfolio import Portfolio, PortfolioEntry


def loan(rng, ref, last):
    months = max(3, (last - ref).days // 31 - 2)
    x = Loan(principal=rng.choice([1000, 250.5]), interest_rate=rng.uniform(.01, .1), origination_date=ref - timedelta(days=rng.randint(0, 60)),
             term_length=relativedelta(months=rng.randint(1, months)))
    ps = x.generate_payment_schedule(x.calculate_fixed_payment_amount())
    return x, {"conv": "NONE", "pay": [{"d": d(p.payment_date), "u": d(p.payment_date), "has": True, "v": f(p.payment)} for p in ps]}


def swap(rng, ref, last):
    months = max(1, (last - ref).days // 31 - 1)
    kw, tenor = swapdrv.params(rng, "term", custom=False)
    kw["holiday_calendar"] = kw["holiday_calendar"][1]
    tenor = rng.randint(1, months)
    kw.update(tenor=f"{tenor}M", purchase_date=ref - timedelta(days=rng.randint(0, 20)))
    x = swapdrv.TermInterestRateSwap(**kw)
    fixed, float_ = x.generate_fixed_leg_cashflow(), x.generate_floating_leg_cashflow(lambda t: 0.03)
    sign = -1 if kw["direction"].name == "PAYER_FIXED" else 1
    return x, {"conv": "NONE", "pay": [{"d": d(p.payment_date), "u": d(p.payment_date), "has": True, "v": f(g * p.payment)} for c, g in ((fixed, sign), (float_, -sign)) for p in c]}


def asset(rng, ref, last, knots):
    """(asset, the specification's instrument, knot date or 0)"""
    kind = rng.choice(["zero", "bond", "bond", "swap"] + ([] if knots else ["cash", "loan"]))
    if kind == "loan" and (last - ref).days > 150:
        x, inst = loan(rng, ref, last)
        return x, inst, 0
    if kind == "swap" and (last - ref).days > 90:
        x, inst = swap(rng, ref, last)
        return x, inst, d(x.to_knot_value_pair().knot)
    while True:
        x = random_asset(rng, ref, last)
        if knots and isinstance(x, Cashflow):
            continue
        return x, inst_of(x), 0 if isinstance(x, Cashflow) else d(last_date(x))


def run(rec):
    rng = rec.rng
    for h in range(rec.n(130, 1800)):
        s = rec.stream("TracePortfolio")
        ref = date.fromordinal(rng.randint(730000, 748000))
        span = rng.choice([60, 300, 500]) if rng.random() < .94 else 3000
        knots = rng.random() < .6
        rc, q, last = discount_curve(rng, ref, span)
        yc, quotes, y, ylast = yield_curve(rng, ref, span)
        assert not any(float(v) for v in quotes) or True
        yc = {**yc, "knots": [{**k, "v": f(float(k["v"]) + float(quotes[i]))} if i < len(quotes) else k for i, k in enumerate(yc["knots"])]}
        s.ev("discount", f"{h}:discount", None, curve=rc)
        s.ev("yield_curve", f"{h}:yield", None, curve=yc)
        end = min(last, ylast)
        ids = {}
        pool = []

        def pick():
            if pool and rng.random() < .25:      # the same asset, or one with the same last date, again
                x, inst, k = rng.choice(pool)
            else:
                x, inst, k = asset(rng, ref, end, knots)
                if k and pool and rng.random() < .3:
                    k0 = rng.choice(pool)[2] or k
                    x = ZeroCoupon(date.fromordinal(k0), 0.9)
                    inst, k = inst_of(x), k0
                pool.append((x, inst, k))
            ids.setdefault(id(x), len(ids) + 1)
            qty = rng.choice([1, -1, rng.randint(-5, 20), rng.uniform(-3, 30), 0])
            return PortfolioEntry(qty, x), {"q": f(qty), "inst": inst, "id": ids[id(x)], "knot": k}

        pairs = [pick() for _ in range(rng.choice([0, 1, rng.randint(1, 4), size(rng, 1, 6, 24)]))]
        cash = rng.choice([0.0, 1000.0, rng.uniform(-500, 500)])
        given = rng.choice([list, tuple, iter])([a for a, _ in pairs])
        p = Portfolio(given) if cash == 0 and rng.random() < .5 else Portfolio(given, cash)

        def entries(v):
            return {"q": [f(e.quantity) for e in v], "id": [ids[id(e.asset)] for e in v]}
        s.ev("new", f"{h}:new", call(lambda: p, lambda v: {**entries(v.assets), "cash": num(v.cash_amount)}), entries=[r for _, r in pairs], cash=f(cash))
        n = len(pairs)
        for k in range(rng.randint(3, 8)):
            key = f"{h}.{k}"
            op = rng.choice(["pv", "pv", "pv_yield", "set_cash", "append", "look", "next", "key_rates", "ladder"])
            if op == "pv":
                s.ev(op, f"{key}:pv", call(lambda: p.present_value(q), num))
            elif op == "pv_yield":
                adj, fx = random_adj(rng, ref, span)
                s.ev(op, f"{key}:pvy:{adj['kind']}", call(lambda: y.present_value(p, fx), num), adj=adj)
            elif op == "set_cash":
                c = rng.uniform(-900, 900)
                s.ev(op, f"{key}:cash", call(lambda: setattr(p, "cash_amount", c)), cash=f(c))
            elif op == "append":
                a, r = pick()
                s.ev(op, f"{key}:append", call(lambda: p.assets.append(a)), entry=r)
                n += 1
            elif op == "look":
                s.ev(op, f"{key}:look", call(lambda: p, lambda v: {**entries(list(v)), "again": [ids[id(e.asset)] for e in v], "cash": num(v.cash_amount)}))
            elif op == "next":
                for j in range(rng.randint(1, n + 2)):
                    def step():
                        try:
                            return ids[id(next(p).asset)]
                        except StopIteration:
                            return 0
                    s.ev(op, f"{key}:next{j}", call(step))
            elif op == "key_rates" and knots:
                dcc = rng.choice(list(DayCountConvention))
                s.ev(op, f"{key}:kr", call(lambda: p.to_key_rate_collection(dcc), lambda v: [kr_shape(x) for x in v]), dcc=dcc.name)
            elif op == "ladder" and knots and n:
                dcc = rng.choice(ACTUAL)
                s.ev(op, f"{key}:ladder", call(lambda: y.calculate_pv01_risk_ladder(p, p.to_key_rate_collection(dcc)),
                                              lambda v: {"d": [exact_date(x) for x in v.get_key_rate_dates()], "v": [num(x) for x in v.get_pv01s()]}), dcc=dcc.name)
