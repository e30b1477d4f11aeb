"""Key-rate risk of assets on a yield curve."""
from vlib import call, d, f, exact_date
from curvedrv import *
from fixedIncome.src.curves.curve_enumerations import CurveIndex
from fixedIncome.src.risk.risk_metrics import Risk, RiskLadder


def stepped(ladder):
    """The dates met by stepping through the ladder until it ends."""
    out = []
    while len(out) < 50:
        try:
            out.append(exact_date(next(ladder).key_rate_date))
        except StopIteration:
            break
    return out


def mixed(ladder):
    """The dates met by stepping, with every other way of reading it in between."""
    out = []
    while len(out) < 50:
        try:
            out.append(exact_date(next(ladder).key_rate_date))
        except StopIteration:
            return out
        list(ladder), len(ladder), ladder.get_pv01s(), ladder.get_key_rate_dates(), ladder.get_indices(), ladder.risks, str(ladder), [r in ladder for r in ladder]
    return out


def refused(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def run(rec):
    rng = rec.rng
    for h in range(rec.n(45, 500)):
        s = rec.stream("TraceCurve")
        ref = date.fromordinal(rng.randint(730000, 748000))
        span = rng.choice([30, 120, 400, 400, 2500])
        rc, quotes, obj, last = yield_curve(rng, ref, span)
        s.ev("curve", f"{h}:new", call(lambda: obj, lambda c: shape_knots(c.interpolation_values)), curve=rc, quotes=quotes)
        for k in range(rng.randint(1, 2)):
            key = f"{h}.{k}"
            a = random_asset(rng, ref, last)
            n = rng.randint(1, 4)
            dcc = rng.choice(ACTUAL)
            ds = sorted(rng.sample(range(-5, max(span + 20, n + 12)), n))
            ds = [ref + timedelta(days=x) for x in ds]
            krs = [KeyRate(dcc, x) for x in ds]
            col = KeyRateCollection(rng.sample(krs, n))
            bumps = [rng.choice([0.0001, rng.uniform(-.01, .01)]) for _ in ds]
            if rng.random() < .5:
                bumps = [bumps[0]] * n
                col.set_bump_val(bumps[0])
            else:
                for kr, b in zip(krs, bumps):
                    kr.set_bump_val(b)
            hs = [{**x, "bump": f(b)} for x, b in zip(hats(ds, dcc, 0), bumps)]
            i = rng.randint(0, n - 1)
            kr = krs[i]
            s.ev("key_rate_deriv", f"{key}:deriv{i}", call(lambda: obj.calculate_key_rate_deriv(a, kr), lambda v: {"v": num(v), "bump": num(kr.bump_val)}),
                 inst=inst_of(a), hat=hs[i])
            s.ev("pv01", f"{key}:pv01:{i}", call(lambda: obj.calculate_pv01_risk(a, kr), lambda v: {
                "v": num(v.pv01), "d": exact_date(v.key_rate_date), "index": v.index.name, "bump": num(kr.bump_val)}), inst=inst_of(a), hat=hs[i])
            for again in range(rng.randint(1, 2)):
                s.ev("ladder", f"{key}:ladder{again}", call(lambda: obj.calculate_pv01_risk_ladder(a, col), lambda v: {
                    "d": [exact_date(x) for x in v.get_key_rate_dates()], "len": len(v), "v": [num(x) for x in v.get_pv01s()],
                    "indices": [x.name for x in v.get_indices()], "steps": [stepped(v), mixed(v), stepped(v)], "inside": [bool(r in v) for r in v], "bumps": [num(x.bump_val) for x in krs]}), inst=inst_of(a), hats=hs, whole=True)
            # an asset the curve cannot value is refused, and the key rates stay as they were
            far = random_asset(rng, ref, last)
            if rng.random() < .7:
                far = Cashflow([Payment(last + timedelta(days=rng.choice([1, 400, rng.randint(1, 9000)])), rng.uniform(1, 110))] +
                               [Payment(ref + timedelta(days=rng.randint(0, span)), rng.uniform(0, 5)) for _ in range(rng.randint(0, 2))])
            how = rng.choice(["deriv", "pv01", "ladder"])
            ask = {"deriv": lambda: obj.calculate_key_rate_deriv(far, kr), "pv01": lambda: obj.calculate_pv01_risk(far, kr),
                   "ladder": lambda: obj.calculate_pv01_risk_ladder(far, col)}[how]
            s.ev("risk_bumps", f"{key}:bumps:{how}", call(lambda: refused(ask), lambda v: {"refused": v, "bumps": [num(x.bump_val) for x in krs]}),
                 inst=inst_of(far), hats=hs)
            # a ladder of the caller's own risks
            risks = [Risk(key_rate_date=x, pv01=rng.uniform(-1, 1), index=rng.choice(list(CurveIndex))) for x in ds]
            rng.shuffle(risks)
            twin = [Risk(key_rate_date=x.key_rate_date + timedelta(days=1), pv01=x.pv01, index=x.index) for x in risks] + \
                   [Risk(key_rate_date=x.key_rate_date, pv01=x.pv01 + 1e-6, index=x.index) for x in risks] + \
                   [Risk(key_rate_date=x.key_rate_date, pv01=x.pv01, index=rng.choice([i for i in CurveIndex if i is not x.index])) for x in risks]
            other = [x for x in twin if x not in risks]
            given = rng.choice([list, list, tuple, iter])(risks[:])
            want = [{"d": d(x.key_rate_date), "v": f(x.pv01), "index": x.index.name} for x in risks]
            def own():
                lad = RiskLadder(given)
                if isinstance(given, list):
                    given.reverse()
                    given.append(Risk(key_rate_date=ref, pv01=5.0, index=CurveIndex.US_TREASURY))
                return lad
            s.ev("risks", f"{key}:risks", call(own, lambda v: {"risks": [{"d": exact_date(a), "v": num(b), "index": c.name} for a, b, c in zip(v.get_key_rate_dates(), v.get_pv01s(), v.get_indices())],
                                                             "len": [len(v), len(v.risks), len(list(v))], "steps": [stepped(v), mixed(v)],
                                                             "inside": [bool(Risk(x.key_rate_date, x.pv01, x.index) in v) for x in risks], "outside": [bool(x in v) for x in other]}), risks=want)
            # risk leaves the curve and its values as they were
            adj, fx = random_adj(rng, ref, span)
            s.ev("pv", f"{key}:pv:{adj['kind']}", call(lambda: obj.present_value(a, fx), num), inst=inst_of(a),
                 space="CONTINUOUSLY_COMPOUNDED_YIELD", adj=adj)
            # the adjustment of the collection is the same as before
            x = ref + timedelta(days=rng.randint(0, span))
            s.ev("value", f"{key}:value", call(lambda: obj(x, col), num), t=when(x), adj={"kind": "keyrates", "hats": hs})
