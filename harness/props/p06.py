"""Curves: knots, interpolation, behaviour outside the knots, adjustments, resets."""
from vlib import call, d, f, dt
from curvedrv import *


def value_events(rec, s, rng, key, obj, first, last, ref, timed, n):
    span = max(1, (d(last) - d(first)))
    for k in range(n):
        where = rng.choice(["in", "in", "in", "in", "knot", "left", "right", "edge"])
        if where == "in":
            t = first + timedelta(days=rng.randint(0, span))
            if timed:
                t = first + timedelta(seconds=rng.randint(0, span * 86400), microseconds=rng.choice([0, rng.randint(0, 999999)]))
        elif where == "knot":
            t = rng.choice(obj.interpolation_values).knot
        elif where == "left":
            t = first - timedelta(days=rng.randint(1, 40))
        elif where == "right":
            t = last + timedelta(days=rng.randint(1, 400))
        else:
            t = rng.choice([first, last, first + timedelta(days=1), last - timedelta(days=1), last + timedelta(days=1), first - timedelta(days=1)])
        adj, fx = ({"kind": "none"}, None) if timed else random_adj(rng, ref, span)
        via = rng.random() < 0.6
        s.ev("value", f"{key}.{k}:{where}:{t.isoformat()}:{adj['kind']}",
             call(lambda: obj(t, fx) if via else obj.interpolate(t, fx), num), t=when(t), adj=adj)
        if t >= ref and rng.random() < 0.15:
            s.ev("axis", f"{key}.{k}:axis:{t.isoformat()}", call(lambda: obj.date_to_interpolation_axis(t), num), t=when(t))


def history(rec, s, rng, h):
    timed = rng.random() < 0.2
    method = rng.choice(METHODS)
    dcc = rng.choice(ACTUAL)
    n = rng.choice([lambda: size(rng, MINK[method.value], MINK[method.value] + 1, 26, .12), lambda: size(rng, MINK[method.value], 8, 26, .12)])()
    ref = date.fromordinal(rng.randint(728000, 750000))
    first = ref + timedelta(days=rng.choice([0, 0, 1, rng.randint(0, 200)]))
    ds = random_dates(rng, n, first)
    if timed:
        ref = datetime(ref.year, ref.month, ref.day, rng.randint(0, 23), rng.randint(0, 59))
        ds = [datetime(x.year, x.month, x.day, rng.randint(0, 23), rng.randint(0, 59)) for x in ds]
        ds = [max(x, ref) for x in ds]
        if len(set(ds)) < n:
            return
    if rng.random() < 0.3:
        ref = ds[0]
    left, right = rng.choice(list(EndBehavior)), rng.choice(list(EndBehavior))
    pairs = [(x, rng.uniform(-0.02, 0.08)) for x in ds]
    given = pairs[:]
    rng.shuffle(given)
    kv = [KnotValuePair(*p) for p in given]
    kind = rng.choice(["Curve", "Curve", "Discount", "Yield"])
    r = None if kind != "Yield" and ref == ds[0] and rng.random() < .6 else ref         # by default the first knot
    ends = {k: v for k, v in (("left_end_behavior", left), ("right_end_behavior", right)) if v is not EndBehavior.ERROR or rng.random() < .5}
    index = rng.choice(list(CurveIndex))

    def make():
        ks = iter(kv) if rng.random() < .3 else kv
        if kind == "Curve":
            if rng.random() < .5:
                return Curve(ks, method, dcc, r, left, right, index)
            return Curve(interpolation_values=ks, interpolation_method=method, interpolation_day_count_convention=dcc, reference_date=r, index=index, **ends)
        if kind == "Discount":
            if rng.random() < .5:
                return DiscountCurve(ks, method, index, dcc, r, left, right)
            return DiscountCurve(interpolation_values=ks, interpolation_method=method, interpolation_day_count_convention=dcc, reference_date=r, index=index, **ends)
        return YieldCurve([ZeroCoupon(*p) for p in given], None, method, dcc, rng.choice(list(InterpolationSpace)), ref, **ends)

    made = call(make, lambda c: (c, shape_knots(c.interpolation_values), c.index.name))
    obj = made["v"][0] if made["ok"] else None
    s.ev("curve", f"{h}:new:{kind}:{method.value}", {"ok": True, "v": made["v"][1]} if made["ok"] else made,
         curve=curve_rec(given, method, dcc, ref, left, right), quotes=[])
    if obj is None:
        return
    if kind != "Yield":
        s.ev("kept", f"{h}:kept", call(lambda: kv, shape_knots), knots=knots_of(given))
        rng.choice([lambda: None, lambda: kv.clear(), lambda: kv.reverse(), lambda: kv.append(KnotValuePair(ds[-1] + timedelta(days=9), 1.0))])()
    value_events(rec, s, rng, f"{h}.a", obj, ds[0], ds[-1], ref, timed, rng.randint(3, 8))
    for k in range(rng.randint(1, 4)):
        key = f"{h}.{k}"
        cur = [(p.knot, p.value) for p in obj.interpolation_values]
        how = rng.choice(["all", "one", "one", "few", "move", "before", "early"])
        if how in ("all", "few", "before"):
            m = size(rng, MINK[method.value], 8, 26, .12)
            nd = random_dates(rng, m, ref + timedelta(days=rng.randint(0, 300)))
            if how == "few":
                nd = nd[:max(1, MINK[method.value] - 1)]
            if how == "before":
                nd = [ref - timedelta(days=rng.randint(1, 30))] + nd
            new = [(x, rng.uniform(-0.02, 0.08)) for x in nd]
            rng.shuffle(new)
            if (method.value in ("previous", "linear") and how == "few"):
                continue
            nk = [KnotValuePair(*p) for p in new]
            out = call(lambda: obj.reset_interpolation_values(nk if rng.random() < .6 else iter(nk)))
            if out["ok"]:
                out["v"] = shape_knots(obj.interpolation_values)
            s.ev("reset", key + ":reset:" + how, out, knots=knots_of(new))
            s.ev("kept", key + ":kept", call(lambda: nk, shape_knots), knots=knots_of(new))
            rng.choice([lambda: None, lambda: nk.clear(), lambda: nk.reverse()])()
        else:
            i = rng.randint(-len(cur), len(cur) - 1)
            p = i % len(cur)
            x = cur[p][0]
            if how == "early":        # the first knot before the reference date
                i, p, x = rng.choice([0, -len(cur)]), 0, ref - timedelta(days=rng.randint(1, 30))
            if how == "move":         # the knot moves between its neighbours
                lo = cur[p - 1][0] if p else ref
                hi = cur[p + 1][0] if p + 1 < len(cur) else cur[p][0] + timedelta(days=60)
                if (hi - lo).days > 3:
                    x = lo + timedelta(days=rng.randint(1, (hi - lo).days - 1))
            v = rng.uniform(-0.02, 0.08)
            out = call(lambda: obj.reset_interpolation_value(KnotValuePair(x, v), i))
            if out["ok"]:
                out["v"] = shape_knots(obj.interpolation_values)
            s.ev("reset_at", key + f":reset_at:{i}", out, i=i, knot=knots_of([(x, v)])[0])
        s.ev("knots", key + ":knots", call(lambda: obj.interpolation_values, shape_knots))
        now = [p.knot for p in obj.interpolation_values]
        value_events(rec, s, rng, key, obj, now[0], now[-1], ref, timed, rng.randint(2, 5))


def run(rec):
    rng = rec.rng
    for h in range(rec.n(220, 3000)):
        history(rec, rec.stream("TraceCurve"), rng, h)
    rec.mc.append(("curves through all small sets of knots", "MCCurve", "MCCurve.cfg",
                   {"Gap": rec.n(4, 7), "Vals": rec.n('{"0.01", "0.03"}', '{"-0.01", "0.01", "0.03"}')}))
