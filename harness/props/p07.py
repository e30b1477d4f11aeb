"""Yield curves as discount curves: definition, snapshots, present values."""
from vlib import call, d, f
from curvedrv import *

SPACES = [InterpolationSpace.CONTINUOUSLY_COMPOUNDED_YIELD, InterpolationSpace.DISCOUNT_FACTOR]


def history(rec, rng, h, long=False):
    s = rec.stream("TraceCurve")
    space = rng.choice([SPACES[0], SPACES[0], SPACES[1]])
    ref = date.fromordinal(rng.randint(730000, 748000))
    span = rng.choice([30, 200, 500]) if not long else rng.choice([3000, 11000, 14000, 20000])
    rc, quotes, obj, last = yield_curve(rng, ref, span, space, anchored=rng.random() < .4)
    s.ev("curve", f"{h}:new", call(lambda: obj, lambda c: shape_knots(c.interpolation_values)), curve=rc, quotes=quotes)
    snaps = []

    def query(key, n):
        for k in range(n):
            if not snaps:
                return
            i = rng.randint(0, len(snaps) - 1)
            x = ref + timedelta(days=rng.choice([0, 1, (last - ref).days, (last - ref).days + 1, -1] + [rng.randint(0, (last - ref).days)] * 9))
            if rng.random() < .3:
                x = rng.choice(obj.interpolation_values).knot
            s.ev("df", f"{key}:df{k}:{i}:{x.isoformat()}", call(lambda: snaps[i](x), num), snap=i + 1, t=when(x))

    for k in range(2 if long else rng.randint(2, 6)):
        key = f"{h}.{k}"
        what = rng.choice(["discount", "discount", "reset", "pv", "pv", "pv_snap", "bump"])
        adj, fx = random_adj(rng, ref, span)
        if what in ("discount", "bump") or (not snaps and what == "pv_snap"):
            box = []
            out = call(lambda: obj.to_discount_curve(fx), lambda v: box.append(v))
            if out["ok"]:
                dc = box[0]
                snaps.append(dc)
                out = call(lambda: dc(ref) if dc.interpolation_values[0].knot <= ref else 0.0, num)
            s.ev("discount", f"{key}:discount:{adj['kind']}", out, space=space.name, adj=adj)
            if what == "bump" and adj["kind"] == "keyrates":       # the adjustment changes; the discount curve given out does not
                fx.set_bump_val(0.03)
        elif what == "reset":
            nd = random_dates(rng, len(obj.interpolation_values), ref + timedelta(days=rng.randint(1, 20)), hi=90 if not long else 5000)
            new = [(x, rng.uniform(0.9, 1) if space is SPACES[1] else rng.uniform(-.005, .08)) for x in nd]
            out = call(lambda: obj.reset_interpolation_values([KnotValuePair(*p) for p in new]))
            if out["ok"]:
                out["v"] = shape_knots(obj.interpolation_values)
                last = nd[-1]
            s.ev("reset", key + ":reset", out, knots=knots_of(new))
        else:
            a = random_asset(rng, ref if obj.interpolation_values[0].knot <= ref or space is SPACES[0] else obj.interpolation_values[0].knot, last)
            if what == "pv":
                s.ev("pv", f"{key}:pv:{adj['kind']}", call(lambda: obj.present_value(a, fx), num), inst=inst_of(a), space=space.name, adj=adj)
            else:
                i = rng.randint(0, len(snaps) - 1)
                s.ev("pv_snap", f"{key}:pv_snap{i}", call(lambda: snaps[i].present_value(a) if k % 2 else a.present_value(snaps[i]), num),
                     inst=inst_of(a), snap=i + 1)
        query(key, rng.randint(2, 4))
    query(f"{h}.end", 4)


def run(rec):
    for h in range(rec.n(110, 1300)):
        history(rec, rec.rng, h)
    for h in range(rec.n(6, 40)):
        history(rec, rec.rng, f"long{h}", True)
