"""Swap legs: accrual schedules, payments, what is stored."""
from vlib import behaviours
from swapdrv import *


def replay(rec, n, seq):
    rng = rec.rng
    s = rec.stream("TraceSwap")
    kind = rng.choice(["term", "term", "ois"])
    kw, tenor = params(rng, kind, custom=False, long=False)
    if kind == "ois":
        kw, tenor = {**kw, "tenor": "3M"}, 3
    elif tenor > 24:
        kw, tenor = {**kw, "tenor": "9M"}, 9
    x = build(s, rng, f"b{n}", kw, tenor, kind)
    q = discount(s, rng, f"b{n}", kw, tenor, x)
    first, last = x.start_accrual_date - timedelta(days=6), x.end_accrual_date
    rates = [random_rate(rng, first, last) for _ in range(2)]
    for i, o in enumerate(seq):
        key = f"b{n}.{i}:{o['op']}:{o['r']}:{o['set']}"
        r = rates[o["r"] - 1]
        if o["op"] == "fixed":
            s.ev("fixed_leg", key, call(lambda: x.generate_fixed_leg_cashflow(set_cashflow=o["set"]), pays), set=o["set"])
        elif o["op"] == "float":
            s.ev("float_leg", key, call(lambda: x.generate_floating_leg_cashflow(r[1], set_cashflow=o["set"]), pays), set=o["set"], rate=r[0])
        elif o["op"] == "implied":
            s.ev("implied", key, call(lambda: x.implied_rate(q, r[1], set_cashflow=o["set"]), num), set=o["set"], rate=r[0])
        else:
            s.ev("pv", key, call(lambda: x.present_value(q), num))
    legs(s, f"b{n}", x)


def run(rec):
    rng = rec.rng
    seqs, st, tr = behaviours("MCLegs", "MCLegs.cfg", {"Depth": rec.n(3, 4)})
    rec.gen = (st, tr)
    rng.shuffle(seqs)
    for n, seq in enumerate(seqs[:rec.n(150, 3000)]):
        replay(rec, n, seq)
    for h in range(rec.n(180, 2500)):
        s = rec.stream("TraceSwap")
        kind = rng.choice(["term", "term", "ois"])
        kw, tenor = params(rng, kind)
        x = build(s, rng, h, kw, tenor, kind)
        if x is None:
            continue
        first, last = x.start_accrual_date - timedelta(days=6), x.end_accrual_date
        for k in range(rng.randint(2, 5)):
            key = f"{h}.{k}"
            op = rng.choice(["fixed_schedule", "float_schedule", "fixed_leg", "float_leg", "float_leg"] + (["annualized"] if kind == "ois" else []))
            if op == "fixed_schedule":
                s.ev(op, f"{key}:{op}", call(lambda: x.generate_fixed_leg_accrual_schedule(), periods))
            elif op == "float_schedule":
                s.ev(op, f"{key}:{op}", call(lambda: x.generate_floating_leg_accrual_schedule(), periods))
            elif op == "annualized":
                r = random_rate(rng, first, last)
                if r[0]["kind"] == "curve":
                    continue
                bd = [y for y in (first + timedelta(days=i) for i in range(0, (last - first).days)) if x.date_adjustment_function(y) == y]
                if len(bd) < 2:
                    continue
                a, b = sorted(rng.sample(bd, 2))
                spans = [(a, b)] + [(a, c) for c in rng.sample(bd, 2) if c > a] + [(c, b) for c in rng.sample(bd, 1) if c < b]
                rng.shuffle(spans)
                for a, b in spans[:rng.randint(1, 3)]:
                    s.ev(op, f"{key}:{op}:{a}:{b}", call(lambda: x.calculate_annualized_rate(r[1], a, b), num), a=d(a), b=d(b), rate=r[0])
            else:
                st = rng.random() < .6
                if op == "fixed_leg":
                    s.ev(op, f"{key}:{op}:{st}", call(lambda: x.generate_fixed_leg_cashflow() if st and rng.random() < .5 else x.generate_fixed_leg_cashflow(set_cashflow=st), pays), set=st)
                else:
                    r = random_rate(rng, first, last)
                    s.ev(op, f"{key}:{op}:{st}:{r[0]['kind']}", call(lambda: x.generate_floating_leg_cashflow(r[1]) if st and rng.random() < .5 else x.generate_floating_leg_cashflow(r[1], set_cashflow=st), pays),
                         set=st, rate=r[0])
            legs(s, key, x)
        adjust(s, h, x, [first + timedelta(days=rng.randint(0, 800)) for _ in range(3)])
    rec.mc.append(("swap schedules and fair rates, bought day after day", "MCSwap", "MCSwap.cfg", {"Days": rec.n(60, 1500)}))
