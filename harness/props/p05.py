"""Cash flows, collections of cash flows, and what they are worth on a discount curve."""
from vlib import call, d, f, exact_date, behaviours, ends
from curvedrv import *
from fixedIncome.src.assets.base_cashflow import Cashflow, CashflowCollection, CashflowKeys, Payment, ZeroCoupon

KEYS = list(CashflowKeys)


class Plain(CashflowCollection):
    def to_knot_value_pair(self):
        raise NotImplementedError

    def present_value(self, curve):
        raise NotImplementedError


def pay(p):
    return amount(p.payment, exact_date(p.payment_date))


def amount(v, x=0):
    missing = v is None or v != v
    return {"d": x, "has": not missing, "v": "0" if missing else num(v)}


def pays(c):
    if not isinstance(c, Cashflow):
        raise TypeError("not a Cashflow")
    return [pay(p) for p in c]


def observe(c):
    s = c.to_series()
    fr = c.to_dataframe()
    if list(fr.columns) != ["Payment Dates", "Payments"]:
        raise BadShape(f"columns {list(fr.columns)}")
    return {"len": len(c), "iter": [pay(p) for p in c], "dates": [exact_date(x) for x in c.get_payment_dates()],
            "amounts": [amount(v) for v in c.get_payment_amounts()],
            "series": [amount(v, exact_date(x)) for x, v in s.items()],
            "frame": [amount(r.iloc[1], exact_date(r.iloc[0])) for _, r in fr.iterrows()]}


def given(rng, n, base, span):
    out = []
    for _ in range(n):
        x = base + timedelta(days=rng.choice([rng.randint(-30, span), rng.randint(0, 4), 0, rng.randint(0, span)]))
        out.append((x, rng.choice([None, rng.uniform(-50, 150), rng.randint(-3, 100), rng.uniform(0, 10), rng.choice([0, 1e-9, 1e9 + .5, -3e7]) * rng.uniform(.5, 1)])))
    return out


def rec_pays(ps):
    return [amount(v, d(x)) for x, v in ps]


def build(rng, ps):
    """The same payments through one of the public constructors; iterables of every kind."""
    kind = rng.choice(["list", "tuple", "gen", "pairs", "pairs_gen"])
    if kind == "list":
        return Cashflow([Payment(*p) for p in ps])
    if kind == "tuple":
        return Cashflow(tuple(Payment(*p) for p in ps))
    if kind == "gen":
        return Cashflow(Payment(*p) for p in ps)
    if kind == "pairs":
        return Cashflow.create_from_date_and_float_iterables([p[0] for p in ps], [p[1] for p in ps])
    return Cashflow.create_from_date_and_float_iterables((p[0] for p in ps), (p[1] for p in ps))


def collection(rec, s, rng, key):
    flows = [Cashflow([Payment(date(2024, 1, 1) + timedelta(days=i), float(i))]) for i in range(8)]
    ident = {id(c): i for i, c in enumerate(flows)}
    ks = rng.sample(KEYS, rng.randint(0, 3))
    ids = [rng.randint(0, 7) for _ in ks]
    c = Plain([flows[i] for i in ids] if rng.random() < .5 else (flows[i] for i in ids), ks if rng.random() < .5 else iter(ks))
    s.ev("coll_new", key + ":new", keys=[k.name for k in ks], ids=ids)
    coll_events(s, key, c, flows, ident, [(rng.choice(["put", "put", "get"]), rng.choice(KEYS), rng.randint(0, 7)) for _ in range(8)])


def coll_look(s, key, c, ident):
    s.ev("coll_observe", key, call(lambda: c, lambda c: {
        "len": len(c), "items": [{"k": k.name, "c": ident[id(x)]} for k, x in c], "keys": [k.name for k in c.keys],
        "list": [ident[id(x)] for x in c.cashflow_list], "has": [k.name for k in KEYS if k in c]}), all=[k.name for k in KEYS])


def coll_events(s, key, c, flows, ident, ops):
    for i, (op, k, x) in enumerate(ops):
        kk = f"{key}:{i}:{op}:{k.name}"
        if op == "put":
            s.ev("coll_put", kk, call(lambda: c.__setitem__(k, flows[x])), k=k.name, id=x)
            coll_look(s, kk + ":look", c, ident)
        else:
            s.ev("coll_get", kk, call(lambda: c[k], lambda v: ident[id(v)]), k=k.name)
    for k in KEYS:
        s.ev("coll_get", f"{key}:end:{k.name}", call(lambda: c[k], lambda v: ident[id(v)]), k=k.name)


def run(rec):
    rng = rec.rng
    # every short history of the specification, replayed
    seqs, st, tr = behaviours("MCCash", "MCCash.cfg", {"Depth": rec.n(3, 4)})
    rec.gen = (rec.gen[0] + st, rec.gen[1] + tr)
    if rec.quick:
        rng.shuffle(seqs)
        seqs = seqs[:500]
    base = date(2025, 3, 10)
    for n, seq in enumerate(seqs):
        s = rec.stream("TraceCash")
        c = Cashflow([])
        flows = [Cashflow([]) for _ in range(len(seq) + 1)]
        ident = {id(x): i for i, x in enumerate(flows)}
        col = Plain([], [])
        s.ev("new", f"b{n}:new", call(lambda: c, pays), pays=[])
        s.ev("coll_new", f"b{n}:coll", keys=[], ids=[])
        for i, o in enumerate(seq):
            key = f"b{n}:{i}:{o['op']}{o['x']}-{o['y']}"
            if o["op"] == "add":
                p = Payment(base + timedelta(days=o["x"]), float(o["y"]))
                s.ev("add", key, call(lambda: c.add_payment(p), lambda _: pays(c)), pay=pay(p))
            elif o["op"] == "cut":
                c = c[o["x"]:o["y"]]
                s.ev("become_slice", key, call(lambda: c, pays), i=o["x"], j=o["y"])
            else:
                coll_events(s, key, col, flows, ident, [("put", KEYS[o["x"]], o["y"])])
        s.ev("observe", f"b{n}:end", call(lambda: c, observe))
    # wide histories
    for h in range(rec.n(70, 900)):
        s = rec.stream("TraceCash")
        ref = date.fromordinal(rng.randint(730000, 745000))
        span = rng.choice([40, 900, 4000])
        rc, curve, last = discount_curve(rng, ref, span)
        s.ev("curve", f"{h}:curve", curve=rc)
        for m in range(rng.randint(1, 3)):
            key = f"{h}.{m}"
            ps = given(rng, rng.choice([0, 1, 2, size(rng, 3, 12, 80, .3)]), ref, span - 1)
            if rng.random() < 0.1:
                ps.append((last + timedelta(days=rng.randint(0, 3)), 5.0))
            c = build(rng, ps)
            s.ev("new", key, call(lambda: c, pays), pays=rec_pays(ps))
            for k in range(rng.randint(1, 7)):
                kk = f"{key}.{k}"
                what = rng.choice(["add", "add", "slice", "get", "observe", "pv", "pv", "become"])
                if what == "add":
                    p = given(rng, 1, ref, span - 1)[0]
                    s.ev("add", kk, call(lambda: c.add_payment(Payment(*p)), lambda _: pays(c)), pay=rec_pays([p])[0])
                elif what == "slice":
                    if rng.random() < .5:
                        cut = slice(*(rng.choice([None, rng.randint(-len(c) - 2, len(c) + 2)]) for _ in range(2)), rng.choice([None, 1, 2, 3, -1, -2]))
                        s.ev("slice_any", f"{kk}:{cut}", call(lambda: c[cut], pays), **ends(cut))
                        continue
                    i = rng.randint(0, len(ps)); j = rng.randint(i, len(c))  if i <= len(c) else i
                    s.ev("slice", kk, call(lambda: c[i:j], pays), i=i, j=j) if j <= len(c) else None
                elif what == "become":
                    j = rng.randint(0, len(c)); i = rng.choice([0, rng.randint(0, j)])
                    c = c[i:j]
                    s.ev("become_slice", kk, call(lambda: c, pays), i=i, j=j)
                elif what == "get":
                    i = rng.randint(-len(c) - 1, len(c))
                    s.ev("get", kk, call(lambda: c[i], pay), i=i)
                elif what == "observe":
                    s.ev("observe", kk, call(lambda: c, observe))
                else:
                    via = rng.random() < 0.5
                    s.ev("pv", kk, call(lambda: c.present_value(curve) if via else curve.present_value(c), num))
            s.ev("pv", key + ":end", call(lambda: c.present_value(curve), num))
            s.ev("observe", key + ":end", call(lambda: c, observe))
        if rng.random() < 0.4:
            z = ref + timedelta(days=rng.randint(-3, span + 3))
            price = rng.uniform(0.5, 1.2)
            zc = ZeroCoupon(z, price)
            s.ev("zero", f"{h}:zero", call(lambda: zc, lambda c: {"pv": num(c.present_value(curve)), "d": exact_date(c.to_knot_value_pair().knot),
                                                                  "v": num(c.to_knot_value_pair().value)}), d=d(z), price=f(price))
        if rng.random() < 0.3:
            a, b = rng.randint(0, 4), rng.randint(0, 4)
            if a != b:
                s.ev("uneven", f"{h}:uneven", call(lambda: Cashflow.create_from_date_and_float_iterables(
                    [ref + timedelta(days=i) for i in range(a)], (float(i) for i in range(b))), pays), a=a, b=b)
        collection(rec, s, rng, f"{h}:coll")
