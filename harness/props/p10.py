"""Collections of key rates under sequences of operations."""
from vlib import behaviours
from krdrv import *

D0 = 738000


def replay(rec, n, seq):
    w = World(rec, f"b{n}")
    probe = [date.fromordinal(D0 + 5 * j) for j in range(0, 14)]
    c = None
    for o in seq:
        x = w.make(date.fromordinal(D0 + 10 * o["x"]), DCC[o["c"]]) if o["op"] != "del" else None
        if o["op"] == "new":
            c = w.new([x])
        elif o["op"] == "iadd":
            w.iadd(c, [x], rec.rng.choice(["list", "one", "insert", "gen"]))
        elif o["op"] == "set":
            w.set(c, o["i"] - 1, x)
        else:
            w.delete(c, o["i"] - 1, rec.rng.random() < .3)
        w.look(c)
    w.sum_at(c, probe)


def cut(rng, n):
    """Somewhere in a collection of n: mostly plain, at times open, backwards, from the end or with a step."""
    if rng.random() < .5:
        i = rng.randint(0, n)
        return slice(i, rng.randint(i, n), rng.choice([None, None, 1, 2, 3]))
    return slice(*(rng.choice([None, rng.randint(-n - 2, n + 2)]) for _ in range(2)), rng.choice([None, 1, 2, 3, -1, -2, -3]))


def history(rec, h):
    rng = rec.rng
    w = World(rec, h)
    base = date.fromordinal(rng.randint(728000, 748000))
    many = rng.random() < .05
    grid = sorted(rng.sample(range(0, rng.choice([12, 60, 5000]) if not many else 9000), 10 if not many else 30))
    dccs = [rng.choice(ACTUAL)] * 5 + [rng.choice(ACTUAL)]

    def fresh():
        return w.make(base + timedelta(days=rng.choice(grid)), rng.choice(dccs))

    def dates(c):
        ms = [k.key_rate_date for k in w.cols[c]] or [base]
        out = ms + [m + timedelta(days=rng.choice([-1, 1])) for m in ms]
        out += [ms[0] - timedelta(days=400), ms[-1] + timedelta(days=400), ms[0] + timedelta(days=rng.randint(0, max(0, (ms[-1] - ms[0]).days)))]
        return out[:14]

    # a first collection of distinct dates
    for _ in range(rng.randint(1, 2)):
        ids = [w.make(base + timedelta(days=x), dccs[0]) for x in rng.sample(grid, rng.randint(1, 4) if not many else rng.randint(10, 24))]
        w.new(ids, rng.choice([list, tuple, iter]))
    if rng.random() < .1:
        w.new([])
    for _ in range(rng.randint(3, 10)):
        live = [c for c in range(len(w.cols)) if c not in w.dead]
        c = rng.choice(live)
        n = len(w.ids[c])
        op = rng.choice(["iadd", "iadd", "insert", "add", "slice", "set", "set", "del", "del", "del_slice", "bump", "bump1", "remove", "iaddcol", "get", "contains", "equal", "new", "step", "step", "index", "bad"])
        if op == "iadd":
            ids = [fresh() for _ in range(rng.randint(1, 3))]
            w.iadd(c, ids, rng.choice(["list", "gen"]))
        elif op == "insert":
            w.iadd(c, [fresh()], rng.choice(["insert", "one"]))
        elif op == "add":
            r = w.add(c, rng.choice(live))
        elif op == "slice":
            w.slice(c, cut(rng, n))
        elif op == "set":
            i = rng.choice([rng.randint(0, n - 1), rng.randint(-n, n - 1), n])
            x = fresh()
            if i < n and rng.random() < .6:          # between the neighbours
                p = i % n
                ds = [k.key_rate_date for k in w.cols[c]]
                lo = ds[p - 1] if p else ds[p] - timedelta(days=30)
                hi = ds[p + 1] if p + 1 < n else ds[p] + timedelta(days=30)
                x = w.make(lo + timedelta(days=rng.randint(0, (hi - lo).days)), rng.choice(dccs))
            w.set(c, i, x)
        elif op == "del":
            w.delete(c, rng.choice([rng.randint(-n, n - 1), n]), rng.random() < .3)
        elif op == "del_slice":
            w.del_slice(c, cut(rng, n))
        elif op == "bump":
            w.bump_all(c, rng.uniform(-.01, .01))
        elif op == "bump1":
            w.setter("set_bump", rng.choice(w.ids[c]), rng.uniform(-.01, .01))
        elif op == "remove":
            m = rng.choice(w.ids[c])
            x = rng.choice([fresh, lambda: w.make(w.kr(m).key_rate_date, w.kr(m).day_count_convention)])()
            w.remove(c, x)
        elif op == "iaddcol":
            o = [y for y in live if y != c]
            if o:
                w.iadd_col(c, rng.choice(o))
        elif op == "get":
            w.get(c, rng.randint(-n - 1, n))
        elif op == "contains":
            w.contains(c, rng.choice([fresh(), rng.choice(w.ids[c])]))
        elif op == "step":
            for _ in range(rng.choice([1, 1, n, n + 1, n + 2])):
                w.step(c)
        elif op == "index":
            w.index(c, rng.choice([fresh(), rng.choice(w.ids[c]), w.make(*(lambda k: (k.key_rate_date, k.day_count_convention))(w.kr(rng.choice(w.ids[c]))))]))
        elif op == "bad":
            w.bad(c, rng.choice(["add", "addlist", "radd", "iadd", "iaddnum", "getfloat"]))
            w.look(c)
        elif op == "equal":
            w.equal(c, rng.choice(live))
        else:
            w.new([w.make(base + timedelta(days=x), dccs[0]) for x in rng.sample(grid, rng.randint(1, 4))])
        for c in range(len(w.cols)):
            if c not in w.dead and (rng.random() < .5):
                w.look(c)
        w.sum_at(rng.choice([c for c in range(len(w.cols)) if c not in w.dead]), dates(c) if c not in w.dead else [base])
    for c in range(len(w.cols)):
        if c not in w.dead:
            w.look(c)
            w.sum_at(c, dates(c))
            for i in w.ids[c]:
                w.at(i, dates(c)[:6])


def run(rec):
    seqs, st, tr = behaviours("MCKeyRates", "MCKeyRates.cfg", {"Depth": rec.n(4, 5), "Dates": 3})
    rec.gen = (st, tr)
    if rec.quick:
        rec.rng.shuffle(seqs)
        seqs = seqs[:700]
    for n, seq in enumerate(seqs):
        replay(rec, n, seq)
    for h in range(rec.n(150, 2500)):
        history(rec, h)
