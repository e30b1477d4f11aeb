"""A single key rate: its adjustment, its setters, comparisons."""
from krdrv import *


def probe(rng, k):
    a, m, b = k.prior_date, k.key_rate_date, k.next_date
    out = [m, m - timedelta(days=1), m + timedelta(days=1), m - timedelta(days=rng.randint(2, 4000)), m + timedelta(days=rng.randint(2, 4000))]
    if a:
        out += [a, a - timedelta(days=1), a + timedelta(days=1), a + timedelta(days=rng.randint(0, max(0, (m - a).days)))]
    if b:
        out += [b, b + timedelta(days=1), b - timedelta(days=1), b - timedelta(days=rng.randint(0, max(0, (b - m).days)))]
    return out


def run(rec):
    rng = rec.rng
    for h in range(rec.n(160, 2500)):
        w = World(rec, h)
        ids = []
        for _ in range(rng.randint(1, 3)):
            m = date.fromordinal(rng.randint(725000, 755000))
            gap = lambda: timedelta(days=rng.choice([5, rng.randint(5, 60), rng.randint(5, 4000)]))
            ids.append(w.make(m, rng.choice(list(DCC)), m - gap() if rng.random() < .5 else None, m + gap() if rng.random() < .5 else None))
        if rng.random() < .4:
            k = w.kr(ids[0])
            ids.append(w.make(k.key_rate_date, rng.choice([k.day_count_convention, rng.choice(list(DCC))])))
        for _ in range(rng.randint(2, 8)):
            i = rng.choice(ids)
            k = w.kr(i)
            m = k.key_rate_date
            op = rng.choice(["set_prior", "set_next", "set_bump", "compare"])
            if op == "set_bump":
                w.setter(op, i, rng.choice([0.0, 1.0, -0.0025, rng.uniform(-.05, .05)]))
            elif op == "compare":
                w.compare(i, rng.choice(ids))
            else:
                sign = -1 if op == "set_prior" else 1
                x = rng.choice([None, m, m + timedelta(days=sign * rng.randint(5, 900)), m + timedelta(days=sign * rng.randint(5, 60)),
                                m - timedelta(days=sign * rng.randint(1, 60))])
                w.setter(op, i, x)
            w.at(i, probe(rng, k))
        for i in ids:
            w.at(i, probe(rng, w.kr(i)))
            for j in ids:
                w.compare(i, j)
