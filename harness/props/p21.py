"""Diffusion processes: Euler paths of named drift-diffusion pairs."""
from procdrv import *


def build(rng, m):
    """(process, rows, state dimension)"""
    dim = rng.choice([1, 1, 2, 2, 3, 4])
    rows, pairs = affine_rows(rng, dim, m.dim, rng.choice([None, None, "const", "ou", "gbm"]))
    kw = m.dt()
    if rng.random() < .5:
        p = DiffusionProcess(pairs, m.build(), **kw)
    else:
        p = DiffusionProcess(brownian_motion=m.build(), drift_diffusion_collection=pairs, **kw)
    return p, rows, dim


def start(rng, dim):
    x = np.array([rng.choice([rng.uniform(-2, 3), rng.uniform(.01, .2)]) for _ in range(dim)])
    u = rng.random()
    if dim == 1 and u < .3:
        return float(x[0]), x
    if u < .5:
        return np.array(x), x
    if u < .65:
        return x.reshape(-1, 1), x
    if u < .8:
        x = np.array([int(v * 3) for v in x])     # integral values
        return x.copy(), x
    return list(x), x


def run(rec):
    rng = rec.rng
    for h, plan in histories(rec, "euler", rec.n(220, 3500)):
        s = rec.stream("TraceProcess")
        m = Motion(rng, plain=rng.random() < .08)
        p, rows, dim = build(rng, m)
        key = f"{h}:{dim}x{m.dim}:{m.dcc.name}:{m.start}:{m.end}"
        s.ev("object", key, call(lambda: p, lambda b: {"start": stamp(b.start_date_time), "end": stamp(b.end_date_time), "dim": b.dimension}),
             md={"kind": "euler", "m": m.record(), "dim": dim, "inc": m.inc[1], "rows": rows})
        state = lambda: {"path": opt(p.path, columns)}
        inc = m.inc
        seeds = [rng.randint(0, 2**31) for _ in range(2)]
        for k in range(len(plan) if plan else rng.randint(3, 9)):
            key = f"{h}.{k}"
            op = plan[k]["op"] if plan else rng.choice(["generate", "generate", "generate", "at", "at", "at", "set_dt", "differ", "increments"])
            n = m.steps(inc)
            if op == "generate":
                seed = seeds[plan[k]["r"] - 1] if plan else rng.choice([0, 1, rng.randint(0, 2**31)])
                np.random.seed(rng.randint(0, 2**31))
                if rng.random() < .85:
                    probe(s, key, seed, m.dim, n)
                np.random.standard_normal(rng.randint(0, 5))
                keep = plan[k]["set"] if plan else rng.random() < .6
                given, x = start(rng, dim)
                before = np.array(given, dtype=float).copy()
                if rng.random() < .08:
                    seed = None
                kw = {} if seed is None else {"seed": seed}
                if not keep or rng.random() < .5:
                    kw["set_path"] = keep

                def go():
                    v = p.generate_path(given, **kw)
                    if not np.array_equal(np.array(given, dtype=float), before):
                        raise ValueError("the starting value was changed")
                    return {"path": columns(v)}
                s.ev("generate", f"{key}:generate:{n}:{keep}", call(go, lambda v: v), inc=inc[1], x=vec(x), seed=-1 if seed is None else seed, set=keep)
                kept(s, key, state)
            elif op == "at":
                t = m.inside(rng)
                s.ev("at", f"{key}:at:{t}", call(lambda: p(t), line), t=stamp(t))
            elif op == "set_dt":
                new = increment(rng, m.plain) if m.plain or rng.random() < .6 else close(rng, inc)
                if m.steps(new) > 60:
                    continue
                inc = new
                s.ev("set_dt", f"{key}:set_dt", call(lambda: p.set_dt(inc[0])), inc=inc[1])
                kept(s, key, state)
            elif op == "increments":      # the same motion used by others
                seed = rng.randint(0, 99)
                other = increment(rng, m.plain)
                if m.steps(other) <= 60:
                    probe(s, key, seed, m.dim, m.steps(other))
                    increments(s, f"{key}:others", p.brownian_motion, m.record(), other, seed)
            elif n and all(any(float(v) for v in r["s"]) for r in rows):
                x = np.ones(dim)
                if rng.random() < .5:
                    seeds_differ(s, key, rng, lambda z: p.generate_path(x, set_path=False, seed=z))
                    continue
                s.ev("differ", f"{key}:differ", call(lambda: (p.generate_path(x, set_path=False), p.generate_path(x, set_path=False, seed=None)),
                                                     lambda v: {"a": columns(v[0]), "b": columns(v[1])}))
        kept(s, h, state)
