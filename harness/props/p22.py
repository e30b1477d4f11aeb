"""Geometric Brownian motions."""
from procdrv import *
from fixedIncome.src.stochastics.geometric_brownian_motion import GeometricBrownianMotion, geometric_brownian_motion_drift_diffusion


def run(rec):
    rng = rec.rng
    for h in range(rec.n(240, 3500)):
        s = rec.stream("TraceProcess")
        m = Motion(rng, dims=(1, 2, 3, 4), dccs=[DayCountConvention.ACTUAL_OVER_ACTUAL], plain=rng.random() < .08)
        mu, sigma = rng.choice([0, rng.uniform(-.3, .4)]), rng.choice([0, rng.uniform(0, .6), rng.uniform(0, .6), rng.uniform(.5, 4)])
        eye = np.eye(m.dim)
        rows = [{"a": "0", "lin": vec(mu * r), "b": "0", "s": vec(0 * r), "u": vec(sigma * r)} for r in eye]
        p = GeometricBrownianMotion(mu, sigma, m.start, m.end, m.dim, m.corr, **m.dt())
        key = f"{h}:{m.dim}:{m.start}:{m.end}"
        s.ev("object", key, call(lambda: p, lambda b: {"start": stamp(b.start_date_time), "end": stamp(b.end_date_time), "dim": b.dimension}),
             md={"kind": "euler", "m": m.record(), "dim": m.dim, "inc": m.inc[1], "rows": rows})
        state = lambda: {"path": opt(p.path, columns)}
        n = m.steps(m.inc)
        for k in range(rng.randint(2, 6)):
            key = f"{h}.{k}"
            seed = rng.choice([0, 1, rng.randint(0, 2**31)])
            np.random.seed(rng.randint(0, 2**31))
            if rng.random() < .9:
                probe(s, key, seed, m.dim, n)
            np.random.standard_normal(rng.randint(0, 5))
            keep = rng.random() < .6
            x = np.array([rng.choice([rng.uniform(.1, 200), rng.randint(1, 9), 0]) for _ in range(m.dim)], dtype=float)
            given = rng.choice([x.copy(), list(x), x.reshape(-1, 1).copy()])
            if all(v == int(v) for v in x) and rng.random() < .5:
                given = np.array([int(v) for v in x])
            if rng.random() < .25:     # the same value for every coordinate
                given = rng.choice([float(x[0]), x[:1].copy()])
                x = x[0] * np.ones(m.dim)
            if rng.random() < .06:
                seed = None
            kw = {} if seed is None else {"seed": seed}
            if not keep or rng.random() < .5:
                kw["set_path"] = keep
            before = np.array(given, dtype=float).copy()

            def go():
                v = p.generate_path(given, **kw)
                if not np.array_equal(np.array(given, dtype=float), before):
                    raise ValueError("the starting value was changed")
                return {"path": columns(v)}
            s.ev("generate", f"{key}:generate:{n}:{keep}", call(go, lambda v: v), inc=m.inc[1], x=vec(x), seed=-1 if seed is None else seed, set=keep)
            kept(s, key, state)
        # the pair on its own, as a coordinate of a diffusion process
        s = rec.stream("TraceProcess")
        c = Motion(rng, dims=(1,))
        pair = geometric_brownian_motion_drift_diffusion(mu, sigma)
        q = DiffusionProcess({"price": pair}, c.build(), c.inc[0])
        s.ev("object", f"{h}:pair", call(lambda: q, lambda b: {"start": stamp(b.start_date_time), "end": stamp(b.end_date_time), "dim": b.dimension}),
             md={"kind": "euler", "m": c.record(), "dim": 1, "inc": c.inc[1], "rows": [{"a": "0", "lin": [f(mu)], "b": "0", "s": ["0"], "u": [f(sigma)]}]})
        probe(s, f"{h}:pair", 5, 1, c.steps(c.inc))
        x = rng.uniform(.5, 50)
        s.ev("generate", f"{h}:pair:generate", call(lambda: q.generate_path(x, seed=5), lambda v: {"path": columns(v)}), inc=c.inc[1], x=[f(x)], seed=5, set=True)
