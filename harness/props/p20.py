"""Brownian paths: grids, increments, evaluation."""
from procdrv import *


def run(rec):
    rng = rec.rng
    rec.mc.append(("paths stepped for all choices of a few draws", "MCPaths", "MCPaths.cfg", {"Starts": rec.n(1, 2), "Long": rec.n(2, 3), "Few": "TRUE" if rec.tier == "quick" else "FALSE"}))
    for h, plan in histories(rec, "brownian", rec.n(200, 3500)):
        s = rec.stream("TraceProcess")
        m = Motion(rng, plain=rng.random() < .12)
        bm = m.build()
        key = f"{h}:{m.dim}:{m.dcc.name}:{m.start}:{m.end}"
        s.ev("object", key, call(lambda: bm, lambda b: {"start": stamp(b.start_date_time), "end": stamp(b.end_date_time), "dim": b.dimension}),
             md={"kind": "brownian", "m": m.record(), "dim": m.dim})
        state = lambda: {"path": opt(bm.path, columns)}
        seeds = [rng.randint(0, 2**31) for _ in range(2)]
        for k in range(len(plan) if plan else rng.randint(3, 9)):
            key = f"{h}.{k}"
            op = plan[k]["op"] if plan else rng.choice(["increments", "generate", "generate", "at", "at", "at", "differ"])
            inc = m.inc if rng.random() < .6 else increment(rng, m.plain) if m.plain or rng.random() < .5 else close(rng, m.inc)
            while m.steps(inc) > 60:
                inc = m.inc
                break
            seed = seeds[plan[k]["r"] - 1] if plan else rng.choice([0, 1, rng.randint(0, 2**31)])
            n = m.steps(inc)
            if op in ("increments", "generate"):
                np.random.seed(rng.randint(0, 2**31))
                if rng.random() < .85:
                    probe(s, key, seed, m.dim, n)
                np.random.standard_normal(rng.randint(0, 5))
            if op == "increments":
                if rng.random() < .1:
                    seed = None
                increments(s, f"{key}:{n}", bm, m.record(), inc, seed)
            elif op == "generate":
                keep = plan[k]["set"] if plan else rng.random() < .6
                if rng.random() < .1:
                    seed = None
                kw = {} if seed is None else {"seed": seed}
                if not keep or rng.random() < .5:
                    kw["set_path"] = keep
                s.ev("generate", f"{key}:generate:{n}:{keep}", call(lambda: bm.generate_path(inc[0], **kw), lambda v: {"path": columns(v)}),
                     inc=inc[1], seed=-1 if seed is None else seed, set=keep)
                kept(s, key, state)
            elif op == "at":
                t = m.inside(rng)
                s.ev("at", f"{key}:at:{t}", call(lambda: bm(t), line), t=stamp(t))
            elif n and rng.random() < .5:
                seeds_differ(s, key, rng, lambda z: bm.generate_path(inc[0], set_path=False, seed=z))
            elif n:
                s.ev("differ", f"{key}:differ", call(lambda: (bm.generate_path(inc[0], set_path=False), bm.generate_path(inc[0], set_path=False, seed=None)),
                                                     lambda v: {"a": columns(v[0]), "b": columns(v[1])}))
        kept(s, h, state)
    for h in range(rec.n(3, 20)):
        s = rec.stream("TraceProcess")
        n = rec.n([1500, 2600, 1200][h % 3], 6000)
        step = rng.randint(1, 3)
        m = Motion(rng, dims=[(2, 3), (2, 3), (4, 5, 6)][h % 3], dccs=[DayCountConvention.ACTUAL_OVER_360], inc=(timedelta(days=step), {"m": 0, "d": step, "s": "0"}, step * 86400))
        m.start = datetime(2000, 1, 1)
        m.end = m.start + timedelta(days=step * n)
        bm = m.build()
        s.ev("object", f"m{h}", call(lambda: bm, lambda b: {"start": stamp(b.start_date_time), "end": stamp(b.end_date_time), "dim": b.dimension}),
             md={"kind": "brownian", "m": m.record(), "dim": m.dim})
        seed = rng.choice([0, rng.randint(0, 10**6)])
        s.ev("moments", f"m{h}:moments", call(lambda: np.diff(bm.generate_path(m.inc[0], seed=seed), axis=1), columns), dt=f(step / 360), inc=m.inc[1])
