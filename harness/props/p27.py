"""Simulated default times."""
import contextlib, io
import numpy as np
from vlib import *
from fixedIncome.src.curves.credit_curves.default_models import default_bernoulli_paths


def grouped(v):
    if not isinstance(v, np.ndarray) or v.ndim != 1:
        raise BadShape(f"not a vector: {v!r}"[:100])
    none, by = 0, {}
    for t in v.tolist():
        if t != t:
            none += 1
        else:
            by[t] = by.get(t, 0) + 1
    return {"none": none, "groups": [{"t": f(t), "n": by[t]} for t in sorted(by)]}


def hazard(rng, dt, steps):
    """A hazard rate: its description and the function."""
    scale = 1 / dt
    level = lambda: float(rng.choice([0.0, 0.0, -scale, scale, 2 * scale, rng.uniform(0, .05) * scale, rng.uniform(0, .5) * scale, rng.uniform(0, 1) * scale]))
    kind = rng.choice(["constant", "step", "step", "linear"])
    if kind == "constant":
        a = level()
        return {"kind": kind, "a": f(a)}, lambda t: a
    if kind == "step":
        a, b = level(), level()
        t0 = (rng.randint(1, steps + 1) - .5) * dt
        return {"kind": kind, "a": f(a), "b": f(b), "t0": f(t0)}, lambda t: a if t < t0 else b
    a, b = rng.uniform(0, .3) * scale, rng.uniform(-.3, .3) * scale / (steps * dt)
    return {"kind": kind, "a": f(a), "b": f(b)}, lambda t: a + b * t


def run(rec):
    rng = rec.rng
    rec.mc.append(("a name living step by step under every sequence of hazards", "MCDefault", "MCDefault.cfg", {"Depth": rec.n(5, 7)}))
    for h in range(rec.n(120, 2000)):
        s = rec.stream("TraceDefault")
        for k in range(rng.randint(1, 3)):
            np.random.seed(rng.randrange(2**32))
            usual = rng.random() < .2
            steps = rng.choice([0, 1, 1, 2, 3, 5, 12, 30, rng.randint(40, 260)])
            dt = .01 if usual else rng.choice([.01, .25, .5, 1.0, 2.0, 1 / 12, 1 / 250, rng.uniform(.001, 2)])
            haz = hazard(rng, dt, max(1, steps))
            maturity = steps * dt + rng.choice([0.0, dt / 2, dt * .999, dt * .001])
            n = 1000 if usual else rng.choice([0, 1, 7, 400, 1500, 6000])
            kw = {} if usual else dict(dt=dt, num_paths=n)
            run_ = {"hazard": haz[0], "dt": f(dt), "maturity": f(maturity), "exact": dt in (.25, .5, 1.0, 2.0)}
            with contextlib.redirect_stdout(io.StringIO()):
                if rng.random() < .5 and not usual:
                    out = call(lambda: default_bernoulli_paths(haz[1], maturity, dt, n), grouped)
                else:
                    out = call(lambda: default_bernoulli_paths(hazard_rate_fxcn=haz[1], time_to_maturity=maturity, **kw), grouped)
            s.ev("defaults", f"{h}:{k}:{haz[0]['kind']}:{steps}:{n}", out, run=run_, n=n)
