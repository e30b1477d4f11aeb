"""Affine short-rate models, driven beside the specification."""
from procdrv import *
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import (
    VasicekModel, MultivariateVasicekModel, CalibrationParamterType)
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import DoublyMeanRevertingVasicek
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.trebly_mean_reverting_vasicek import TreblyMeanRevertingVasicek
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.stochastic_market_price_of_risk import StochasticMarketPriceOfRisk

VOL, SHAPE, STATES = CalibrationParamterType.VOLATILITY, CalibrationParamterType.SHAPE, CalibrationParamterType.STATE_VARIABLES


def mat(a):
    a = np.asarray(a)
    if a.ndim != 2:
        raise TypeError(f"{a.ndim} dimensions where a matrix belongs")
    return [vec(r) for r in a]


def af(K, theta, C, g, mu):
    return {"K": mat(K), "theta": vec(theta), "C": mat(C), "g": vec(g), "mu": f(mu)}


def short_md(m, inc, K, theta, C, g, mu, S):
    """The record of a model: its motion, rows of its Euler steps, rate and affine parameters."""
    K, theta, S = np.asarray(K, float), np.asarray(theta, float), np.asarray(S, float)
    rows = [{"a": f(float(K[i] @ theta)), "lin": vec(-K[i]), "b": "0", "s": vec(S[i]), "u": vec(0 * S[i])} for i in range(len(theta))]
    return {"kind": "short", "m": m.record(), "dim": len(theta), "inc": inc[1], "rows": rows, "tr": {"c0": f(mu), "c": vec(g), "q": "0"},
            "af": af(K, theta, C, g, mu), "vol": mat(S)}


def shape(b):
    return {"start": stamp(b.start_date_time), "end": stamp(b.end_date_time), "dim": b.dimension}


def generate(s, key, p, rng, m, inc, x, keep=True, seed=None):
    seed = rng.randint(0, 2**31) if seed is None else seed
    probe(s, key, seed, m.dim, m.steps(inc))

    def out(v):
        r = {"rates": line(v)}
        if keep:
            r["path"] = columns(p.state_variables_diffusion_process.path)
        return r
    given = float(x[0]) if len(x) == 1 and rng.random() < .5 else np.array(x)
    s.ev("generate", f"{key}:generate:{keep}", call(lambda: p.generate_path(given, set_path=keep, seed=seed), out), inc=inc[1], x=vec(x), seed=seed, set=keep)


def maturity(rng, m, t, same=.05):
    u = rng.random()
    if u < same:
        return t
    least = 40 if m.dcc.name == "THIRTY_OVER_THREESIXTY" else 3
    asked = m.__dict__.setdefault("tos", [])       # the same questions again, after what came between
    again = [x for x in asked if x >= t + timedelta(days=least)]
    if again and rng.random() < .35:
        return rng.choice(again)
    d = rng.choice([rng.randint(least, 400), rng.randint(least, 4000), rng.randint(300, 11000), rng.choice([365, 730, 3652])])
    d = timedelta(days=d) if m.plain or rng.random() < .5 else timedelta(days=d, seconds=rng.randint(0, 86399))
    asked.append(t + d)
    return t + d


def purchase(rng, m):
    """(given to the library or None for the default, timestamp, record)"""
    if rng.random() < .3:
        return None, m.start, {"set": False}
    asked = m.__dict__.setdefault("froms", [])
    t = rng.choice(asked) if asked and rng.random() < .45 else m.inside(rng)
    if rng.random() < .1:
        t = m.start
    asked.append(t)
    return t, t, {"set": True, "t": stamp(t)}


def ask(s, key, op, fn, frm, tos, conv, rng, many=False, named=False):
    """Ask about maturities, purchase date given by position or name."""
    given, _, rec = frm
    arg = tos if many else tos[0]
    kw = rng.random() < .5

    def go():
        a = rng_iter(arg) if many else arg
        if given is None:
            return fn(a)
        if kw:
            return fn(a, purchase_date=given)
        return fn(a, given)
    style = rng.choice(["list", "tuple", "iter"])

    def rng_iter(a):
        return list(a) if style == "list" else tuple(a) if style == "tuple" else iter(a)
    s.ev(op, f"{key}:{op}", call(go, conv), **{"from": rec, "to": [stamp(t) for t in tos]})


def spans(rng, m, dates=False):
    """A motion for a model: life of days to decades."""
    inc = rng.choice([(relativedelta(days=5), {"m": 0, "d": 5, "s": "0"}, 5 * 86400),
                      (relativedelta(months=6), {"m": 6, "d": 0, "s": "0"}, 182 * 86400),
                      (timedelta(days=1), {"m": 0, "d": 1, "s": "0"}, 86400),
                      (relativedelta(months=1), {"m": 1, "d": 0, "s": "0"}, 30 * 86400)])
    return inc
