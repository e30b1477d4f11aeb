"""Mean-variance portfolios."""
import numpy as np
from vlib import call, f, vec, mat
from fixedIncome.src.portfolio.portfolio_optimization import PortfolioOptimizer


def run(rec):
    rng = rec.rng
    for h in range(rec.n(110, 1500)):
        s = rec.stream("TraceOptimise")
        n = rng.choice([5, 6, 7]) if rng.random() < .12 else rng.randint(2, 4 if rec.quick else 5)
        mu = np.array([round(rng.uniform(-.02, .2), 4) for _ in range(n)])
        if max(mu) - min(mu) < .02:
            mu[0] = max(mu) + .03
        scale = rng.choice([.01, .1, .3, .6])
        a = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
        cov = scale ** 2 * (a @ a.T / n + np.diag([rng.uniform(.1, 1) for _ in range(n)]))
        cov = (cov + cov.T) / 2
        o = PortfolioOptimizer(mu, cov)
        s.ev("market", f"{h}:market:{n}", call(lambda: o, lambda v: {"mu": vec(v.mean_vector), "cov": mat(v.covariance_matrix)}), mu=vec(mu), cov=mat(cov))
        lo, hi = float(min(mu)), float(max(mu))
        for k in range(rng.randint(2, 4)):
            key = f"{h}.{k}"
            short = rng.random() < .4
            op = rng.choice(["min_variance", "min_variance", "max_utility", "max_utility", "frontier", "sharpe"])
            if op == "min_variance":
                t = rng.uniform(lo + .02 * (hi - lo), hi - .02 * (hi - lo)) if not short or rng.random() < .7 else rng.uniform(lo - .05, hi + .05)
                if rng.random() < .4:
                    t = rng.choice([lo, hi])
                elif short and rng.random() < .3:        # far outside: large positions, long and short
                    t = rng.choice([lo - rng.uniform(.05, .8), hi + rng.uniform(.05, .8)])
                s.ev(op, f"{key}:{op}:{short}", call(lambda: o.find_minimum_variance_portfolio(t) if not short and rng.random() < .5 else
                                                     o.find_minimum_variance_portfolio(target_return=t, allow_short_positions=short), vec), target=f(t), short=short)
            elif op == "max_utility":
                w, p = rng.choice([1, rng.uniform(.5, 10)]), rng.choice([1, rng.uniform(.3, 4)])
                s.ev(op, f"{key}:{op}:{short}", call(lambda: o.find_maximum_utility_portfolio(w, p) if not short and rng.random() < .5 else
                                                     o.find_maximum_utility_portfolio(initial_wealth=w, param=p, allow_short_positions=short), vec), wealth=f(w), param=f(p), short=short)
            elif op == "frontier":
                step = round((hi - lo) / rng.randint(4, 9), 4)
                a, b = (None, None) if rng.random() < .5 else (lo + rng.uniform(.05, .3) * (hi - lo), hi - rng.uniform(.05, .3) * (hi - lo))
                if rng.random() < .2:       # the documented default step
                    step, a = .001, lo + rng.uniform(.1, .4) * (hi - lo)
                    b = a + rng.uniform(.0021, .0065)
                out = call(lambda: o.calculate_efficient_frontier(a, b, allow_short_positions=short) if step == .001 else o.calculate_efficient_frontier(a, b, step, short) if a else o.calculate_efficient_frontier(return_increment=step, allow_short_positions=short),
                           lambda v: {"returns": vec(v[0]), "vols": vec(v[1]), "weights": mat(v[2])})
                s.ev(op, f"{key}:{op}:{short}", out, lower=f(a if a else lo + step), upper=f(b if b else hi - step), step=f(step), short=short, max=f(hi - .01 * (hi - lo)))
            else:
                m = rng.randint(1, 5)
                r, v, z = np.array([rng.uniform(-.1, .3) for _ in range(m)]), np.array([rng.uniform(.01, .5) for _ in range(m)]), rng.uniform(-.01, .05)
                s.ev(op, f"{key}:{op}", call(lambda: o.sharpe_ratio(r, v, z), vec), returns=vec(r), vols=vec(v), riskfree=f(z))
