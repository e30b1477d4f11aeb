"""Multi-factor Gaussian models: the general one and the named ones."""
from scipy.linalg import expm
from affdrv import *

D = DayCountConvention


def well(K):
    """Real, distinct, positive eigenvalues and a well-conditioned basis."""
    w, v = np.linalg.eig(K)
    if np.any(np.abs(w.imag) > 0) or np.any(w.real < .015):
        return False
    w = np.sort(w.real)
    return all(b - a > .04 * b for a, b in zip(w, w[1:])) and np.linalg.cond(v) < 500


def speeds(rng, n):
    while True:
        k = [rng.choice([rng.uniform(.02, .3), rng.uniform(.1, 2.)]) for _ in range(n)]
        s = sorted(k)
        if all(b - a > .08 * b for a, b in zip(s, s[1:])):
            return k


def corr(rng, n):
    while True:
        c = correlation(rng, n, .15)
        if c is None:
            return np.eye(n)
        if np.linalg.eigvalsh(c)[0] > .01:
            return c


def tame(af, t, most=6):
    """No bond's price dwarfs the others': its convexity over its life stays moderate."""
    k, g, c = (np.array(af[x], float) for x in ("K", "g", "C"))
    b = np.linalg.solve(k.T, (np.eye(len(g)) - expm(-k.T * t)) @ g)
    return b @ c @ b * t < most


class General:
    name = "general"

    def __init__(self, rng, m):
        n = m.dim
        while True:
            if rng.random() < .35:
                K = np.diag(speeds(rng, n))
            else:
                V = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]) + np.eye(n)
                if abs(np.linalg.det(V)) < .05:
                    continue
                K = V @ np.diag(speeds(rng, n)) @ np.linalg.inv(V)
            if well(K):
                break
        self.K = K
        self.theta = np.array([rng.uniform(-.1, .2) for _ in range(n)])
        self.g = np.array([rng.uniform(-1, 1) for _ in range(n)])
        self.mu = rng.choice([0.0, rng.uniform(-.03, .05)])
        self.S = np.array([[rng.uniform(-.05, .05) for _ in range(n)] for _ in range(n)])
        if rng.random() < .3:
            self.S = np.linalg.cholesky(corr(rng, n)) * rng.uniform(.005, .05)
        self.C = self.S @ self.S.T
        self.p = MultivariateVasicekModel(self.mu, self.g, self.theta, self.K, self.S, m.build(), **m.dt())

    def states(self, rng):
        return self.theta + np.array([rng.uniform(-.1, .1) for _ in self.theta])


def vols(rng, n):
    return [rng.uniform(.002, .03) for _ in range(n)]


class Doubly:
    name = "doubly"

    def draw(self, rng):
        self.long, self.short = speeds(rng, 2)
        self.level = rng.uniform(-.01, .09)
        self.vl, self.vs = vols(rng, 2)
        self.rho = rng.choice([0., rng.uniform(-.95, .95)])

    def __init__(self, rng, m):
        self.draw(rng)
        self.p = DoublyMeanRevertingVasicek(short_rate_reversion_speed=self.short, short_rate_volatility=self.vs, long_term_mean=self.level,
                                            long_term_reversion_speed=self.long, long_term_volatility=self.vl, short_rate_long_term_correlation=self.rho,
                                            start_datetime=m.start, end_datetime=m.end, **m.dt())

    def given(self):
        return {"model": "doubly", "p": [f(x) for x in (self.long, self.short, self.level, self.vl, self.vs, self.rho)]}

    def derive(self):
        K = [[self.long, 0], [-self.short, self.short]]
        return K, [self.level] * 2, [0., 1.]

    def states(self, rng):
        return np.array([self.level + rng.uniform(-.03, .03) for _ in range(2)])


class Trebly(Doubly):
    name = "trebly"

    def __init__(self, rng, m):
        self.k = speeds(rng, 3)
        self.v = vols(rng, 3)
        self.level = rng.uniform(-.01, .09)
        c = corr(rng, 3)
        self.c = [float(c[0, 1]), float(c[0, 2]), float(c[1, 2])]
        self.p = TreblyMeanRevertingVasicek(short_rate_reversion_speed=self.k[2], short_rate_volatility=self.v[2], medium_rate_reversion_speed=self.k[1],
                                            medium_rate_volatility=self.v[1], long_term_mean=self.level, long_term_reversion_speed=self.k[0], long_term_volatility=self.v[0],
                                            short_rate_medium_rate_correlation=self.c[2], short_rate_long_term_correlation=self.c[1],
                                            medium_rate_long_term_correlation_correlation=self.c[0], start_datetime=m.start, end_datetime=m.end, **m.dt())

    def given(self):
        return {"model": "trebly", "p": [f(x) for x in self.k + [self.level] + self.v + self.c]}

    def derive(self):
        a, b, c = self.k
        return [[a, 0, 0], [-b, b, 0], [0, -c, c]], [self.level] * 3, [0., 0., 1.]

    def states(self, rng):
        return np.array([self.level + rng.uniform(-.03, .03) for _ in range(3)])


class Priced(Trebly):
    name = "priced"

    def __init__(self, rng, m):
        self.k = speeds(rng, 3)
        self.v = [rng.uniform(.01, .3)] + vols(rng, 2)
        self.risk, self.level = rng.uniform(-.2, .4), rng.uniform(0, .08)
        c = corr(rng, 3)
        self.c = [float(c[0, 1]), float(c[0, 2]), float(c[1, 2])]
        self.p = StochasticMarketPriceOfRisk(short_rate_reversion_speed=self.k[2], short_rate_vol=self.v[2], medium_rate_reversion_speed=self.k[1], medium_rate_vol=self.v[1],
                                             medium_rate_mean=self.level, market_price_of_risk_reversion_speed=self.k[0], market_price_of_risk_vol=self.v[0],
                                             market_price_of_risk_mean=self.risk, short_rate_medium_rate_correlation=self.c[2],
                                             short_rate_market_price_of_risk_correlation=self.c[1], medium_rate_market_price_of_risk_correlation=self.c[0],
                                             start_datetime=m.start, end_datetime=m.end, **m.dt())

    def given(self):
        return {"model": "priced", "p": [f(x) for x in self.k + [self.risk, self.level] + self.v + self.c]}

    def derive(self):
        a, b, c = self.k
        up = self.level + self.v[1] * self.risk / b
        return [[a, 0, 0], [-self.v[1], b, 0], [0, -c, c]], [self.risk, up, up], [0., 0., 1.]

    def states(self, rng):
        return np.array([rng.uniform(-.2, .4), self.level + rng.uniform(-.03, .03), self.level + rng.uniform(-.03, .03)])


def record(x, m):
    if x.name == "general":
        return short_md(m, m.inc, x.K, x.theta, x.C, x.g, x.mu, x.S)
    K, theta, g = x.derive()
    S = np.asarray(x.p.volatility_matrix, float)
    return {**short_md(m, m.inc, K, theta, S @ S.T, g, 0.0, S), "named": x.given()}


def run(rec):
    rng = rec.rng
    rec.mc.append(("price coefficients solve the model's equations; no arbitrage", "MCAffine", "MCAffine.cfg", {"Steps": rec.n(2, 10), "Wide": "TRUE"}))
    for h in range(rec.n(190, 2600)):
        s = rec.stream("TraceAffine")
        kind = rng.choice([General, General, Doubly, Trebly, Priced])
        dims = {General: (2, 2, 3), Doubly: (2,)}.get(kind, (3,))
        m = Motion(rng, dims=dims, dccs=ALL if kind is General else [D.ACTUAL_OVER_ACTUAL], plain=rng.random() < .12, inc=spans(rng, None))
        m.corr = None
        x = kind(rng, m)
        for _ in range(50):     # prices one can write down
            if tame(record(x, m)["af"], 60, 60):
                break
            x = kind(rng, m)
        if kind is Doubly and rng.random() < .3:      # built from a dictionary, with a path
            st = x.states(rng)
            seed = rng.choice([1, rng.randint(0, 10**6)])
            if not m.plain and (m.end - m.start) < timedelta(hours=200) and rng.random() < .4:
                m.hourly, m.inc = True, (timedelta(hours=1), {"m": 0, "d": 0, "s": "3600"}, 3600.0)
            d = {VOL: [x.long, x.vl, x.short, x.vs, x.rho], SHAPE: [x.level], STATES: list(st) if rng.random() < .5 else np.array(st)}
            kw = {"start_datetime": m.start, "end_datetime": m.end, **m.dt()}
            x.p = DoublyMeanRevertingVasicek.from_volatility_shape_parameters(d, **kw, **({} if seed == 1 else {"seed": seed}))
            key = f"{h}:built"
            s.ev("object", key, call(lambda: x.p, shape), md=record(x, m))
            probe(s, key, seed, 2, m.steps(m.inc))
            s.ev("generate", f"{key}:generate", call(lambda: x.p, lambda p: {"rates": line(p.path), "path": columns(p.state_variables_diffusion_process.path)}),
                 inc=m.inc[1], x=vec(st), seed=seed, set=True)
        else:
            s.ev("object", f"{h}:{x.name}:{m.dcc.name}:{m.start}:{m.end}", call(lambda: x.p, shape), md=record(x, m))
            if rng.random() < .9:
                generate(s, h, x.p, rng, m, m.inc, x.states(rng))
        p = x.p
        n = m.dim
        one = {"price": p.zero_coupon_bond_price, "yield": p.zero_coupon_bond_yield, "forward": p.instantaneous_forward_rate, "rate_mean": p.expected_short_rate,
               "rate_avg": p.average_expected_short_rate, "variance": p.short_rate_variance, "yield_vol": p.yield_volatility, "fwd_vol": p.instantaneous_forward_rate_volatility,
               "yield_conv": p.yield_convexity, "dprice_dt": p.zero_coupon_price_deriv_wrt_maturity}
        vecs = {"mean": p.expected_state_variable_mean, "dprice_dx": p.zero_coupon_bond_price_deriv_wrt_state_variables}
        many = {"yield_cov": (p.yield_covariance_matrix, mat), "fwd_cov": (p.instantaneous_forward_rate_covariance, mat), "price_conv": (p.price_convexities, line)}
        names = list(one) + list(vecs) + list(many) + ["price", "yield", "covariance", "riskless", "riskless", "generate", "generate", "at"] + (["parameters", "parameters", "state_vector"] if kind is Doubly else [])
        for k in range(rng.randint(5, 13)):
            key = f"{h}.{k}:{x.name}"
            op = rng.choice(names)
            frm = purchase(rng, m)
            to = maturity(rng, m, frm[1])
            if op in one:
                ask(s, key, op, one[op], frm, [to], number, rng)
            elif op in vecs:
                ask(s, key, op, vecs[op], frm, [to], line, rng)
            elif op == "covariance":
                ask(s, key, op, p.state_variable_covariance, frm, [to], mat, rng)
            elif op in many:
                tos = [to] + [maturity(rng, m, frm[1], .02) for _ in range(rng.randint(0, 3))]
                ask(s, key, op, many[op][0], frm, tos, many[op][1], rng, many=True)
            elif op == "riskless":
                gap = m.start - m.start
                tos = []
                for _ in range(200):
                    t = maturity(rng, m, frm[1], 0)
                    if all(abs((t - q).days) > 100 for q in tos) and tame(record(x, m)["af"], (t - frm[1]).days / 365):
                        tos.append(t)
                    if len(tos) == n + 1:
                        break
                else:
                    continue
                both = lambda a, purchase_date=None: (lambda ts: {"w": p.weights_for_riskless_portfolio(iter(ts), purchase_date) if purchase_date is not None else p.weights_for_riskless_portfolio(ts),
                                                                  "c": p.riskless_portfolio_convexity(tuple(ts), purchase_date=purchase_date) if purchase_date is not None else p.riskless_portfolio_convexity(ts)})(list(a))
                ask(s, key, op, both, frm, tos, lambda v: {"weights": line(v["w"]), "convexity": number(v["c"])}, rng, many=True)
            elif op == "generate":
                generate(s, key, p, rng, m, m.inc, x.states(rng), keep=rng.random() < .6)
            elif op == "at":
                s.ev(op, f"{key}:{op}", call(lambda: p(frm[1]), number), t=stamp(frm[1]))
            elif op == "state_vector":
                st = [float(v) for v in x.states(rng)]
                p.parameter_calibration_dict[STATES] = list(st)
                s.ev(op, f"{key}:{op}", call(lambda: (p.set_state_variables_from_dict(), p.starting_state_variables)[1], line), x=vec(st))
            elif op == "parameters":
                old = (x.long, x.short, x.vl, x.vs, x.rho), x.level
                x.draw(rng)
                which = rng.choice(["volatility", "shape", "both"])
                if which == "shape":
                    x.long, x.short, x.vl, x.vs, x.rho = old[0]
                if which == "volatility":
                    x.level = old[1]

                def go():
                    d = p.parameter_calibration_dict
                    if which != "shape":
                        d[VOL] = [x.long, x.vl, x.short, x.vs, x.rho]
                        p.set_volatiltiy_parameters_from_dict()
                    if which != "volatility":
                        d[SHAPE][0] = x.level
                        p.set_shape_parameters_from_dict()
                out = call(go)
                s.ev("parameters", f"{key}:parameters", out, md=record(x, m))
