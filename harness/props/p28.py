"""Two-stage calibration of short-rate models."""
import os
import sys
from affdrv import *
from fixedIncome.src.stochastics.calibrators.factorized_calibrator import VolatilityFactorizedCalibrator, CalibrationInput


def hush():
    """The optimiser reports on descriptors 1 and 2, some of it only at exit; ours goes to duplicates."""
    if getattr(hush, "done", False):
        return
    hush.done = True
    null = os.open(os.devnull, os.O_WRONLY)
    for d, name in ((1, "stdout"), (2, "stderr")):
        getattr(sys, name).flush()
        setattr(sys, name, os.fdopen(os.dup(d), "w", buffering=1))
        os.dup2(null, d)
    os.close(null)


class One:
    kind = "one"

    def __init__(self, rng, near=None):
        if near is None:
            self.vol, self.shape, self.state = [rng.uniform(.004, .03), rng.uniform(.05, .6)], [rng.uniform(.01, .07)], [rng.uniform(.005, .08)]
        else:
            self.vol = [near.vol[0] * rng.uniform(.3, 3), near.vol[1] * rng.uniform(.4, 1.6)]
            self.shape, self.state = [rng.uniform(.01, .08)], [rng.uniform(.005, .09)]

    def build(self, m):
        x = VasicekModel(self.shape[0], self.vol[1], self.vol[0], BrownianMotion(m["start"], m["end"]), m["dt"])
        return self.put(x)

    def put(self, x):
        x.parameter_calibration_dict[STATES][:] = self.state
        x.set_state_variables_from_dict()
        return x

    @staticmethod
    def own(x):
        return {"vol": vec([x.volatility, x.reversion_speed]), "shape": vec([x.long_term_mean]), "state": vec([getattr(x, "calibrated_starting_short_rate", 0.0)])}

    def record(self):
        return {"kind": self.kind, "vol": vec(self.vol), "shape": vec(self.shape), "state": vec(self.state)}


class Two(One):
    kind = "doubly"

    def __init__(self, rng, near=None):
        if near is None:
            self.vol = [rng.uniform(.02, .25), rng.uniform(.004, .03), rng.uniform(.3, .9), rng.uniform(.004, .03), rng.uniform(.05, .8)]
            self.shape, self.state = [rng.uniform(.01, .07)], [rng.uniform(.01, .08), rng.uniform(.01, .08)]
        else:
            v = near.vol
            self.vol = [v[0] * rng.uniform(.6, 1.1), v[1] * rng.uniform(.3, 3), min(.95, v[2] * rng.uniform(.9, 1.3)), v[3] * rng.uniform(.3, 3), rng.uniform(.05, .9)]
            self.shape, self.state = [rng.uniform(.01, .08)], [rng.uniform(.005, .09), rng.uniform(.005, .09)]

    def build(self, m):
        x = DoublyMeanRevertingVasicek(short_rate_reversion_speed=self.vol[2], short_rate_volatility=self.vol[3], long_term_mean=self.shape[0],
                                       long_term_reversion_speed=self.vol[0], long_term_volatility=self.vol[1], short_rate_long_term_correlation=self.vol[4],
                                       start_datetime=m["start"], end_datetime=m["end"], dt=m["dt"])
        return self.put(x)

    @staticmethod
    def own(x):
        return {"vol": vec([x.long_term_reversion_speed, x.long_term_volatility, x.short_rate_reversion_speed, x.short_rate_volatility,
                            x.short_rate_long_term_correlation]), "shape": vec([x.long_term_mean]), "state": vec(x.starting_state_variables)}


def held(x):
    d = x.parameter_calibration_dict
    return {"vol": vec(d[VOL]), "shape": vec(d[SHAPE]), "state": vec(d[STATES])}


def fresh(p, m):
    x = p.build(m)
    x.generate_path(np.array(p.state), seed=1)
    return x


def run(rec):
    rng = rec.rng
    hush()
    rec.mc.append(("two-stage search over all candidates in any order", "MCCalibration", "MCCalibration.cfg", {"Tries": rec.n(2, 4)}))
    for h in range(rec.n(20, 240)):
        s = rec.stream("TraceCalib")
        cls = rng.choice([One, Two, Two])
        truth = cls(rng)
        start = datetime(rng.randint(1995, 2035), rng.randint(1, 12), rng.randint(1, 28))
        dt, inc = rng.choice([(relativedelta(months=6), {"m": 6, "d": 0, "s": "0"}), (relativedelta(years=1), {"m": 12, "d": 0, "s": "0"}), (timedelta(days=300), {"m": 0, "d": 300, "s": "0"})])
        m = {"start": start, "end": start + timedelta(days=rng.randint(900, 6000)), "dt": dt, "inc": inc}
        true = fresh(truth, m)
        noise = rng.choice([0, .02, .05])

        def market(value, scale):
            days = sorted(rng.sample([180, 365, 700, 1100, 1500, 1825, 2600, 3650, 5000, 7300], rng.randint(5, 8)))
            pts = []
            for d_ in days:
                t = start + timedelta(days=d_ + rng.randint(0, 60))
                if rng.random() < .15:
                    t = m["end"]
                for _ in range(rng.choice([1, 1, 1, 1, 2])):  # also several quotes for a maturity
                    pts.append((t, value(t) * (1 + noise * rng.uniform(-1, 1) * scale)))
            rng.shuffle(pts)
            return pts
        vols = market(true.yield_volatility, 1)
        prices = market(true.zero_coupon_bond_price, .02)
        pts = lambda ps: [{"t": stamp(t), "v": f(v)} for t, v in ps]
        s.ev("market", f"{h}:market", vols=pts(vols), prices=pts(prices), start=stamp(start), dcc="ACTUAL_OVER_ACTUAL")
        ins = lambda ps: [CalibrationInput(maturity_date=t, value=v) for t, v in ps]
        it = (lambda v: iter(v)) if rng.random() < .3 else (lambda v: v)
        c = VolatilityFactorizedCalibrator(volatility_inputs=it(ins(vols)), price_inputs=it(ins(prices)))
        for k in range(rng.choice([1, 2, 5, 6])):
            key = f"{h}.{k}:{cls.kind}"
            if k == 0 or rng.random() < .7:
                p = truth if rng.random() < .1 else cls(rng, truth)
                x = p.build(m)
                given, again = p.record(), False
            else:  # the same model again, from where the stages before left it
                given, again = {"kind": cls.kind, **held(x)}, True

            def stage(fit):
                def out(r):
                    return {"x": vec(r.x), "loss": f(r.fun), "dict": held(x), "own": cls.own(x)}
                return call(lambda: fit(model=x), out, limit=120)
            what = rng.choice(["volatility", "shape", "calibrate", "calibrate", "calibrate"])
            if what == "volatility":
                s.ev(what, f"{key}:{what}", stage(c.calibrate_volatility_parameters), given=given, again=again)
            elif what == "shape":
                s.ev(what, f"{key}:{what}", stage(c.calibrate_shape_state_variable_parameters), given=given, again=again)
            else:
                def out(y):
                    if not isinstance(y, type(x)):
                        raise BadShape(type(y).__name__)
                    ask = lambda ps: sorted(ps)
                    return {"dict": held(y), "own": cls.own(y), "start": stamp(y.start_date_time), "end": stamp(y.end_date_time), "steps": int(np.shape(y.path)[-1]) - 1,
                            "vols": vec([y.yield_volatility(t) for t, _ in vols]), "prices": vec([y.zero_coupon_bond_price(t) for t, _ in prices])}
                o = call(lambda: c.calibrate(x), out, limit=120)
                s.ev(what, f"{key}:{what}", o, given=given, again=again, inc=m["inc"], start=stamp(m["start"]), end=stamp(m["end"]))
