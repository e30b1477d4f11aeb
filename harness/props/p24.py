"""One-factor Vasicek model: prices, yields, forwards, moments."""
from affdrv import *

MANY = ["price_conv"]


def draw(rng):
    return rng.uniform(-.02, .09), rng.choice([rng.uniform(.02, .3), rng.uniform(.02, .3), rng.uniform(.1, 1.5), rng.uniform(.1, 1.5), rng.uniform(.003, .02)]), rng.choice([rng.uniform(.001, .03), rng.uniform(.01, .2), 0.0])


def record(m, inc, level, speed, vol):
    return short_md(m, inc, [[speed]], [level], [[vol * vol]], [1.0], 0.0, [[vol]])


def run(rec):
    rng = rec.rng
    rec.mc.append(("price coefficients solve the model's equations; no arbitrage", "MCAffine", "MCAffine.cfg", {"Steps": rec.n(3, 14), "Wide": "FALSE" if rec.quick else "TRUE"}))
    for h in range(rec.n(200, 2600)):
        s = rec.stream("TraceAffine")
        m = Motion(rng, dims=(1,), dccs=ALL, plain=rng.random() < .12, inc=spans(rng, None))
        level, speed, vol = draw(rng)
        given = {"reversion_level": level, "reversion_speed": speed, "volatility": vol, "brownian_motion": m.build(), **m.dt()}
        p = VasicekModel(**given) if rng.random() < .5 else VasicekModel(level, speed, vol, given["brownian_motion"], **m.dt())
        md = record(m, m.inc, level, speed, vol)
        s.ev("object", f"{h}:{m.dcc.name}:{m.start}:{m.end}", call(lambda: p, shape), md=md)
        if rng.random() < .1:
            ops = 2
        else:
            generate(s, h, p, rng, m, m.inc, [rng.uniform(-.02, .12)])
            ops = rng.randint(6, 14)
        one = {"price": p.zero_coupon_bond_price, "yield": p.zero_coupon_yield, "forward": p.instantaneous_forward_rate, "rate_mean": p.expected_short_rate,
               "rate_avg": p.average_expected_short_rate, "variance": p.short_rate_variance, "yield_vol": p.yield_volatility, "fwd_vol": p.instantaneous_forward_rate_volatility}
        names = list(one) + ["price", "yield", "price_conv", "self_convexity", "limit", "at", "parameters", "generate", "generate", "state_vector"]
        for k in range(ops):
            key = f"{h}.{k}"
            op = rng.choice(names)
            frm = purchase(rng, m)
            to = maturity(rng, m, frm[1])
            if op in one:
                fn = one[op]
                if op == "yield" and rng.random() < .4:
                    fn = p.zero_coupon_bond_yield
                ask(s, key, op, fn, frm, [to], number, rng)
            elif op == "price_conv":
                tos = [to] + [maturity(rng, m, frm[1], .03) for _ in range(rng.randint(0, 3))]
                ask(s, key, op, p.price_convexities, frm, tos, line, rng, many=True)
            elif op == "self_convexity":
                to = maturity(rng, m, m.start)
                s.ev(op, f"{key}:{op}", call(lambda: p.yield_convexity(to), number), **{"from": {"set": False}, "to": [stamp(to)]})
            elif op == "at":
                s.ev(op, f"{key}:{op}", call(lambda: p(frm[1]), number), t=stamp(frm[1]))
            elif op == "limit":
                s.ev(op, f"{key}:{op}", call(lambda: p.convexity_limit, number))
            elif op == "generate":
                generate(s, key, p, rng, m, m.inc, [rng.uniform(-.02, .12)], keep=rng.random() < .6)
            elif op == "state_vector":
                r = rng.uniform(-.05, .1)
                p.parameter_calibration_dict[STATES][0] = r
                s.ev(op, f"{key}:{op}", call(lambda: (p.set_state_variables_from_dict(), p.calibrated_starting_short_rate)[1], lambda v: [number(v)]), x=[f(r)])
            elif op == "parameters":
                a, b, c = draw(rng)
                which = rng.choice(["volatility", "shape", "both"])
                if which != "volatility":
                    level = a
                if which != "shape":
                    speed, vol = b, c

                def go():
                    if which != "shape":
                        if rng.random() < .5:
                            p.parameter_calibration_dict[VOL] = [vol, speed]
                        else:
                            p.parameter_calibration_dict[VOL][0], p.parameter_calibration_dict[VOL][1] = vol, speed
                        p.set_volatiltiy_parameters_from_dict()
                    if which != "volatility":
                        p.parameter_calibration_dict[SHAPE] = [level]
                        p.set_shape_parameters_from_dict()
                s.ev("parameters", f"{key}:parameters", call(go), md=record(m, m.inc, level, speed, vol))
