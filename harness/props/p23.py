"""Short rate models: rates of state variables, their integral and curves."""
from procdrv import *
from fixedIncome.src.curves.curve_enumerations import CurveIndex
from fixedIncome.src.stochastics.short_rate_models.base_short_rate_model import ShortRateModel
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import VasicekModel, CalibrationParamterType


def readings(curve, asks):
    v = []
    for t in asks:
        try:
            x = curve(t)
        except Exception:
            x = None
        v.append("none" if x is None else number(x))
    return v


def curve(c, asks):
    return {"at": readings(c, asks), "ref": stamp(c.reference_date), "index": getattr(c.index, "name", "NONE")}


def general(rng, m):
    dim = rng.choice([1, 2, 2, 3])
    rows, pairs = affine_rows(rng, dim, m.dim, rng.choice([None, "const", "ou", "ou"]))
    c = np.array([rng.uniform(-1, 1) for _ in range(dim)])
    c0, q = rng.choice([0, rng.uniform(-.1, .1)]), rng.choice([0, 0, rng.uniform(-.5, .5)])
    if rng.random() < .4:
        c0, q, c = 0, 0, np.eye(dim)[0]
    p = ShortRateModel(lambda x: c0 + c @ x + q * x[0] ** 2, DiffusionProcess(pairs, m.build(), **m.dt()))
    return p, rows, dim, {"c0": f(c0), "c": vec(c), "q": f(q)}


def vasicek(rng, m):
    level, speed, vol = rng.uniform(-.02, .08), rng.uniform(.02, 1.5), rng.uniform(.001, .05)
    p = VasicekModel(level, speed, vol, m.build(), **m.dt())
    return p, [{"a": f(speed * level), "lin": [f(-speed)], "b": "0", "s": [f(vol)], "u": ["0"]}], 1, {"c0": "0", "c": ["1"], "q": "0"}


def run(rec):
    rng = rec.rng
    for h, plan in histories(rec, "short", rec.n(200, 3000)):
        s = rec.stream("TraceProcess")
        one = rng.random() < .4
        dates = rng.random() < .1
        m = Motion(rng, dims=(1,) if one else (1, 2, 3), plain=dates, dccs=ACTUALS if rng.random() < .8 else ALL)
        p, rows, dim, tr = (vasicek if one else general)(rng, m)
        actual = m.dcc in ACTUALS
        md = {"kind": "short", "m": m.record(), "dim": dim, "inc": m.inc[1], "rows": rows, "tr": tr}
        shape = lambda b: {"start": stamp(b.start_date_time), "end": stamp(b.end_date_time), "dim": b.dimension}
        key = f"{h}:{'vasicek' if one else 'general'}:{dim}x{m.dim}:{m.dcc.name}:{m.start}:{m.end}"
        s.ev("object", key, call(lambda: p, shape), md=md)
        asks = [m.inside(rng) for _ in range(3)] + [m.start, m.end]

        def state():
            sv = p.state_variables_diffusion_process
            return {"path": opt(sv.path, columns), "rates": opt(p.path, line), "integral": opt(p.integrated_path, line),
                    "discount": opt(p.discount_curve, lambda c: readings(c, asks))}
        inc = m.inc
        last = None
        seeds = [rng.randint(0, 2**31) for _ in range(2)]
        for k in range(len(plan) if plan else rng.randint(4, 11)):
            key = f"{h}.{k}"
            op = plan[k]["op"] if plan else rng.choice(["generate", "generate", "generate", "at", "at", "set_dt", "integral", "integral", "accrual", "discount", "discount"] + (["new"] if one else []))
            n = m.steps(inc)
            if op == "generate":
                seed = seeds[plan[k]["r"] - 1] if plan else rng.choice([0, 1, rng.randint(0, 2**31)])
                np.random.seed(rng.randint(0, 2**31))
                if rng.random() < .9:
                    probe(s, key, seed, m.dim, n)
                np.random.standard_normal(rng.randint(0, 5))
                keep = plan[k]["set"] if plan else rng.random() < .65
                x = np.array([rng.choice([rng.uniform(-1, 1), rng.uniform(.01, .1)]) for _ in range(dim)])
                given = float(x[0]) if dim == 1 and rng.random() < .5 else x.copy()
                if rng.random() < .06:
                    seed = None
                kw = {} if seed is None else {"seed": seed}
                if not keep or rng.random() < .5:
                    kw["set_path"] = keep

                def out(v):
                    r = {"rates": line(v)}
                    if keep:
                        r["path"] = columns(p.state_variables_diffusion_process.path)
                    return r
                s.ev("generate", f"{key}:generate:{n}:{keep}", call(lambda: p.generate_path(given, **kw), out), inc=inc[1], x=vec(x), seed=-1 if seed is None else seed, set=keep)
            elif op == "at":
                t = m.inside(rng)
                s.ev("at", f"{key}:at:{t}", call(lambda: p(t), number), t=stamp(t))
                continue
            elif op == "set_dt":
                new = increment(rng, m.plain)
                if m.steps(new) > 40:
                    continue
                inc = new
                s.ev("set_dt", f"{key}:set_dt", call(lambda: p.set_dt(inc[0])), inc=inc[1])
            elif op == "new":      # other parameters: the paths generated from now on follow them
                level, speed, vol = rng.uniform(-.02, .08), rng.uniform(.02, 1.5), rng.uniform(.001, .05)
                old = md["rows"][0]
                which = rng.choice(["volatility", "shape", "both"])
                if which == "shape":
                    speed, vol = -float(old["lin"][0]), float(old["s"][0])
                if which == "volatility":
                    level = p.long_term_mean

                def go():
                    if which != "shape":
                        p.parameter_calibration_dict[CalibrationParamterType.VOLATILITY] = [vol, speed]
                        p.set_volatiltiy_parameters_from_dict()
                    if which != "volatility":
                        p.parameter_calibration_dict[CalibrationParamterType.SHAPE] = [level]
                        p.set_shape_parameters_from_dict()
                md = {**md, "inc": inc[1], "rows": [{"a": f(speed * level), "lin": [f(-speed)], "b": "0", "s": [f(vol)], "u": ["0"]}]}
                s.ev("parameters", f"{key}:parameters", call(go), md=md)
            else:
                times = None
                if plan[k]["r"] == 2 if plan else rng.random() < .45:
                    size = rng.randint(3, 9)
                    if rng.random() < .15:      # as many times as the path has
                        size = min(n + 1, 12)
                    if last and rng.random() < .6:      # as many times as last time, others or the same ones
                        size = len(last)
                    times = sorted(set(m.inside(rng) for _ in range(size)))
                    if last and rng.random() < .2:
                        times = list(last)
                    if len(times) < 2 and (op != "integral" or not times):
                        continue
                    if op == "integral" and rng.random() < .06:
                        times = times[:1]
                    last = list(times)
                    if rng.random() < .15:
                        times = tuple(times)
                rec_times = [stamp(t) for t in times or ()]
                if op == "integral":
                    s.ev("integral", f"{key}:integral", call(lambda: p.generate_integrated_path(times) if times else p.generate_integrated_path(), line), times=rec_times)
                elif not actual:
                    continue
                elif op == "accrual":
                    s.ev("accrual", f"{key}:accrual", call(lambda: p.accrual_curve(times) if times else p.accrual_curve(), lambda c: curve(c, asks)),
                         times=rec_times, index="NONE", asks=[stamp(t) for t in asks])
                else:
                    ix = rng.choice([None, None] + list(CurveIndex))
                    kw = ({} if times is None else {"datetimes": times}) | ({} if ix is None else {"curve_index": ix})
                    s.ev("discount", f"{key}:discount", call(lambda: p.create_discount_curve(**kw), lambda c: curve(c, asks)),
                         times=rec_times, index=(ix or CurveIndex.NONE).name, asks=[stamp(t) for t in asks])
            kept(s, key, state, asks)
