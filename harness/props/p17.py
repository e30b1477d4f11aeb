"""Loans: level payment, schedules, extra payments, present value."""
from curvedrv import *
from dateutil.relativedelta import relativedelta
from fixedIncome.src.assets.credit.loan import Loan, LoanPayment
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentTime


def rows(v):
    return [{"d": exact_date(p.payment_date), "interest": num(p.interest_payment), "principal": num(p.principal_payment), "v": num(p.payment)} for p in v]


def run(rec):
    rng = rec.rng
    for h in range(rec.n(260, 3000)):
        s = rec.stream("TraceLoan")
        n = rng.choice([PaymentFrequency.MONTHLY] * 3 + list(PaymentFrequency))
        time = rng.choice([PaymentTime.END_OF_MONTH, PaymentTime.START_OF_MONTH] * 6 + [PaymentTime.FIXED_DATE])
        dcc = rng.choice([DayCountConvention.THIRTY_OVER_THREESIXTY] + list(DayCountConvention))
        months = rng.choice([12, 24, 36, 60, rng.randint(1, 60)] + ([rng.choice([360, 360, 480, 600])] if rng.random() < .2 else []))
        if rng.random() < .15:
            days = rng.randint(40, 1200)
            term, trec = timedelta(days=days), {"m": 0, "d": days}
        elif months > 12 and rng.random() < .15:
            term, trec = relativedelta(years=months // 12, months=months % 12), {"m": months, "d": 0}
        elif months % 12 == 0 and rng.random() < .7:
            term, trec = relativedelta(years=months // 12), {"m": months, "d": 0}
        else:
            term, trec = relativedelta(months=months), {"m": months, "d": 0}
        start = rng.choice([date.fromordinal(rng.randint(730000, 745000)), date(rng.randint(2001, 2040), rng.randint(1, 12), 1),
                            date(rng.randint(2001, 2040), rng.randint(1, 12), 28) + timedelta(days=rng.randint(-1, 4)), date(rng.randint(2000, 2040), 12, rng.randint(1, 31))])
        principal = rng.choice([100_000, 1000, round(rng.uniform(10, 10**6), 2)])
        rate = rng.choice([0, 0.06, -0.01, rng.uniform(0.001, 0.2), rng.uniform(0.001, 0.2)])
        kw = dict(principal=principal, interest_rate=rate, origination_date=start, term_length=term)
        if (dcc.name, n.name, time.name) != ("THIRTY_OVER_THREESIXTY", "MONTHLY", "END_OF_MONTH") or rng.random() < .3:
            kw.update(day_count_convention=dcc, payment_frequency=n, payment_time=time)
        x = Loan(**kw)
        s.ev("loan", f"{h}:{start}:{trec['m']}m{trec['d']}d:{n.name}:{time.name}:{dcc.name}", call(lambda: x.principal, num),
             loan={"principal": f(principal), "rate": f(rate), "from": d(start), "term": trec, "dcc": dcc.name, "n": n.value, "time": time.name})
        ref = start + timedelta(days=rng.choice([0, 0, rng.randint(-5, 200)]))
        if rng.random() < .4:        # around a payment
            first = start.replace(day=1) + relativedelta(months=rng.choice([1, 2, (12 // (n.value or 12)) * rng.randint(1, 4)]))
            ref = first + (relativedelta(day=31) if time is PaymentTime.END_OF_MONTH else relativedelta()) + timedelta(days=rng.choice([-1, 0, 0, 1, 1, 2]))
        rc, q, last = discount_curve(rng, ref, int(months * 30.5) + 80 + (days if trec["d"] else 0))
        s.ev("discount", f"{h}:discount", None, curve=rc)
        level = call(lambda: x.calculate_fixed_payment_amount(), num)
        s.ev("level", f"{h}:level", level)
        for k in range(rng.randint(1, 3)):
            key = f"{h}.{k}"
            what = rng.choice(["schedule", "schedule", "schedule", "pv", "level"])
            if what == "pv":
                via = rng.random() < .5
                s.ev("pv", f"{key}:pv", call(lambda: x.present_value(q), num))
            elif what == "level":
                s.ev("level", f"{key}:level", call(lambda: x.calculate_fixed_payment_amount(), num))
            else:
                base = float(level["v"]) if level["ok"] else principal / 10
                amount = rng.choice([base, base, base * rng.uniform(.8, 3), base * rng.uniform(.05, .9), principal * 2, round(base)])
                c = months * 3
                kind = rng.choice(["none", "none", "number", "list", "gen", "long", "one"])
                if kind == "none":
                    given, es = None, []
                elif kind == "number":
                    v = rng.choice([0, 10, base * rng.uniform(0, 2)])
                    given, es = v, [f(v)] * 420
                else:
                    m = {"list": rng.randint(0, 8), "gen": rng.randint(0, 8), "one": 1, "long": 500}[kind]
                    vs = [rng.choice([0, 0, base * rng.uniform(0, 3), 25]) for _ in range(m)]
                    given, es = (iter(vs) if kind == "gen" else vs if rng.random() < .5 else tuple(vs)), [f(v) for v in vs]
                s.ev("schedule", f"{key}:schedule:{kind}", call(lambda: x.generate_payment_schedule(amount, given) if rng.random() < .5 or given is None
                                                                else x.generate_payment_schedule(payment_amount=amount, extra_payments=given), rows), amount=f(amount), extra=es)
    rec.mc.append(("a loan paid with every choice of one extra payment", "MCLoan", "MCLoan.cfg", {"Origins": rec.n(4, 33)}))
