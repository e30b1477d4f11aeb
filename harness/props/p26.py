"""Settlement rates of one-month futures."""
from swapdrv import *


def run(rec):
    rng = rec.rng
    for h in range(rec.n(400, 6000)):
        s = rec.stream("TraceSwap")
        cal = US if rng.random() < .6 else random_calendar(rng)
        year = rng.choice([rng.randint(1990, 2060), 2000, 2024, 2028])
        for month in rng.sample(list(Months), rng.randint(1, 3)):
            dcc = rng.choice(list(DayCountConvention))
            price = rng.uniform(90, 100)
            kw = dict(contract_name=f"SER{year % 10}", purchase_date=date(year, 1, 15) - timedelta(days=rng.randint(0, 400)), delivery_month=month, delivery_year=year,
                      price=price, holiday_calendar=cal[1])
            if rng.random() < .7:
                kw.update(accrual_day_count_convention=dcc, notional=rng.randint(1, 10**7))
            else:
                dcc = DayCountConvention.ACTUAL_OVER_360
            x = OneMonthSofrFuture(**kw)
            first = date(year, month.value, 1)
            s.ev("future_terms", f"{h}:{month.name}:{year}:terms", call(lambda: x, lambda v: {
                "name": v.contract_name, "price": f(v.price), "month": v.delivery_month.value, "year": v.delivery_year, "purchase": exact_date(v.purchase_date),
                "dcc": v.accrual_day_count_convention.name}),
                terms={"name": kw["contract_name"], "price": f(price), "month": month.value, "year": year, "purchase": d(kw["purchase_date"]),
                       "dcc": dcc.name})
            for k in range(rng.randint(1, 2)):
                r = random_rate(rng, first + timedelta(days=rng.choice([0, 0, 5])), first + timedelta(days=40))
                s.ev("future", f"{h}:{month.name}:{year}:{k}:{r[0]['kind']}:{dcc.name}", call(lambda: x.calculate_settlement_rate(r[1]), num),
                     future={"year": year, "month": month.value, "cal": cal[0], "dcc": dcc.name}, rate=r[0])
