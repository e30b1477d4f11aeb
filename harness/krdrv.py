"""Key rates and collections, driven beside the specification's heap."""
from vlib import call, d, f, exact_date, ends
from curvedrv import num, ACTUAL
from datetime import date, timedelta
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as DCC


def kr_shape(k):
    if not isinstance(k, KeyRate):
        raise TypeError("not a KeyRate")
    return {"d": exact_date(k.key_rate_date), "dcc": k.day_count_convention.name, "bump": num(k.bump_val),
            "prior": 0 if k.prior_date is None else exact_date(k.prior_date),
            "next": 0 if k.next_date is None else exact_date(k.next_date)}


class World:
    def __init__(self, rec, key):
        self.s = rec.stream("TraceKeyRate")
        self.rng = rec.rng
        self.key = key
        self.n = 0
        self.heap = []          # real key rates by identity - 1
        self.cols = []          # real collections
        self.ids = []           # identities of their members
        self.dead = set()

    def k(self, what):
        self.n += 1
        return f"{self.key}.{self.n}:{what}"

    # key rates
    def make(self, x, dcc, prior=None, nxt=None):
        box = []
        out = call(lambda: KeyRate(dcc, x, prior, nxt) if prior or nxt else KeyRate(day_count_convention=dcc, key_rate_date=x),
                   lambda v: (box.append(v), kr_shape(v))[1])
        if not box:
            raise RuntimeError("a key rate could not be made")
        self.heap.append(box[0])
        self.s.ev("make", self.k(f"make:{x}:{dcc.name}"), out, d=d(x), dcc=dcc.name, bump=f(0.0001), prior=d(prior) if prior else 0,
                  next=d(nxt) if nxt else 0)
        return len(self.heap)

    def kr(self, i):
        return self.heap[i - 1]

    def setter(self, op, i, x):
        k = self.kr(i)
        fn = {"set_prior": k.set_prior_date, "set_next": k.set_next_date, "set_bump": k.set_bump_val}[op]
        self.s.ev(op, self.k(f"{op}:{i}:{x}"), call(lambda: fn(x), lambda _: kr_shape(k)), id=i,
                  x=f(x) if op == "set_bump" else 0 if x is None else d(x))

    def at(self, i, dates):
        k = self.kr(i)
        via = self.rng.random() < .5
        self.s.ev("at", self.k(f"at:{i}"), call(lambda: [k(x) if via else k.adjustment_fxcn(x) for x in dates], lambda v: [num(y) for y in v]), id=i, at=[d(x) for x in dates])

    def compare(self, a, b):
        x, y = self.kr(a), self.kr(b)
        self.s.ev("compare", self.k(f"cmp:{a}:{b}"), call(lambda: {"eq": bool(x == y), "hash": hash(x) == hash(y), "lt": bool(x < y), "le": bool(x <= y),
                                                                   "gt": bool(x > y), "ge": bool(x >= y)}), a=a, b=b)

    # collections
    def look(self, c):
        col = self.cols[c]
        self.s.ev("look", self.k(f"look:{c}"), call(lambda: col, lambda v: {"list": [kr_shape(x) for x in v], "len": len(v), "truth": bool(v),
                                                                           "reversed": [kr_shape(x) for x in reversed(v)]}), c=c + 1)

    def sum_at(self, c, dates):
        col = self.cols[c]
        via = self.rng.random() < .5
        self.s.ev("sum_at", self.k(f"sum:{c}"), call(lambda: [col(x) if via else col.adjustment_fxcn(x) for x in dates], lambda v: [num(y) for y in v]), c=c + 1, at=[d(x) for x in dates])

    def members(self, v):
        return [kr_shape(x) for x in v]

    def _made(self, box, ids, copies):
        col = box[0]
        self.cols.append(col)
        if copies:
            ids = []
            for x in col:
                self.heap.append(x)
                ids.append(len(self.heap))
        self.ids.append(list(ids))
        return len(self.cols) - 1

    def new(self, ids, form=list):
        box = []
        out = call(lambda: KeyRateCollection(form([self.kr(i) for i in ids])), lambda v: (box.append(v), self.members(v))[1])
        self.s.ev("new", self.k(f"new:{len(ids)}"), out, ids=ids)
        if not out["ok"]:
            return None
        ident = {id(self.kr(i)): i for i in ids}
        return self._made(box, [ident.get(id(x), 0) for x in box[0]], False)

    def _refresh(self, c, extra=()):
        ident = {id(self.kr(i)): i for i in list(self.ids[c]) + list(extra)}
        self.ids[c] = [ident.get(id(x), 0) for x in self.cols[c].key_rates]

    def iadd(self, c, ids, how="list"):
        col = self.cols[c]
        objs = [self.kr(i) for i in ids]

        def go():
            nonlocal col
            if how == "insert":
                col.insert(objs[0])
            elif how == "one":
                col += objs[0]
            elif how == "gen":
                col += (x for x in objs)
            else:
                col += objs
            return col
        out = call(go, self.members)
        self.s.ev("iadd", self.k(f"iadd:{c}:{how}:{len(ids)}"), out, c=c + 1, ids=ids)
        self._refresh(c, ids)

    def iadd_col(self, c, c2):
        """The other collection's key rates move in; it is not used any more."""
        col, o = self.cols[c], self.cols[c2]

        def go():
            nonlocal col
            col += o
            return col
        self.s.ev("iadd", self.k(f"iaddcol:{c}:{c2}"), call(go, self.members), c=c + 1, ids=list(self.ids[c2]))
        self._refresh(c, self.ids[c2])
        self.dead.add(c2)

    def add(self, c, c2):
        box = []
        out = call(lambda: self.cols[c] + self.cols[c2], lambda v: (box.append(v), self.members(v))[1])
        self.s.ev("add", self.k(f"add:{c}:{c2}"), out, c=c + 1, c2=c2 + 1)
        return self._made(box, None, True) if out["ok"] else None

    def slice(self, c, cut):
        box = []
        out = call(lambda: self.cols[c][cut], lambda v: (box.append(v), self.members(v))[1])
        self.s.ev("slice", self.k(f"slice:{c}:{cut}"), out, c=c + 1, **ends(cut))
        return self._made(box, None, True) if out["ok"] else None

    def set(self, c, i, x):
        out = call(lambda: self.cols[c].__setitem__(i, self.kr(x)), lambda _: self.members(self.cols[c]))
        self.s.ev("set", self.k(f"set:{c}:{i}"), out, c=c + 1, i=i, id=x)
        self._refresh(c, [x])

    def delete(self, c, i, pop=False):
        out = call(lambda: self.cols[c].pop(i) if pop else self.cols[c].__delitem__(i), lambda _: self.members(self.cols[c]))
        self.s.ev("pop" if pop else "del", self.k(f"del:{c}:{i}"), out, c=c + 1, i=i)
        self._refresh(c)

    def del_slice(self, c, cut):
        out = call(lambda: self.cols[c].__delitem__(cut), lambda _: self.members(self.cols[c]))
        self.s.ev("del_slice", self.k(f"delslice:{c}:{cut}"), out, c=c + 1, **ends(cut))
        self._refresh(c)

    def remove(self, c, x):
        out = call(lambda: self.cols[c].remove(self.kr(x)), lambda _: self.members(self.cols[c]))
        self.s.ev("remove", self.k(f"remove:{c}:{x}"), out, c=c + 1, id=x)
        self._refresh(c)

    def bump_all(self, c, b):
        out = call(lambda: self.cols[c].set_bump_val(b), lambda _: self.members(self.cols[c]))
        self.s.ev("bump_all", self.k(f"bump:{c}"), out, c=c + 1, x=f(b))

    def get(self, c, i):
        self.s.ev("get", self.k(f"get:{c}:{i}"), call(lambda: self.cols[c][i], kr_shape), c=c + 1, i=i)

    def contains(self, c, x):
        self.s.ev("contains", self.k(f"in:{c}:{x}"), call(lambda: {"has": self.kr(x) in self.cols[c], "count": self.cols[c].count(self.kr(x))}), c=c + 1, id=x)

    def equal(self, c, c2):
        self.s.ev("equal", self.k(f"eq:{c}:{c2}"), call(lambda: bool(self.cols[c] == self.cols[c2])), c=c + 1, c2=c2 + 1)

    def step(self, c):
        self.s.ev("step", self.k(f"next:{c}"), call(lambda: next(self.cols[c]), kr_shape), c=c + 1)

    def index(self, c, x):
        self.s.ev("index", self.k(f"index:{c}:{x}"), call(lambda: int(self.cols[c].index(self.kr(x)))), c=c + 1, id=x)

    def bad(self, c, how):
        """Something that is no key rate or collection: refused, and nothing changes."""
        col = self.cols[c]

        def go():
            nonlocal col
            if how == "add":
                return col + self.kr(self.ids[c][0])
            elif how == "addlist":
                return col + [self.kr(self.ids[c][0])]
            elif how == "radd":
                return [self.kr(self.ids[c][0])] + col
            elif how == "iadd":
                col += 3
            elif how == "iaddnum":
                col += [self.kr(self.ids[c][0]), 0.5]
            elif how == "getfloat":
                return col[0.0]
            return col
        self.s.ev("bad", self.k(f"bad:{c}:{how}"), call(go, lambda v: 0), c=c + 1)
