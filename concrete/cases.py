"""Deterministic stream of cases per property: cases(prop, tier, seed) -> iterator of (group, [case, ...])."""
import math
import random

from spec.ind import ENTRIES
from spec import laws, api
from . import gen
from .monitors import FORMULA, GROUPS


def classes(prop):
    if prop in FORMULA:
        return [c for c, e in ENTRIES.items() if e.prop == prop]
    if prop == "C08":
        return sorted({c for c, _ in laws.RANGES})
    if prop == "C09":
        return list(laws.C09)
    if prop == "C18":
        return sorted({c for c, _ in laws.ENVELOPE})
    if prop == "C20":
        return list(laws.C20)
    return list(ENTRIES)


HINTS = {}


DEEP = False        # looking for an input for an obligation that failed: longer histories too


def hints(entry):
    ints, reals = HINTS.get((entry.module, entry.cls)) or HINTS.get(entry.module, ((), ()))
    i2, r2 = HINTS.get("utils", ((), ()))
    return [x for x in list(ints) + list(i2) if x <= (3000 if DEEP else 600)], [x for x in list(reals) + list(r2) if x < 1e9]


def base_case(rnd, cls, rep, prop):
    e = ENTRIES[cls]
    hi, hr = hints(e)
    style = "default" if rep % 12 == 11 else "mid" if rep % 8 == 5 else "small"
    aim = hi if hi and rep % 5 == 4 else ()
    kind = gen.KINDS[(rep * 5 + rep // 12) % len(gen.KINDS)]
    if cls in gen.EXACT and rep % 9 == 7:
        kind = "micro"
    p = gen.params(rnd, e, style, aim)
    for k, s in e.params.items():
        if s.kind == "I" and p[k] is None:
            p[k] = rnd.randint(1, 9)
    n = gen.length(rnd, e, p)
    if aim and rnd.random() < 0.4:
        x = rnd.choice(hi)
        n = max(n, min(x * rnd.choice([1, 1, 2, 3]), 3000 if DEEP else 600) + rnd.randint(-1, 3))
    data = gen.ohlc(rnd, n, kind)
    if hr and rep % 5 == 3:
        # bring prices (or volumes) to the neighbourhood of a constant of the code
        x = rnd.choice(hr)
        m = sorted(data["close"])[n // 2]
        import math
        s = 2.0 ** round(math.log2(x / m))
        if kind in ("int", "ties"):
            s = max(1.0, s)
        for k in ("open", "high", "low", "close"):
            data[k] = [v * s for v in data[k]]
        if rnd.random() < 0.5 and x < 1e7:
            data["volume"] = [float(round(v)) for v in (x * rnd.choice([0.5, 1, 1, 2]) for _ in range(n))]
    c = dict(cls=cls, params=p, fill=False, data=data, index="range", labels=list(range(n)), kind=kind)
    if kind == "int" or (kind == "ties" and rep % 2):
        c["dtype"] = "int64"
    return c


def relabel(rnd, c, kinds=gen.INDEXES):
    k = rnd.choice(kinds)
    return {**c, "index": k, "labels": gen.index_labels(rnd, len(c["labels"]), k)}


COUNT = {"quick": 160, "thorough": 1600}


def cases(prop, cls, tier, seed):
    rnd = random.Random(f"{seed}/{prop}/{cls}")
    if prop == "C15":
        yield from c15(rnd, cls, tier)
        return
    if prop == "C16":
        yield from c16(rnd, cls, tier)
        return
    if prop == "C17":
        yield from c17(rnd, tier)
        return
    n = COUNT[tier]
    for rep in range(n):
        c = base_case(rnd, cls, rep, prop)
        if prop == "C14":
            c["fill"] = True
            if rep % 7 == 3:
                c = relabel(rnd, c)
        elif prop in FORMULA:
            if rep % 7 == 0:
                c = relabel(rnd, c)
        elif prop in ("C08", "C10", "C12"):
            c["fill"] = rep % 3 == 1
        elif prop == "C11":
            c["fill"] = rep % 3 == 1
            c = relabel(rnd, c, gen.INDEXES[1:])
        elif prop == "C13":
            c["fill"] = True
            if rep % 7 == 5:
                c = relabel(rnd, c)
        if prop == "C12":
            c = relabel(rnd, c)
        if prop == "C10":
            N = len(c["labels"])
            if N < 2:
                continue
            w, tot = gen.biggest(ENTRIES[cls], c["params"])
            c["cut"] = min(N - 1, rnd.choice([1, 2, 3, w, w + 1, N // 2, N - 1, N - 2, rnd.randint(1, N - 1)]) or 1)
            c["cut"] = max(1, c["cut"])
            c["tail"] = gen.ohlc(rnd, N, rnd.choice([k for k in gen.KINDS if k != "int"] if c.get("dtype") != "int64" else ["int", "ties"]))
        if prop == "C19":
            c["scale"] = rnd.choice([(2.0, 1.0), (0.25, 1.0), (1.0, 4.0), (8.0, 0.5), (1024.0, 16.0), (2.0 ** -8, 2.0 ** -3), (2.0 ** 20, 1.0)])
            if c.get("dtype"):
                c["scale"] = rnd.choice([(2.0, 1.0), (1.0, 4.0), (1024.0, 16.0)])
        yield c
    if prop == "C20" and cls == laws.C20[0]:
        for rep in range(n):
            for j, (nm, x, y, rel) in enumerate(laws.CROSS):
                m = rnd.randint(1, 60)
                kind = gen.KINDS[rep % len(gen.KINDS)]
                yield dict(cls=x[0], cross=j, params={"w": rnd.randint(1, 12), "s": rnd.randint(1, 4), "d": rnd.choice([1, 2, 2.5])},
                           fill=False, data=gen.ohlc(rnd, m, kind), index="range", labels=list(range(m)), kind=kind)


def c15(rnd, fn, tier):
    mod, cls, acc, defaults = api.FUNCTIONS[fn][:4]
    e = ENTRIES[cls]
    for rep in range(24 if tier == "quick" else 240):
        p = gen.params(rnd, e, "small")
        given = [k for k in defaults if rep % 3 == 0 or rnd.random() < 0.7]
        if rep % 6 == 5:
            given = []
        elif rep % 6 == 4:
            given = rnd.sample(list(defaults), min(1, len(defaults)))
        ps = {k: p[k] for k in given if k in p}
        n = rnd.randint(60, 110) if len(given) < len(defaults) else rnd.randint(20, 45)
        kind = gen.KINDS[rep % len(gen.KINDS)]
        yield dict(cls=cls, fn=fn, params=ps, fill=rep % 2 == 1, data=gen.ohlc(rnd, n, kind), index="range",
                   labels=list(range(n)), kind=kind, omit_fill=rep % 4 == 0, ctor_defaults=rep % 6 == 5)


def c16(rnd, fn, tier):
    for rep in range(8 if tier == "quick" else 60):
        n = rnd.randint(60, 110) if rep % 4 else rnd.randint(28, 60)
        kind = gen.KINDS[rep % len(gen.KINDS)]
        idx = rnd.choice(gen.INDEXES)
        names = {k: k for k in gen.FIELDS} if rep % 3 == 0 else {"open": "O p", "high": "Hi", "low": "Lo", "close": "Cl", "volume": "Vol"}
        if rep % 5 == 4:
            names = {"open": "open", "high": "close", "low": "high", "close": "low", "volume": "v"}   # permuted names
        yield dict(cls=fn, fn=fn, params={}, fill=rep % 2 == 1, vectorized=rep % 4 >= 2, prefix=rnd.choice(["", "x_", "volume_"]),
                   names=names, data=gen.ohlc(rnd, n, kind), index=idx, labels=gen.index_labels(rnd, n, idx), kind=kind, omit=rep % 3 == 0)


def c17(rnd, tier):
    for rep in range(600 if tier == "quick" else 4000):
        n = rnd.randint(0, 12)
        cols = []
        for j in range(rnd.randint(1, 4)):
            kind = rnd.choice(["float", "float", "int", "obj", "bool", "float32", "int32", "date"]) if j else "float"
            xs = []
            for i in range(n):
                if kind == "float" and rnd.random() < 0.04:
                    xs.append(rnd.choice([math.exp(709), math.nextafter(math.exp(709), 0), math.nextafter(math.exp(709), math.inf), 5e-324, 1e-20]))
                elif kind == "float32":
                    xs.append(rnd.choice([1.5, -2.0, 0.25, 3e38] + (["nan", 0.0, "inf"] if rnd.random() < 0.3 else [4.0])))
                elif kind == "date":
                    xs.append(rnd.choice([0, 86400, 123456789] + [None] * (rnd.random() < 0.3)))
                elif kind == "float":
                    xs.append(rnd.choice([1.5, 2.0, -3.0, 7.25, 100.0, 1e-300, 8e307, 1.0, 5.0, 12.0, 3.0] +
                                         (["nan", "inf", "-inf", 0.0, -0.0, 8.3e307] if rnd.random() < 0.5 else [4.0])))
                elif kind in ("int", "int32"):
                    xs.append(rnd.choice([1, 2, -5, 10 ** 9, 3, 4] + [0] * (rnd.random() < 0.4)))
                elif kind == "bool":
                    xs.append(rnd.random() < 0.5)
                else:
                    xs.append(rnd.choice(["a", "", "0", "zz"] + [None] * (rnd.random() < 0.3)))
            cols.append([f"c{j}", kind, xs])
        idx = rnd.choice(["range", "offset", "float", "date", "str", "shuffled", "dup"])
        yield dict(cls="dropna", params={}, fill=False, columns=cols, index=idx, labels=gen.index_labels(rnd, n, idx), data={})


def groups(prop):
    if prop == "C15":
        return list(api.FUNCTIONS)
    if prop == "C16":
        return list(GROUPS)
    if prop == "C17":
        return ["dropna"]
    return classes(prop)
