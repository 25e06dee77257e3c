"""Input generation: every case is a plain dictionary (JSON-able), so that it can be replayed."""
import math
import random

FIELDS = ("open", "high", "low", "close", "volume")
KINDS = ("walk", "ties", "flat", "up", "down", "real", "swing", "plateau", "novol", "int", "bars", "scale", "calm")
# indicators that only compare raw inputs or sum raw inputs: tiny relative changes cost no accuracy there
EXACT = ("OnBalanceVolumeIndicator", "NegativeVolumeIndexIndicator")
INDEXES = ("range", "offset", "float", "date", "str", "dup", "shuffled")


def ohlc(rnd, n, kind):
    O, H, L, C, Vv = [], [], [], [], []
    c = 64.0
    q = 0.125
    for i in range(n):
        o = c
        if kind in ("walk", "novol", "scale"):
            c = max(q * 8, c + q * rnd.randint(-12, 12))
            h = max(o, c) + q * rnd.randint(0, 6)
            l = max(q, min(o, c) - q * rnd.randint(0, 6))
        elif kind in ("ties", "int"):
            l = float(rnd.randint(8, 14))
            h = l + rnd.choice([0, 1, 2, 3])
            c = float(rnd.randint(int(l), int(h)))
        elif kind == "flat":
            h = l = c = 32.0 if i < n * 0.7 else 32.0 + rnd.randint(0, 2)
        elif kind == "plateau":
            if rnd.random() < 0.25:
                c = max(2.0, c + rnd.choice([-2.0, -1.0, 1.0, 2.0]))
            h = c + rnd.choice([0.0, 0.0, 1.0])
            l = c - rnd.choice([0.0, 0.0, 1.0])
        elif kind == "up":
            c = c + q * rnd.randint(1, 8)
            h, l = c + q * rnd.randint(0, 2), c - q * rnd.randint(0, 2)
        elif kind == "down":
            c = max(1.0, c - q * rnd.randint(1, 8))
            h, l = c + q * rnd.randint(0, 2), c - q * rnd.randint(0, 2)
        elif kind == "real":
            c = c * math.exp(rnd.gauss(0, 0.03))
            h = max(o, c) * (1 + abs(rnd.gauss(0, 0.01)))
            l = min(o, c) * (1 - min(0.5, abs(rnd.gauss(0, 0.01))))
        elif kind == "swing":
            up = (i // 4) % 2 == 0
            c = max(4.0, c + (1 if up else -1) * q * rnd.randint(8, 40))
            h = c + q * rnd.randint(0, 16)
            l = max(1.0, c - q * rnd.randint(0, 16))
        elif kind == "micro":
            # relative changes near 2^-24 and 2^-34: below every tolerance a library would use
            c = c * (1 + rnd.choice([0.0, 2.0, -1.0, 1.0, -2.0]) * (2.0 ** -24 if i < n * 0.6 else 2.0 ** -34))
            h = c * (1 + rnd.choice([0.0, 2.0 ** -24]))
            l = c * (1 - rnd.choice([0.0, 2.0 ** -24]))
        elif kind == "calm":
            # lively at first, then a long stretch in which nothing happens
            if i < max(3, n * 0.3):
                c = max(q * 8, c + q * rnd.randint(-12, 12))
                h, l = max(o, c) + q * rnd.randint(0, 6), max(q, min(o, c) - q * rnd.randint(0, 6))
            else:
                c = h = l = o
        elif kind == "bars":
            l = rnd.choice([16.0, 24.0, 32.0, 40.0, 48.0])
            h = l + rnd.choice([0.0, 4.0, 8.0, 24.0])
            c = rnd.choice([l, h, (l + h) / 2])
        else:
            raise ValueError(kind)
        o = min(max(o, l), h)
        O.append(float(o)), H.append(float(h)), L.append(float(l)), C.append(float(c))
        if kind == "novol" and rnd.random() < 0.5:
            v = 0.0
        elif kind == "calm":
            v = float(rnd.randint(1, 4000)) if i < max(3, n * 0.3) else 0.0
        elif kind == "real":
            v = math.exp(rnd.gauss(8, 1))
        else:
            v = float(rnd.choice([0, 1, 2, 5, 8, 8, 16, 100, 1000]) if kind != "walk" else rnd.randint(1, 4000))
        Vv.append(v)
    if kind == "scale":
        s = 2.0 ** rnd.choice([-36, -20, -9, -5, 7, 11, 30])
        O, H, L, C = ([x * s for x in xs] for xs in (O, H, L, C))
    return dict(open=O, high=H, low=L, close=C, volume=Vv)


def params(rnd, entry, style, consts=()):
    p = {}
    for nm, s in entry.params.items():
        if s.kind == "I":
            lo = s.lo
            if style == "default" and s.default is not None:
                p[nm] = s.default
            elif consts and rnd.random() < 0.5:
                p[nm] = max(lo, rnd.choice(consts))
            else:
                p[nm] = max(lo, rnd.choice([1, 2, 2, 3, 3, 4, 5, 6, 7] if style == "small" else [1, 2, 5, 8, 11, 14, 17, 20, 23]))
                if s.lo == 0 and rnd.random() < 0.3:
                    p[nm] = 0
        elif s.kind == "R":
            if style == "default" or rnd.random() < 0.4:
                p[nm] = s.default
            else:
                p[nm] = rnd.choice([0.125, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 0.02])
        else:
            v = rnd.choice(s.values)
            p[nm] = rnd.choice([1, 2, 3, 5]) if v == "window" else v
    return p


def biggest(entry, p):
    ws = [v for k, v in p.items() if entry.params[k].kind == "I"] + \
         [v for k, v in p.items() if entry.params[k].kind == "flag" and isinstance(v, int) and not isinstance(v, bool)]
    return max(ws, default=3), sum(ws)


def length(rnd, entry, p):
    w, tot = biggest(entry, p)
    r = rnd.random()
    if r < 0.15:
        n = rnd.randint(1, 4)
    elif r < 0.35:
        n = max(1, rnd.choice([w - 1, w, w + 1, w + 2, 2 * w, 2 * w + 1, tot, tot + 1]))
    elif r < 0.9:
        n = tot + rnd.randint(3, 25)
    else:
        n = 2 * tot + rnd.randint(10, 60)
    return min(n, 320)


def index_labels(rnd, n, kind):
    if kind == "range":
        return list(range(n))
    if kind == "offset":
        return list(range(100, 100 + n))
    if kind == "float":
        return [i * 0.5 + 3 for i in range(n)]
    if kind == "date":
        return [f"2020-01-01T{0:02d}:00" if False else 86400 * i for i in range(n)]
    if kind == "str":
        return [f"r{i:04d}" for i in range(n)]
    if kind == "dup":
        return [i // 2 for i in range(n)]
    if kind == "shuffled":
        xs = list(range(n))
        rnd.shuffle(xs)
        return xs
    raise ValueError(kind)
