"""Compares the assumed contracts of pandas/numpy with the installed ones on sample data.
python3-vt -m conformance.run          (in /verif; starts /opt/venv/bin/python on conformance/real_side.py)"""
import json
import math
import os
import subprocess
import sys
import random
from fractions import Fraction

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))


def data():
    rnd = random.Random(5)
    out = []
    for n in (1, 2, 3, 5, 8, 12):
        for rep in range(3):
            g = lambda: [float(rnd.randint(1, 6)) if rep else rnd.randint(4, 40) / 4 for _ in range(n)]
            out.append(dict(x=g(), y=g(), v=[float(rnd.choice([0, 0, 1, 2, 2, 5])) for _ in range(n)], w=rnd.choice([1, 2, 3, 4])))
    return out


def symbolic():
    from vc.model import Loader, explore, series, N, SI, Res, freeze, leaves, declare, var
    from vc import sym, model
    from vc.smt import Oracle
    from vc.evalt import Env, ef_value
    from vc.model import TV
    L = Loader(HERE)
    names = [l.split("(")[0][4:] for l in open(os.path.join(HERE, "ops.py")) if l.startswith("def ")]
    m = L.module("ops")
    w = declare(var("w", "I"), 1)
    oracle = Oracle()
    res, D = {}, data()
    for nm in names:
        if nm == "gaps":
            continue
        try:
            tree = explore(lambda: freeze(getattr(m, nm)(series("close"), series("open"), series("volume"), SI(w))), oracle=oracle)
        except BaseException as e:
            res[nm] = ("unsupported", f"{type(e).__name__}: {e}"[:100])
            continue
        rows = []
        for d in D:
            inp = dict(close=[Fraction(a) for a in d["x"]], open=[Fraction(a) for a in d["y"]], volume=[Fraction(a) for a in d["v"]])
            n = len(d["x"])
            base = {N: n, w: d["w"]}
            node = tree
            e0 = Env({**base, TV: 0}, inp)
            while hasattr(node, "cond"):
                node = node.t if e0(node.cond) else node.f
            if node.kind == "raise":
                rows.append("raise")
                continue
            r = []
            for t in range(n):
                e = Env({**base, TV: t}, inp)
                try:
                    v = ef_value(e, node.val.val)
                    r.append(None if v is None else float(v))
                except KeyError:      # a cell whose content the contract leaves open
                    r.append("any")
            rows.append(r)
        res[nm] = ("ok", rows)
    return res, D


def main():
    res, D = symbolic()
    p = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "real_side.py")], input=json.dumps(D), capture_output=True, text=True,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    real = json.loads(p.stdout)
    bad, uns, ok = [], [], 0
    for nm, (st, rows) in res.items():
        if st != "ok":
            uns.append((nm, rows))
            continue
        why = None
        for d, a, b in zip(D, rows, real[nm]):
            if (a == "raise") != (isinstance(b, str)):
                why = (d, a, b)
            elif a != "raise":
                for u, v in zip(a, b):
                    if u == "any":
                        continue
                    v = None if v is None or v == "nan" else float(v)
                    if (u is None) != (v is None) or (u is not None and u != v and not abs(u - v) <= 1e-9 * max(1, abs(u))):
                        why = (d, a, b)
            if why:
                break
        if why:
            bad.append((nm, why))
        else:
            ok += 1
    print(f"{ok} operations agree, {len(bad)} disagree, {len(uns)} outside the subset")
    for b in bad:
        print("  DISAGREE", b[0], str(b[1])[:400])
    for u in uns:
        print("  outside:", *u)
    return bad


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
