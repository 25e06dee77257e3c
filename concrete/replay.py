"""Replay: python -m concrete.replay FILE          (one recorded failure; exit 1 if it still fails)
           python -m concrete.replay --cases PROP FILE OUT   (candidate inputs found by the solver)"""
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def build(c):
    """a complete case from a partial model"""
    n = c["n"]
    pts = {k: {int(i): v for i, v in d.items()} for k, d in c["data"].items()}
    data = {k: [None] * n for k in ("open", "high", "low", "close", "volume")}
    last = 10.0
    for i in range(n):
        h, l, cl = pts["high"].get(i), pts["low"].get(i), pts["close"].get(i)
        have = [x for x in (l, cl, h) if x is not None]
        cl = cl if cl is not None else (l if l is not None else h if h is not None else last)
        h = max([x for x in (h, cl, l) if x is not None])
        l = min([x for x in (l, cl, h) if x is not None])
        if not (l > 0 and h < 1e12 and (not have or min(have) > 1e-9)):
            l, cl, h = last, last, last
        data["high"][i], data["low"][i], data["close"][i] = float(h), float(l), float(cl)
        data["open"][i] = float(pts["open"].get(i, cl))
        v = pts["volume"].get(i, 5.0)
        data["volume"][i] = float(v) if 0 <= v < 1e12 else 5.0
        last = cl
    return dict(cls=c["cls"], params=c["params"], fill=c["fill"], data=data, index="range", labels=list(range(n)), kind="solver")


def main():
    from concrete import monitors
    if sys.argv[1] == "--cases":
        prop, f, out = sys.argv[2:5]
        res = dict(group="solver", cases=0, judged=0, failures=[], error=None)
        for c in json.load(open(f)):
            try:
                case = build(c)
                n, fs = monitors.check(prop, case)
                res["cases"] += 1
                res["judged"] += n
                res["failures"] += fs
            except Exception as e:
                res["error"] = repr(e)[:300]
        json.dump(dict(results=[res]), open(out, "w"))
        return 0
    f = json.load(open(sys.argv[1]))
    if isinstance(f, list):
        for o in f:
            print(o["name"], "\n   ", o["verifier_output"])
        return 1
    n, fs = monitors.check(f["property"], f["case"])
    for x in fs:
        print({k: v for k, v in x.items() if k != "case"})
    print("still fails" if fs else "does not fail any more")
    return 1 if fs else 0


if __name__ == "__main__":
    sys.exit(main())
