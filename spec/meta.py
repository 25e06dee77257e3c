"""What is assumed, what is bounded, what is known."""
import fnmatch
import os

LEVEL = {}

TRUSTED = [
    "the verification-condition generator of /verif/vc (AST transformation of ta/*.py, symbolic execution, loop rule)",
    "Z3 4.x (linear and nonlinear real/integer arithmetic, uninterpreted functions)",
    "contracts of pandas and numpy operations (vc/pd_stub.py, vc/np_stub.py, vc/lib.py): rolling, ewm, shift, fillna, ffill, where, cumsum, elementwise arithmetic; compared with the installed pandas/numpy, operation by operation, by conformance/run.py (run by the thorough tier), and indirectly by every run of the concrete stage",
    "CPython semantics of the supported subset (vc/load.py)",
]
ASSUMPTIONS = [
    "binary64 arithmetic is treated as real arithmetic extended with NaN and the two infinities; rounding and overflow are not modelled",
    "inputs: series of equal length n >= 1 with one common index, finite prices > 0, low <= close <= high, finite volume >= 0",
    "state outside the package (pandas options, numpy error state, the caller's own threads) is as in a fresh interpreter",
    "integer windows >= 1 (offset >= 0), positive finite real parameters; the documented minimum length for average true range and directional indicators",
]


def bounded():
    f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "bounded.txt")
    return [l.strip() for l in open(f) if l.strip() and not l.startswith("#")] if os.path.exists(f) else []


def is_bounded(name, pats):
    return any(name == p or fnmatch.fnmatchcase(name.replace("[", "(").replace("]", ")"), p.replace("[", "(").replace("]", ")")) for p in pats)


def findings(prop):
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            if l.startswith(f"finding: property={prop} "):
                out.append(l.strip().split(" ", 2)[2])
    return out
