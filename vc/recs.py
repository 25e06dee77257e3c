"""Hash-consing of recurrences."""
from .lib import *


def subst_fs(t, m):
    """replace function symbols: m maps FSym -> callable(*args)"""
    memo = {}
    keys = frozenset(m)

    def go(t):
        if t.fs.isdisjoint(keys):
            return t
        r = memo.get(t.id)
        if r is None:
            na = [go(a) for a in t.args]
            if t.op == "app" and t.data in m:
                r = m[t.data](*na)
            else:
                r = rebuild(t, na)
            memo[t.id] = r
        return r
    return go(t)



_canon = {}


def canonical(rec, steps, iv, lo):
    """keep only the components that carry information between iterations; returns comp -> function of k.

    Components nobody reads (in a later iteration) are replaced by their defining expression.  The
    remaining system is hash-consed, so that running the same code twice yields the same symbols."""
    comps = list(rec.comps)
    state = set()
    for c in comps:
        state |= {f for f in steps[c].fs if isinstance(f, RecComp) and f.rec is rec}
    # components used only by non-state outputs still are state; drop those not reachable from themselves?
    # a component that is read but whose own definition reads no state can be inlined
    inl = {}
    changed = True
    while changed:
        changed = False
        for c in comps:
            if c in inl or c not in state:
                continue
            st = steps[c]
            if not {f for f in st.fs if isinstance(f, RecComp) and f.rec is rec}:
                def mkf(st):
                    return lambda k: subst(st, {iv: k})
                inl[c] = mkf(st)
                for d in comps:
                    if c in steps[d].fs:
                        steps[d] = subst_fs(steps[d], {c: inl[c]})
                changed = True
    state = [c for c in comps if c in state and c not in inl]
    ref = set()
    for c in comps:
        ref |= {f for f in steps[c].fs if isinstance(f, RecComp) and f.rec is rec}
    # only components reachable from the outputs matter
    state = [c for c in state if c in ref]
    fin = {}
    if state:
        ph = [FSym(f"$c{j}{c.sort}", ["I"], c.sort) for j, c in enumerate(state)]
        ph = [_placeholder(j, c.sort) for j, c in enumerate(state)]
        m = {c: p for c, p in zip(state, ph)}
        m2 = {iv: _CIV if (bounds(lo)[0] or 0) >= 0 and bounds(lo)[0] is not None else _CIVN}
        key = (lo.id, rec.hi.id if rec.hi is not None else 0) + tuple(subst(subst_fs(steps[c], m), m2).id for c in state)
        r = _canon.get(key)
        if r is None:
            r = Rec(f"L{len(_canon)}", lo, rec.hi)
            r.iv = iv
            nc = [r.comp(c.name.split(".", 1)[1], c.sort, rec.tags[c]) for c in state]
            m = dict(zip(state, nc))
            for c, d in zip(state, nc):
                r.steps[d] = subst_fs(steps[c], m)
            r.close()
            _canon[key] = r
        m = dict(zip(state, r.comps))
    else:
        m = {}
    for c in comps:
        if c in m:
            fin[c] = m[c]
        elif c in inl:
            fin[c] = inl[c]
        else:
            st = subst_fs(steps[c], m)
            fin[c] = (lambda st: lambda k: subst(st, {iv: k}))(st)
    return fin


_CIV = declare(var("$civ", "I", True), 0)
_CIVN = var("$civn", "I", True)
_phs = {}


def _placeholder(j, sort):
    if (j, sort) not in _phs:
        _phs[(j, sort)] = FSym(f"$c{j}{sort}", ["I"], sort)
    return _phs[(j, sort)]


def scan(n, lo, state, name="scan"):
    """specification-level recurrence.  state: name -> (sort, init, step); init is a term (the value at position lo),
    step(prev, i) the value at i > lo, prev a dict of the values at i - 1.  Returns name -> function of the position."""
    lb, _ = bounds(lo)
    iv = declare(fresh("i"), lb)
    rec = Rec(name, lo, n)
    rec.iv = iv
    cs = {k: rec.comp(k, s, (k, "v")) for k, (s, _, _) in state.items()}
    p = {k: c(sub(iv, ONE)) for k, c in cs.items()}
    first = le(iv, lo)
    steps = {cs[k]: ite(first, init, step(p, iv)) for k, (_, init, step) in state.items()}
    fin = canonical(rec, steps, iv, lo)
    return {k: fin[cs[k]] for k in cs}
