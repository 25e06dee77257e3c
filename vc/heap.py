"""Python-level state reachable from a function: closure cells, attributes of the analysed classes' instances, class and
module variables, lists, dictionaries, sets.  Array contents are not part of it (vc/arr.py tracks the writes)."""
import collections
import functools
import itertools
import types

from .sym import Sym, Unsupported

MISSING = object()
CACHED = functools._lru_cache_wrapper
ITER = (itertools.count, itertools.cycle, itertools.chain, types.GeneratorType)


def _repo_class(c):
    return getattr(c, "__vc_repo__", False) or c.__module__.split(".")[0] == "ta"


class Heap:
    """snapshot of the reachable state; locations are (kind, container id, key)"""

    def __init__(self, roots, modules=()):
        self.loc = {}        # (kind, id, key) -> (container, value)
        self.seq = {}        # id -> (container, contents)  for containers compared as a whole
        self.keys = {}       # id -> (kind, container, keys)
        self.seen = set()
        self.keep = []
        for m in modules:
            self._ns("m", m.__dict__, m)
        for r in roots:
            self._visit(r)

    def _ns(self, kind, d, owner):
        if (kind, id(owner)) in self.seen:
            return
        self.seen.add((kind, id(owner)))
        ks = [k for k in d if not (isinstance(k, str) and k.startswith("__"))]
        self.keys[(kind, id(owner))] = (kind, owner, frozenset(ks))
        for k in ks:
            v = d[k]
            self.loc[(kind, id(owner), k)] = (owner, v)
            self._visit(v)

    def _visit(self, v):
        stack = [v]
        while stack:
            v = stack.pop()
            if v is None or isinstance(v, (int, float, str, bytes)):
                continue
            if isinstance(v, Sym):
                cols = v.__dict__.get("cols") if hasattr(v, "__dict__") else None
                if isinstance(cols, dict) and id(cols) not in self.seen:
                    self.seen.add(id(cols))
                    self.seq[id(cols)] = (cols, list(cols.items()))
                continue
            if isinstance(v, types.ModuleType) or id(v) in self.seen:
                continue
            if isinstance(v, types.FunctionType):
                self.seen.add(id(v))
                self.keep.append(v)
                for c in v.__closure__ or ():
                    if ("c", id(c), None) not in self.loc:
                        try:
                            x = c.cell_contents
                        except ValueError:
                            x = MISSING
                        self.loc[("c", id(c), None)] = (c, x)
                        if x is not MISSING:
                            stack.append(x)
                stack.extend(v.__defaults__ or ())
                stack.extend((v.__kwdefaults__ or {}).values())
                if v.__module__ and v.__module__.split(".")[0] == "ta" and v.__dict__:
                    self._ns("o", v.__dict__, v)
            elif isinstance(v, types.MethodType):
                stack += [v.__self__, v.__func__]
            elif isinstance(v, (staticmethod, classmethod)):
                stack.append(v.__func__)
            elif isinstance(v, property):
                stack += [f for f in (v.fget, v.fset) if f]
            elif isinstance(v, functools.partial):
                stack += [v.func, *v.args, *v.keywords.values()]
            elif isinstance(v, type):
                if _repo_class(v):
                    self._ns("k", dict(vars(v)), v)
            elif isinstance(v, dict):
                self.keep.append(v)
                self._ns("d", v, v)
            elif isinstance(v, list):
                self.seen.add(id(v))
                xs = list(list.__iter__(v))
                self.seq[id(v)] = (v, xs)
                for k, x in enumerate(xs):
                    self.loc[("l", id(v), k)] = (v, x)
                stack.extend(xs)
            elif isinstance(v, collections.deque):
                self.seen.add(id(v))
                self.seq[id(v)] = (v, list(v))
                stack.extend(v)
            elif isinstance(v, set):
                self.seen.add(id(v))
                self.seq[id(v)] = (v, set(v))
            elif isinstance(v, tuple):
                self.seen.add(id(v))
                self.keep.append(v)
                stack.extend(v)
            elif isinstance(v, CACHED):
                self.seen.add(id(v))
                self.seq[id(v)] = (v, (tuple(v.cache_info()),))
                stack.append(v.__wrapped__)
            elif isinstance(v, ITER) or hasattr(type(v), "__next__"):
                self.seen.add(id(v))
                self.seq[id(v)] = (v, (MISSING, repr(v) if isinstance(v, itertools.count) else None))
            elif hasattr(v, "__dict__") and not isinstance(v, type) and type(v).__module__.split(".")[0] not in ("vc", "builtins", "typing", "_frozen_importlib", "_frozen_importlib_external", "ast"):
                self.keep.append(v)
                self._ns("o", v.__dict__, v)

    @staticmethod
    def _get(kind, owner, key):
        if kind == "c":
            try:
                return owner.cell_contents
            except ValueError:
                return MISSING
        if kind == "d":
            return dict.get(owner, key, MISSING)
        if kind == "l":
            return list.__getitem__(owner, key) if key < list.__len__(owner) else MISSING
        return vars(owner).get(key, MISSING)

    @staticmethod
    def _set(kind, owner, key, v):
        if kind == "c":
            if v is MISSING:
                try:
                    del owner.cell_contents
                except ValueError:
                    pass
            else:
                owner.cell_contents = v
        elif kind == "l":
            if key < list.__len__(owner):
                list.__setitem__(owner, key, v)
        elif kind == "d":
            if v is MISSING:
                dict.pop(owner, key, None)
            else:
                dict.__setitem__(owner, key, v)
        elif v is MISSING:
            if key in vars(owner):
                delattr(owner, key)
        elif kind == "k" or kind == "m":
            setattr(owner, key, v)
        else:
            owner.__dict__[key] = v

    def changes(self, ignore=()):
        """locations whose content is another object now: list of (kind, container, key), or None for a change of another sort"""
        out = []
        for (kind, i, key), (owner, v) in self.loc.items():
            if (kind, i, key) not in ignore and self._get(kind, owner, key) is not v:
                out.append((kind, owner, key))
        for (kind, i), (_, owner, ks) in self.keys.items():
            d = owner if kind == "d" else vars(owner)
            for k in d:
                if k not in ks and not (isinstance(k, str) and k.startswith("__")) and (kind, i, k) not in ignore:
                    out.append((kind, owner, k))
        for c, old in self.seq.values():
            if isinstance(c, CACHED):
                same = (tuple(c.cache_info()),) == old
            elif isinstance(old, tuple) and old and old[0] is MISSING:
                same = old[1] is not None and repr(c) == old[1]        # the state of other iterators cannot be seen
            elif isinstance(c, dict):
                now = list(c.items())
                same = len(now) == len(old) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(now, old))
            elif isinstance(c, set):
                same = c == old
            elif isinstance(c, list):
                same = list.__len__(c) == len(old)
            else:
                now = list(c)
                same = len(now) == len(old) and all(a is b for a, b in zip(now, old))
            if not same:
                out.append(("s", c, None))
        return out

    def restore(self, keep=()):
        for c, old in self.seq.values():
            if isinstance(c, CACHED) or isinstance(old, tuple):
                continue
            if isinstance(c, dict):
                c.clear()
                c.update(old)
            elif isinstance(c, set):
                c.clear()
                c.update(old)
            elif isinstance(c, list):
                if list.__len__(c) != len(old):
                    list.__setitem__(c, slice(None), old)
            else:
                c.clear()
                c.extend(old)
        for (kind, i, key), (owner, v) in self.loc.items():
            if (kind, i, key) not in keep and self._get(kind, owner, key) is not v:
                self._set(kind, owner, key, v)
        for (kind, i), (_, owner, ks) in self.keys.items():
            d = owner if kind == "d" else vars(owner)
            for k in [k for k in d if k not in ks and not (isinstance(k, str) and k.startswith("__")) and (kind, i, k) not in keep]:
                self._set(kind, owner, k, MISSING)


class Loc:
    """one location as a piece of loop state"""

    def __init__(self, kind, owner, key):
        self.kind, self.owner, self.key = kind, owner, key
        self.id = (kind, id(owner), key)

    def get(self):
        return Heap._get(self.kind, self.owner, self.key)

    def set(self, v):
        Heap._set(self.kind, self.owner, self.key, v)

    def __str__(self):
        return f"{type(self.owner).__name__}.{self.key}"
