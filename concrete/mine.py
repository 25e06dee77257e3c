"""Numeric literals of the library that decide something: used only to aim test inputs at rare branches."""
import ast
import os


def mine(repo):
    """module name -> (ints, reals), (module name, class name) -> the same for the class alone"""
    out = {}
    d = os.path.join(repo, "ta")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py"):
            continue
        try:
            tree = ast.parse(open(os.path.join(d, fn)).read())
        except SyntaxError:
            continue
        m = fn[:-3]
        common = [u for u in tree.body if not isinstance(u, ast.ClassDef) and not (isinstance(u, ast.FunctionDef) and not u.name.startswith("_"))]
        out[m] = collect(tree.body)
        shared = collect(common)
        for u in tree.body:
            if isinstance(u, ast.ClassDef):
                i, r = collect([u])
                out[m, u.name] = sorted({*i, *shared[0]}), sorted({*r, *shared[1]})
    return out


def lits(node):
    for u in ast.walk(node):
        if isinstance(u, ast.Constant) and isinstance(u.value, (int, float)) and not isinstance(u.value, bool):
            yield u.value


def collect(body):
    ints, reals = set(), set()
    for top in body:
        for u in ast.walk(top):
            found = []
            if isinstance(u, ast.Compare):
                found = list(lits(u))
                found += [x + d for x in found if isinstance(x, int) and x > 3 for d in (-1, 1)]
            elif isinstance(u, (ast.If, ast.IfExp, ast.While)):
                found = list(lits(u.test))
            elif isinstance(u, ast.BinOp):
                if isinstance(u.op, (ast.Mod, ast.FloorDiv)):
                    found = list(lits(u.right))
                else:
                    found = [x for x in lits(u) if 0 < abs(x) < 0.01 or abs(x) > 1000]
            elif isinstance(u, ast.Assign):
                found = [u.value.value] if isinstance(u.value, ast.Constant) and isinstance(u.value.value, (int, float)) else []
            elif isinstance(u, ast.Call) and isinstance(u.func, ast.Name) and u.func.id in ("min", "max", "range"):
                found = [x for a in u.args for x in lits(a)]
            elif isinstance(u, ast.Call) and isinstance(u.func, ast.Attribute) and u.func.attr in (
                    "min", "max", "clip", "minimum", "maximum", "where", "head", "tail", "gt", "lt", "ge", "le", "shift", "rolling", "replace", "isclose",
                    "ffill", "bfill", "fillna", "ewm", "diff", "pct_change", "interpolate", "nlargest", "nsmallest", "quantile", "expanding", "round"):
                found = [x for a in u.args for x in lits(a)] + [x for k in u.keywords for x in lits(k.value)]
            elif isinstance(u, ast.FunctionDef) and u.name != "__init__" and u.name.startswith("_"):
                found = [x for a in u.args.defaults + u.args.kw_defaults if a is not None for x in lits(a)]
            for x in found:
                if isinstance(x, bool) or x != x or abs(x) == float("inf"):
                    continue
                if isinstance(x, int):
                    if 2 < abs(x) <= 3000:
                        ints.add(abs(x))
                    if abs(x) > 2:
                        reals.add(float(abs(x)))
                elif 0 < abs(x):
                    reals.add(abs(x))
                    if x == int(x) and 2 < abs(x) <= 3000:
                        ints.add(int(abs(x)))
    return sorted(ints), sorted(reals)
