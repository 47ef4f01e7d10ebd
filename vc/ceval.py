"""Concrete values of specification terms (floating point, for replays and cross-checks)."""
from __future__ import annotations

import itertools
import math
from fractions import Fraction


class Undefined(Exception):
    pass


def poly_value(p, env):
    tot = 0
    for m, c in p.t.items():
        v = c
        for a, e in m:
            x = atom_value(a, env)
            v = v * (x if e == 1 else x ** e)
        tot += v
    return tot


def cond_value(c, env):
    op = c.op
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "and":
        return all(cond_value(x, env) for x in c.args)
    if op == "or":
        return any(cond_value(x, env) for x in c.args)
    v = poly_value(c.args[0], env)
    return {"ge": v >= 0, "gt": v > 0, "eq": v == 0, "ne": v != 0}[op]


def sigmoid(x):
    return 1 / (1 + math.exp(-x)) if x >= 0 else math.exp(x) / (1 + math.exp(x))


CONSTS = {"const_inf": math.inf, "const_-inf": -math.inf}
APPS = {
    "exp": math.exp, "sqrt": math.sqrt, "log": math.log, "tanh": math.tanh,
    "pow": math.pow, "sigmoid": sigmoid,
}


def atom_value(a, env):
    k, g = a.kind, a.args
    if k == "sym":
        x = env[a]
        return Fraction(x) if isinstance(x, float) and math.isfinite(x) else x
    if k == "fdiv":
        x, q = poly_value(g[0], env), poly_value(g[1], env)
        if q == 0:
            raise Undefined
        return math.floor(x / q) if isinstance(x, float) else x // q
    if k == "floor":
        return math.floor(poly_value(g[0], env))
    if k == "inv":
        x = poly_value(g[0], env)
        if x == 0:
            raise Undefined
        return 1.0 / x if isinstance(x, float) else Fraction(1) / x
    if k == "ite":
        return poly_value(g[1] if cond_value(g[0], env) else g[2], env)
    if k == "max2":
        return max(poly_value(x, env) for x in g)
    if k == "min2":
        return min(poly_value(x, env) for x in g)
    if k == "app":
        name, args = g
        if name == "let":
            return poly_value(args[0], env)
        if name in CONSTS:
            return CONSTS[name]
        f = env.get("apps", {}).get(name) or APPS.get(name)
        if f is None:
            raise KeyError(name)
        return f(*[float(poly_value(x, env)) for x in args])
    if k == "read":
        ver, idx = g
        arr = env["arrays"][ver.name]
        i = tuple(int(poly_value(x, env)) for x in idx)
        flat = i[0]
        if len(i) != 1:
            raise KeyError("rank")
        if not 0 <= flat < len(arr):
            raise Undefined
        return arr[flat]
    if k in ("sum", "prod", "max", "min"):
        return fold_value(a, env)
    raise KeyError(k)


def fold_value(a, env):
    kind = a.kind
    binders, guard, body = a.args
    vals = []

    def go(bs, e):
        if not bs:
            if cond_value(guard, e):
                vals.append(poly_value(body, e))
            return
        b, n = bs[0]
        for v in range(int(poly_value(n, e))):
            e2 = dict(e)
            e2[b] = v
            go(bs[1:], e2)
    go(list(binders), env)
    if kind == "sum":
        return sum(vals)
    if kind == "prod":
        return math.prod(vals)
    if not vals:
        return -math.inf if kind == "max" else math.inf
    return max(vals) if kind == "max" else min(vals)


def tensor_values(term, idx_syms, shape, env):
    """All the values of term over the index box, in C order."""
    out = []
    for pos in itertools.product(*[range(n) for n in shape]):
        e = dict(env)
        e.update(zip(idx_syms, pos))
        out.append(float(poly_value(term, e)))
    return out
