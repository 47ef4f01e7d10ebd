"""Broadcast layers, batch normalisation, bias addition and activation layers (A05, A09, A10)."""
import itertools
from fractions import Fraction

import numpy as np
from acetone_nnet.generator import layers as L
from case import Case
from core import ONE, ZERO, app, c_ge, c_gt, ite, poly
from pyfront import rdiv

OPS = {
    "Add": lambda a, b: a + b,
    "Subtract": lambda a, b: a - b,
    "Multiply": lambda a, b: a * b,
    "Divide": lambda a, b: rdiv(a, b),
    "Maximum": lambda a, b: ite(c_ge(a - b), a, b),
    "Minimum": lambda a, b: ite(c_ge(b - a), a, b),
    "Average": lambda a, b: a + b,
}
DIMS = ("C", "H", "W")


def nonzero(rnd):
    return rnd.choice([-4, -3, -2, -1, 1, 2, 3, 4])


def broadcast(op, pats, const=False):
    """pats: for each operand the axes (of CHW) along which it has size 1; the last one may be a constant."""
    n = len(pats) - (1 if const else 0)

    def shape(d, k):
        return tuple(1 if x in pats[k] else d[x] for x in DIMS)

    def out(d):
        return tuple(1 if all(x in p for p in pats) else d[x] for x in DIMS)

    def build(d, b):
        o = out(d)
        kw = {}
        if const:
            kw["constant"] = b.T("cst", 1, *shape(d, n))
        shapes = np.array([[1, *shape(d, k)] for k in range(len(pats))])
        size = o[0] * o[1] * o[2]
        return getattr(L, op)(original_name="e", idx=b.idx, size=size, input_shapes=shapes, output_shape=[1, *o],
                              activation_function=b.act, **kw)

    def spec(d, X, W, o):
        v = None
        for k in range(len(pats)):
            idx = tuple(ZERO if x in pats[k] else i for x, i in zip(DIMS, o))
            e = W("cst", *shape(d, n))(*idx) if const and k == n else X[k](*idx)
            v = e if v is None else OPS[op](v, e)
        if op == "Average":
            v = v * Fraction(1, len(pats))
        return app("ACT", v)

    name = f"{op} " + " ".join("[" + "".join("1" if x in p else x for x in DIMS) + "]" for p in pats)
    if const:
        name += " constant"
    dims = {x: 1 for x in DIMS if any(x not in p for p in pats)}
    div = {f"in{k}": nonzero for k in range(1, n)} | {"cst": nonzero}
    return Case(name, ("A05",), dims, build, lambda d: [shape(d, k) for k in range(n)], out, spec,
                values=div if op == "Divide" else None)


SUBS = ["", "C", "H", "W", "CH", "CW", "HW", "CHW"]
CASES = []
for op in OPS:
    for p in itertools.product(("", "a", "b"), repeat=3):
        a = "".join(x for x, y in zip(DIMS, p) if y == "a")
        b = "".join(x for x, y in zip(DIMS, p) if y == "b")
        CASES.append(broadcast(op, [a, b]))
    CASES += [broadcast(op, ["", "", ""]), broadcast(op, ["H", "CW", ""]), broadcast(op, ["CHW", "", "W"]),
              broadcast(op, ["", "CH", "HW", "C"])]
    if op != "Add":
        CASES += [broadcast(op, ["", c], True) for c in SUBS] + [broadcast(op, ["C", "HW"], True),
                                                                broadcast(op, ["CHW", ""], True),
                                                                broadcast(op, ["", "C", "HW"], True)]


def sqrt(x):
    return app("sqrt", x)


def bn_build(d, b):
    return L.BatchNormalization(
        original_name="n", idx=b.idx, size=d.C * d.H * d.W, input_shape=[1, d.C, d.H, d.W], epsilon=d.eps,
        scale=b.T("scale", d.C), biases=b.T("b", d.C), mean=b.T("mean", d.C), var=b.T("var", d.C),
        activation_function=b.act)


def bn_spec(d, X, W, o):
    f, i, j = o
    v = lambda n: W(n, d.C)(f)
    return app("ACT", v("scale") * rdiv(X[0](f, i, j) - v("mean"), sqrt(v("var") + d.eps)) + v("b"))


CASES.append(Case("batch normalization", ("A05",), dict(C=1, H=1, W=1), bn_build, lambda d: [(d.C, d.H, d.W)],
                  lambda d: (d.C, d.H, d.W), bn_spec, reals=["eps"],
                  values=dict(var=lambda rnd: rnd.choice([0, 1, 2.25, 4, 9]))))


def act_build(d, b):
    y = L.ActivationLayer(original_name="a", idx=b.idx, size=d.N, activation_function=b.act)
    # the stand-in for an arbitrary function has no factory of its own: any activation layer's will do
    y.name = "Relu"
    return y


CASES.append(Case("activation layer", ("A05",), dict(N=1), act_build, lambda d: [(d.N,)], lambda d: (d.N,),
                  lambda d, X, W, o: app("ACT", X[0](o[0]))))

#: the patterns the quick tier keeps for the operators that share the code of another one
FEW = ("[CHW] [CHW]", "[CHW] [1HW]", "[C1W] [CHW]", "[CH1] [1HW]", "[C11] [1HW]", "[CHW] [111]", "[111] [CHW]")
