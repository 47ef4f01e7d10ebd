"""Pooling, reduction and softmax contracts (A06, A09, A10)."""
import itertools
from fractions import Fraction

from acetone_nnet.generator import layers as L
from case import Case, fdiv
from core import ONE, ZERO, Sum, app, c_and, c_ge, c_gt, fold, fresh, poly, rmax, rmin
from pyfront import rdiv

# -- pooling -----------------------------------------------------------------------------------

PDIMS = dict(C=1, H=1, W=1, K=1, S=1, PT=0, PL=0, PB=0, PR=0, OH=1, OW=1)


def pool_defs(d):
    return dict(OH=fdiv(d.H + d.PT + d.PB - d.K, d.S) + 1, OW=fdiv(d.W + d.PL + d.PR - d.K, d.S) + 1)


def pool_pre(d):
    # every window holds at least one cell of the input: no side is padded by a whole window
    return [c_ge(d.H + d.PT + d.PB - d.K), c_ge(d.W + d.PL + d.PR - d.K),
            *[c_gt(d.K - p) for p in (d.PT, d.PL, d.PB, d.PR)]]


def pool_build(cls):
    def f(d, b):
        return cls(original_name="p", idx=b.idx, size=d.C * d.OH * d.OW, padding=[d.PT, d.PL, d.PB, d.PR],
                   strides=d.S, pool_size=d.K, input_shape=[1, d.C, d.H, d.W], output_shape=[1, d.C, d.OH, d.OW],
                   activation_function=b.act)
    return f


def pool_spec(avg, last):
    def spec(d, X, W, o):
        c, i, j = (o[2], o[0], o[1]) if last else o
        h, w = poly(fresh("s")), poly(fresh("s"))
        ii, jj = i * d.S + h - d.PT, j * d.S + w - d.PL
        inside = c_and(c_ge(ii), c_gt(d.H - ii), c_ge(jj), c_gt(d.W - jj))
        x = X[0](ii, jj, c) if last else X[0](c, ii, jj)
        bs = [(h, d.K), (w, d.K)]
        if not avg:
            return app("ACT", fold("max", bs, inside, x))
        n = Sum(bs, ONE, inside)
        return app("ACT", rdiv(Sum(bs, x, inside), n))
    return spec


def pool(name, cls, avg, last, **kw):
    return Case(name, ("A06",), PDIMS, pool_build(cls),
                (lambda d: [(d.H, d.W, d.C)]) if last else (lambda d: [(d.C, d.H, d.W)]),
                (lambda d: (d.OH, d.OW, d.C)) if last else (lambda d: (d.C, d.OH, d.OW)), pool_spec(avg, last),
                pre=pool_pre, defs=pool_defs, dmax=dict(H=6, W=6, K=4, S=3, PT=3, PL=3, PB=3, PR=3),
                versions="channels_last" if last else None, python=not last,
                **(dict(data_format="channels_last", gen_data_format="channels_last") if last else {}), **kw)


CASES = [pool("max pooling", L.MaxPooling2D, False, False), pool("average pooling", L.AveragePooling2D, True, False),
         pool("max pooling channels last", L.MaxPooling2D, False, True),
         pool("average pooling channels last", L.AveragePooling2D, True, True)]

# -- reductions --------------------------------------------------------------------------------

AX = {1: "C", 2: "H", 3: "W"}


def reduce(op, axes, keep=1, noop=0):
    red = set(axes) - {0}
    if axes == () and not noop:
        red = {1, 2, 3}

    def out(d):
        return tuple(1 if a in red else d[n] for a, n in AX.items())

    def build(d, b):
        o = out(d)
        return getattr(L, "Reduce" + op)(original_name="r", idx=b.idx, size=o[0] * o[1] * o[2], axis=axes,
                                         keepdims=keep, noop_with_empty_axes=noop,
                                         input_shape=[1, d.C, d.H, d.W], activation_function=b.act)

    def spec(d, X, W, o):
        bs, idx = [], []
        n = ONE
        for (a, name), i in zip(AX.items(), o):
            if a in red:
                s = poly(fresh("s"))
                bs.append((s, d[name]))
                idx.append(s)
                n = n * d[name]
            else:
                idx.append(i)
        x = X[0](*idx)
        if not bs:
            return app("ACT", x)
        from core import TRUE
        kind = {"Sum": "sum", "Mean": "sum", "Prod": "prod", "Max": "max", "Min": "min"}[op]
        v = fold(kind, bs, TRUE, x)
        return app("ACT", rdiv(v, n) if op == "Mean" else v)

    return Case(f"reduce {op} axes {axes} keepdims {keep}{' noop' * noop}", ("A06",), dict(C=1, H=1, W=1), build,
                lambda d: [(d.C, d.H, d.W)], out, spec)


SUBSETS = [a for k in (1, 2, 3) for a in itertools.combinations((1, 2, 3), k)]
for op in ("Sum", "Mean", "Prod", "Max", "Min"):
    CASES += [reduce(op, a) for a in SUBSETS]
    CASES += [reduce(op, (3, 1)), reduce(op, (2,), 0), reduce(op, (1, 3), 0), reduce(op, ()), reduce(op, (), 1, 1),
              reduce(op, (0,)), reduce(op, (0, 2)), reduce(op, (2, 3), 1, 1)]


# -- softmax -----------------------------------------------------------------------------------


def softmax(axis, ones=""):
    """ones: the axes of size 1 (the other ones have a size of 2 or more)."""
    dims = {x: 2 for x in "CHW" if x not in ones}

    def sz(d, x):
        return 1 if x in ones else d[x]

    def shape(d):
        return tuple(sz(d, x) for x in "CHW")

    def build(d, b):
        s = shape(d)
        return L.Softmax(original_name="s", idx=b.idx, size=s[0] * s[1] * s[2], output_shape=[1, *s], axis=axis)

    def spec(d, X, W, o):
        s = poly(fresh("s"))
        idx = [s if a == axis else i for a, i in zip(AX, o)]
        return rdiv(app("exp", X[0](*o)), Sum([(s, sz(d, AX[axis]))], app("exp", X[0](*idx))))
    return Case(f"softmax axis {axis}" + (f" {ones} of size 1" if ones else ""), ("A06",), dims, build, lambda d: [shape(d)], shape, spec, act=False)


def softmax1(shape):
    def build(d, b):
        return L.Softmax(original_name="s", idx=b.idx, size=d.N, output_shape=shape(d), axis=None)

    def spec(d, X, W, o):
        s = poly(fresh("s"))
        return rdiv(app("exp", X[0](o[0])), Sum([(s, d.N)], app("exp", X[0](s))))

    return Case(f"softmax vector rank {len(shape(dict(N=1)))}", ("A06",), dict(N=1), build, lambda d: [(d.N,)],
                lambda d: (d.N,), spec, act=False)


CASES += [softmax(a, o) for o in ("", "C", "H", "W", "CH", "CW", "HW", "CHW") for a in (1, 2, 3)]
CASES += [softmax1(lambda d: [1, 1, 1, d["N"]]), softmax1(lambda d: [1, d["N"]])]
