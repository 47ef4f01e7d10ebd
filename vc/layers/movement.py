"""Data-movement contracts (A07, A09, A10, A19)."""
import itertools

import numpy as np
from acetone_nnet.generator import layers as L
from case import Case, fdiv
from core import ONE, ZERO, app, c_and, c_ge, c_gt, fmod, ite, poly, rmax, rmin

AX = {1: "C", 2: "H", 3: "W"}


# -- concatenation -----------------------------------------------------------------------------


def concat(axis, n):
    def shape(d, k):
        return tuple(d[f"N{k}"] if a == axis else d[x] for a, x in AX.items())

    def out(d):
        return tuple(d["N"] if a == axis else d[x] for a, x in AX.items())

    def build(d, b):
        o = out(d)
        return L.Concatenate(original_name="k", idx=b.idx, size=o[0] * o[1] * o[2], axis=axis,
                             input_shapes=[[1, *shape(d, k)] for k in range(n)], output_shape=[1, *o],
                             activation_function=b.act)

    def spec(d, X, W, o):
        pos = o[axis - 1]
        start = ZERO
        v = None
        parts = []
        for k in range(n):
            idx = list(o)
            idx[axis - 1] = pos - start
            start = start + d[f"N{k}"]
            parts.append((start, X[k](*idx)))
        v = parts[-1][1]
        for end, e in reversed(parts[:-1]):
            v = ite(c_gt(end - pos), e, v)
        return app("ACT", v)

    dims = {x: 1 for a, x in AX.items() if a != axis} | {f"N{k}": 1 for k in range(n)} | {"N": 1}
    return Case(f"concatenate {n} axis {axis}", ("A07",), dims, build, lambda d: [shape(d, k) for k in range(n)], out,
                spec, defs=lambda d: {"N": sum((d[f"N{k}"] for k in range(n)), ZERO)})


CASES = [concat(a, n) for a in (1, 2, 3) for n in (1, 2, 3, 4)]


# -- gathering ---------------------------------------------------------------------------------


def gather(axis, elements):
    def out(d):
        return tuple(d["K"] if a == axis else d[x] for a, x in AX.items())

    def ishape(d):
        return (1, *out(d)) if elements else (d["K"],)

    def build(d, b):
        o = out(d)
        cls = L.GatherElements if elements else L.Gather
        return cls(original_name="g", idx=b.idx, size=o[0] * o[1] * o[2], axis=axis,
                   indices=b.I("idx", 0, d[AX[axis]], *ishape(d)), input_shape=[1, d.C, d.H, d.W],
                   output_shape=[1, *o], activation_function=b.act)

    def spec(d, X, W, o):
        k = W.I("idx", 0, d[AX[axis]], *ishape(d))
        v = k(ZERO, *o) if elements else k(o[axis - 1])
        idx = list(o)
        idx[axis - 1] = v
        return app("ACT", X[0](*idx))

    return Case(f"gather{' elements' * elements} axis {axis}", ("A07",), dict(C=1, H=1, W=1, K=1), build,
                lambda d: [(d.C, d.H, d.W)], out, spec)


CASES += [gather(a, e) for a in (1, 2, 3) for e in (False, True)]


# -- tiling, transposition -----------------------------------------------------------------------


def tile_build(d, b):
    return L.Tile(original_name="t", idx=b.idx, size=d.RC * d.C * d.RH * d.H * d.RW * d.W, repeats=[1, d.RC, d.RH, d.RW],
                  input_shape=[1, d.C, d.H, d.W], activation_function=b.act)


CASES.append(Case("tile", ("A07",), dict(C=1, H=1, W=1, RC=1, RH=1, RW=1), tile_build, lambda d: [(d.C, d.H, d.W)],
                  lambda d: (d.RC * d.C, d.RH * d.H, d.RW * d.W),
                  lambda d, X, W, o: app("ACT", X[0](fmod(o[0], d.C), fmod(o[1], d.H), fmod(o[2], d.W))), dmax=dict(
                      RC=3, RH=3, RW=3)))


def transpose(perm, kind):
    def shape(d):
        return [ONE, d.C, d.H, d.W]

    def build(d, b):
        return L.Transpose(original_name="t", idx=b.idx, size=d.C * d.H * d.W, input_shape=[1, d.C, d.H, d.W],
                           perm=kind([0, *perm]), activation_function=b.act)

    def spec(d, X, W, o):
        x = [None] * 3
        for k, p in enumerate(perm):
            x[p - 1] = o[k]
        return app("ACT", X[0](*x))

    return Case(f"transpose {perm} {kind.__name__}", ("A07",), dict(C=1, H=1, W=1), build, lambda d: [(d.C, d.H, d.W)],
                lambda d: tuple(shape(d)[p] for p in perm), spec)


CASES += [transpose(p, k) for p in itertools.permutations((1, 2, 3)) for k in (list, tuple)]


# -- padding -------------------------------------------------------------------------------------

PADS = dict(P1=0, P2=0, P3=0, P5=0, P6=0, P7=0)


def pads(d):
    return [0, d["P1"], d["P2"], d["P3"], 0, d["P5"], d["P6"], d["P7"]]


def pad_out(d):
    return (d["C"] + d["P1"] + d["P5"], d["H"] + d["P2"] + d["P6"], d["W"] + d["P3"] + d["P7"])


def pad(cls, real=None, dims=("C", "H", "W"), extra="", one=(), lows=1):
    def build(d, b):
        o = pad_out(d)
        return getattr(L, cls)(original_name="p", idx=b.idx, size=o[0] * o[1] * o[2], pads=pads(d),
                               constant_value=d.v if cls == "ConstantPad" else 0, axes=[],
                               input_shape=[1, d.C, d.H, d.W], activation_function=b.act)

    def spec(d, X, W, o):
        idx, inside = [], []
        for x, p, n in zip(o, (d.P1, d.P2, d.P3), (d.C, d.H, d.W)):
            q = x - p
            if cls == "ConstantPad":
                inside += [c_ge(q), c_gt(n - q)]
            elif cls == "EdgePad":
                q = rmax(ZERO, rmin(q, n - 1))
            elif cls == "WrapPad":
                q = fmod(q, n)
            else:
                m = n - 1
                r = fmod(-q, 2 * m)  # reflection is even
                q = ite(c_gt(r - m), 2 * m - r, r)
            idx.append(q)
        v = X[0](*idx)
        if cls == "ConstantPad":
            v = ite(c_and(*inside), v, d.v)
        return app("ACT", v)

    return Case(f"{cls}{extra}", ("A07",), dict(C=lows, H=lows, W=lows) | PADS, build, lambda d: [(d.C, d.H, d.W)], pad_out,
                spec, reals=["v"] if cls == "ConstantPad" else ())


CASES += [pad("ConstantPad"), pad("EdgePad"), pad("WrapPad"), pad("ReflectPad", lows=2)]


# a dimension of size 1 is its own reflection


def pad_one(dim):
    def build(d, b):
        o = [s + p + q for s, p, q in zip(sizes(d), (d.P1, d.P2, d.P3), (d.P5, d.P6, d.P7))]
        return L.ReflectPad(original_name="p", idx=b.idx, size=o[0] * o[1] * o[2], pads=pads(d), constant_value=0,
                            axes=[], input_shape=[1, *sizes(d)], activation_function=b.act)

    def sizes(d):
        return [1 if x == dim else d[x] for x in ("C", "H", "W")]

    def spec(d, X, W, o):
        idx = []
        for x, p, n, nm in zip(o, (d.P1, d.P2, d.P3), sizes(d), ("C", "H", "W")):
            if nm == dim:
                idx.append(ZERO)
                continue
            r = fmod(p - x, 2 * (n - 1))
            idx.append(ite(c_gt(r - (n - 1)), 2 * (n - 1) - r, r))
        return app("ACT", X[0](*idx))

    return Case(f"ReflectPad, one of {dim}", ("A07",), {x: 2 for x in ("C", "H", "W") if x != dim} | PADS, build, lambda d: [tuple(sizes(d))],
                lambda d: tuple(s + p + q for s, p, q in zip(sizes(d), (d.P1, d.P2, d.P3), (d.P5, d.P6, d.P7))), spec)


CASES += [pad_one(x) for x in ("C", "H", "W")]

# -- flattening, constants, program input ------------------------------------------------------


def flatten(fmt, gen="channels_first"):
    """Flattens in the order of fmt a tensor stored in the order of gen."""
    def build(d, b):
        return L.Flatten(original_name="f", idx=b.idx, size=d.C * d.H * d.W, input_shape=[1, d.C, d.H, d.W],
                         data_format=fmt)

    last, glast = fmt == "channels_last", gen == "channels_last"

    def spec(d, X, W, o):
        c, h, w = (o[2], o[0], o[1]) if last else o
        return X[0](h, w, c) if glast else X[0](c, h, w)

    return Case(f"flatten {fmt}" + (" of channels_last" if glast else ""), ("A07", "A19"), dict(C=1, H=1, W=1), build,
                lambda d: [(d.H, d.W, d.C) if glast else (d.C, d.H, d.W)],
                lambda d: (d.H, d.W, d.C) if last else (d.C, d.H, d.W), spec, act=False, python=not glast,
                data_format=fmt, gen_data_format=gen, pred=(lambda d: (d.C * d.H * d.W,), None))


CASES += [flatten(f, g) for g in ("channels_first", "channels_last") for f in ("channels_first", "channels_last")]


def inputs(have, want, dims=3):
    def build(d, b):
        return L.InputLayer(original_name="i", idx=b.idx, size=d.C * d.H * d.W if dims == 3 else d.N,
                            input_shape=[1, d.C, d.H, d.W] if dims == 3 else [1, d.N], data_format=have,
                            gen_data_format=want)

    def shape(d):
        if dims == 1:
            return (d.N,)
        return (d.C, d.H, d.W) if have == "channels_first" else (d.H, d.W, d.C)

    def out(d):
        if dims == 1:
            return (d.N,)
        return (d.C, d.H, d.W) if want == "channels_first" else (d.H, d.W, d.C)

    def spec(d, X, W, o):
        x = W("nn_input", *shape(d))
        if dims == 1:
            return x(*o)
        c, h, w = o if want == "channels_first" else (o[2], o[0], o[1])
        return x(c, h, w) if have == "channels_first" else x(h, w, c)

    return Case(f"input {have} to {want} {dims}D", ("A07", "A19"), dict(C=1, H=1, W=1) if dims == 3 else dict(N=1), build,
                lambda d: [], out, spec, act=False, data_format=have, gen_data_format=want, nn_input=shape, python=False)


CF, CL = "channels_first", "channels_last"
CASES += [inputs(a, b) for a in (CF, CL) for b in (CF, CL)] + [inputs(a, b, 1) for a in (CF, CL) for b in (CF, CL)]


def constant(d, b):
    return L.ConstantLayer(original_name="c", size=d.C * d.H * d.W, idx=b.idx, constant=b.T("K", 1, d.C, d.H, d.W))


CASES.append(Case("constant", ("A07", "A14"), dict(C=1, H=1, W=1), constant, lambda d: [], lambda d: (d.C, d.H, d.W),
                  lambda d, X, W, o: W("K", 1, d.C, d.H, d.W)(ZERO, *o), act=False))
