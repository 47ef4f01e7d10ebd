"""Contracts of the fusion passes (A12): the layer that replaces a group computes what the group computed.

Each Case builds the group of layers, runs the real PatternMatcher with the real pattern on it, and its specification is the
function of the group: the composition of the specifications of its layers (their own contracts, A10 for the reference
inference).  Sizes, parameters and the activation function are arbitrary.
"""
import copy
import types

import numpy as np

from acetone_nnet.generator import activation_functions as af
from acetone_nnet.generator import layers as L
from acetone_nnet.pattern_matching import patterns
from acetone_nnet.pattern_matching.PatternMatcher import PatternMatcher
from case import Case
from core import app, inv, rdiv

from layers import conv, elementwise


def link(*ls, edges=None):
    for a, b in edges or zip(ls, ls[1:]):
        a.next_layer.append(b)
        b.previous_layer.append(a)


def fuse(pattern, ls):
    """The network after the pass."""
    m = PatternMatcher()
    m.register_pattern(pattern())
    for k, x in enumerate(ls):
        x.path = 0
    out, _ = m.match(ls, {})
    return out


class Linear:
    """The builder of a case, for layers without activation function."""

    def __init__(self, b):
        self.b, self.act = b, af.Linear()

    def __getattr__(self, n):
        return getattr(self.b, n)


def producer(size, idx):
    """A layer to read from: anything whose activation can stay as it is."""
    return L.InputLayer(original_name="in", idx=idx, size=size, input_shape=[1, size], data_format="channels_first")


def derived(case, name, build, **kw):
    c = copy.copy(case)
    c.name, c.props, c.build, c.code = name, ("A12",), build, False
    for k, v in kw.items():
        setattr(c, k, v)
    return c


def activation(case):
    def build(d, b):
        x = case.build(d, Linear(b))
        a = L.ActivationLayer(original_name="a", idx=x.idx + 1, size=x.size, activation_function=b.act)
        x.previous_layer, x.next_layer = [], []
        link(x, a)
        out = fuse(patterns.FuseActivationLayer, [x, a])
        if len(out) > 1:        # left as they were: nothing to decide
            return case.build(d, b)
        return out[0]
    return derived(case, f"fused activation: {case.name}", build)


def conv_bn(name, version, **kw):
    base = conv.conv(name, version)

    def build(d, b):
        c = base.build(d, Linear(b))
        n = elementwise.bn_build(types.SimpleNamespace(C=d.F, H=d.OH, W=d.OW, eps=d.eps), Bn(b, c.idx + 1))
        c.previous_layer, c.next_layer = [], []
        link(c, n)
        out = fuse(patterns.FuseConvBatchNorm, [c, n])
        if len(out) > 1:
            raise Unfused(name)
        return out[0]

    def spec(d, X, W, o):
        f, i, j = o
        v = lambda n: W(f"bn_{n}", d.F)(f)
        y = conv.spec(d, X, W, o, act=False)
        return app("ACT", v("scale") * rdiv(y - v("mean"), elementwise.sqrt(v("var") + d.eps)) + v("b"))
    return derived(base, f"fused convolution and batch normalisation: {name}", build, spec=spec, reals=("eps",), **kw)


class Unfused(Exception):
    pass


class Bn:
    """The builder of a case, for the batch normalisation behind another layer: its own parameters."""

    def __init__(self, b, idx):
        self.b, self.idx = b, idx

    def T(self, name, *shape):
        return self.b.T(f"bn_{name}", *shape)

    def __getattr__(self, n):
        return getattr(self.b, n)


def silu(order):
    def build(d, b):
        n = d.C * d.H * d.W
        x = L.Add(original_name="x", idx=b.idx + 3, size=n, input_shapes=np.array([[1, d.C, d.H, d.W]] * 2), output_shape=[1, d.C, d.H, d.W],
                  activation_function=af.Linear())
        s = L.ActivationLayer(original_name="s", idx=b.idx, size=n, activation_function=af.Sigmoid())
        m = L.Multiply(original_name="m", idx=b.idx + 1, size=n, input_shapes=np.array([[1, d.C, d.H, d.W]] * 2), output_shape=[1, d.C, d.H, d.W],
                       activation_function=af.Linear())
        link(edges=[(x, s), *([(x, m), (s, m)] if order else [(s, m), (x, m)])])
        out = fuse(patterns.SigmoidMultiplyToSilu, [x, s, m])
        if len(out) != 2:
            raise Unfused("Silu")
        y = out[-1]
        if len(y.previous_layer) != 1 or y.previous_layer[0] is not x:
            raise Unfused("the fused layer reads another layer")
        return y

    def spec(d, X, W, o):
        x = X[0](*o)
        return x * inv(1 + app("exp", -x))
    return Case(f"fused Sigmoid and Multiply, operands {'swapped' if order else 'in order'}", ("A12",), dict(C=1, H=1, W=1), build,
                lambda d: [(d.C, d.H, d.W)], lambda d: (d.C, d.H, d.W), spec, act=False, code=False)


def cases():
    from layers import dense, movement, reduction
    out = [silu(False), silu(True), conv_bn("6loops", "6loops")]
    for m in (conv, dense, elementwise, movement, reduction):
        out += [activation(c) for c in m.CASES if c.act and c.python and not (c.bounded or {}).get("python")]
    return out
