"""Resize contracts (A08): nearest, linear and cubic interpolation as ONNX defines them.

The coordinate of an output element in the input is a real term; sizes and scales are symbols, so one contract
covers every input size, output size and scale of a mode and a coordinate transformation.
"""
from fractions import Fraction

from acetone_nnet.generator import layers as L
from case import Case
from pyfront import conv_int
from core import ONE, ZERO, app, c_ge, c_gt, floor_, ite, let, poly, rdiv, rmax, rmin

HALF = poly(Fraction(1, 2))
MODES = ("half_pixel", "half_pixel_symmetric", "pytorch_half_pixel", "align_corners", "asymmetric")
NEAREST = ("round_prefer_floor", "round_prefer_ceil", "floor", "ceil")
#: the part of the input tf_crop_and_resize takes, per axis: starts, then ends
ROI = [0, 0, 0.25, 0.25, 1, 1, 0.75, 0.75]
CLS = {"nearest": L.ResizeNearest, "linear": L.ResizeLinear, "cubic": L.ResizeCubic}


def coordinate(mode, k, length, resized, scale):
    """Where element k of a dimension of `resized` elements is among its `length` elements."""
    if mode == "half_pixel":
        return rdiv(k + HALF, scale) - HALF
    if mode == "half_pixel_symmetric":
        adjustment = rdiv(resized, length * scale)
        return rdiv(length, poly(2)) * (ONE - adjustment) + rdiv(k + HALF, scale) - HALF
    if mode == "pytorch_half_pixel":
        return ite(c_gt(resized - 1), rdiv(k + HALF, scale) - HALF, ZERO)
    if mode == "align_corners":
        return ZERO if resized == ONE else ite(c_gt(resized - 1), rdiv(k * (length - 1), resized - 1), ZERO)
    if mode == "tf_crop_and_resize":
        lo, hi = poly(Fraction(1, 4)), poly(Fraction(3, 4))
        return ite(c_gt(resized - 1), lo * (length - 1) + rdiv(k * (hi - lo) * (length - 1), resized - 1),
                   HALF * (lo + hi) * (length - 1))
    return rdiv(k, scale)


def clamp(v, length):
    return rmax(ZERO, rmin(v, length - 1))


def nearest(mode, x):
    up = -floor_(-x)
    if mode == "floor":
        return floor_(x)
    if mode == "ceil":
        return up
    if mode == "round_prefer_floor":
        return floor_(-floor_(-2 * x) * HALF)
    return -floor_(-(floor_(2 * x) * HALF))


def cubic(a, s):
    """The weights of the four neighbours, s being the distance to the second one."""
    def near(t):
        return (a + 2) * t * t * t - (a + 3) * t * t + 1

    def far(t):
        return a * t * t * t - 5 * a * t * t + 8 * a * t - 4 * a

    return far(s + 1), near(s), near(1 - s), far(2 - s)


def inside(weights, u, length):
    """The weights without the neighbours that are outside, adding up to 1."""
    ws = [ite(c_gt(-(u + k)), ZERO, ite(c_ge(u + k - length), ZERO, w)) for k, w in zip((-1, 0, 1, 2), weights)]
    return [rdiv(w, sum(ws, ZERO)) for w in ws]


def resize(kind, mode, rounding=None, scales=False, ones=(), a=None, outside=0):
    """outside: the setting exclude_outside; ones: the dimensions that have one element (h, w: of the input, oh, ow: of the output)."""
    dims = dict(C=1)
    for n in ("H", "W", "OH", "OW"):
        if n not in ones and not (scales and n[0] == "O"):
            dims[n] = 1

    def get(d, n):
        if scales and n[0] == "O":
            return floor_(d[n[1]] * d["S" + n[1]])
        return poly(d[n]) if n in dims else ONE

    def lengths(d):
        return [get(d, n) for n in ("H", "W", "OH", "OW")]

    def scale(d):
        H, W, OH, OW = lengths(d)
        return (d.SH, d.SW) if scales else (rdiv(OH, H), rdiv(OW, W))

    def num(d, n):
        return d[n] if n in dims else 1

    def build(d, b):
        H, W = num(d, "H"), num(d, "W")
        if scales:
            oh, ow = conv_int(H * d.SH), conv_int(W * d.SW)
            target = [1.0, 1.0, d.SH, d.SW]
        else:
            oh, ow = num(d, "OH"), num(d, "OW")
            target = [1, d.C, oh, ow]
        return CLS[kind](original_name="r", idx=b.idx, size=d.C * oh * ow, input_shape=[1, d.C, H, W],
                         activation_function=b.act, coordinate_transformation_mode=mode, boolean_resize=scales,
                         target_size=target, nearest_mode=rounding or "round_prefer_floor",
                         exclude_outside=outside, roi=ROI if mode == "tf_crop_and_resize" else [],
                         extrapolation_value=1.5,
                         **({"cubic_coeff_a": d.A if a is None else a} if kind == "cubic" else {}))

    def spec(d, X, W, o):
        H, Wd, OH, OW = lengths(d)
        sh, sw = scale(d)
        f, i, j = o
        x = coordinate(mode, i, H, OH, sh)
        y = coordinate(mode, j, Wd, OW, sw)
        if kind == "nearest":
            r = X[0](f, clamp(nearest(rounding, x), H), clamp(nearest(rounding, y), Wd))
            if mode == "tf_crop_and_resize":
                for v, n in ((x, H), (y, Wd)):
                    r = ite(c_gt(-v), poly(Fraction(3, 2)), ite(c_gt(v - (n - 1)), poly(Fraction(3, 2)), r))
            return app("ACT", r)
        if kind == "linear":
            x, y = clamp(x, H), clamp(y, Wd)
            u, v = floor_(x), floor_(y)
            r = ZERO
            for di, wi in ((0, 1 - (x - u)), (1, x - u)):
                for dj, wj in ((0, 1 - (y - v)), (1, y - v)):
                    # a neighbour beyond the last element has the weight 0 (lemma)
                    e = X[0](f, u + di, v + dj)
                    if di:
                        e = ite(c_ge(u + 1 - H), ZERO, e)
                    if dj:
                        e = ite(c_ge(v + 1 - Wd), ZERO, e)
                    r = r + wi * wj * e
            return app("ACT", r)
        x, y = let(x), let(y)
        u, v = floor_(x), floor_(y)
        c = d.A if a is None else poly(Fraction(a))
        r = ZERO
        wx, wy = cubic(c, x - u), cubic(c, y - v)
        if outside:
            wx, wy = inside(wx, u, H), inside(wy, v, Wd)
        for di, wi in zip((-1, 0, 1, 2), wx):
            for dj, wj in zip((-1, 0, 1, 2), wy):
                r = r + wi * wj * X[0](f, clamp(u + di, H), clamp(v + dj, Wd))
        return app("ACT", r)

    def pre(d):
        c = []
        if scales:
            c += [c_gt(d.SH), c_gt(d.SW)]
            c += [c_ge(floor_(get(d, n) * d["S" + n]) - 1) for n in ("H", "W")]
        return c

    reals = [] if kind != "cubic" or a is not None else ["A"]
    if scales:
        reals += ["SH", "SW"]
    # concrete runs keep to coordinates that floating point computes exactly
    pool = (1, 2, 3, 5) if mode == "align_corners" else (1, 2, 4)
    choices = {n: pool for n in "HW"} | {n: pool + (8,) for n in ("OH", "OW")} | {n: (0.5, 1.0, 1.5, 2.0) for n in ("SH", "SW")}
    return Case(f"resize {kind} {mode}" + f" {rounding}" * bool(rounding) + " scales" * scales + " exclude_outside" * outside
                + "".join(f" {n}=1" for n in ones), ("A08",), dims, build,
                lambda d: [(d.C, get(d, "H"), get(d, "W"))], lambda d: (d.C, get(d, "OH"), get(d, "OW")), spec, pre,
                reals=reals, python=True, opaque=kind == "cubic", dmax=dict(C=2), choices=choices,
                weight=3 if kind == "cubic" and not ones else 1)


CASES = []
for m in MODES:
    for one in ((), ("H",), ("W",), ("H", "W")):
        CASES.append(resize("linear", m, ones=one))
        CASES.append(resize("cubic", m, ones=one))
    for r in NEAREST:
        CASES.append(resize("nearest", m, r))
    for k in ("nearest", "linear", "cubic"):
        CASES.append(resize(k, m, "round_prefer_floor" if k == "nearest" else None, True))

#: settings the code does not follow (known findings), run on one configuration each
KNOWN = [(resize("nearest", "tf_crop_and_resize", "round_prefer_floor"), dict(C=2, H=4, W=5, OH=3, OW=4)),
         (resize("cubic", "half_pixel", a=-0.5, outside=1), dict(C=1, H=4, W=5, OH=7, OW=8))]
