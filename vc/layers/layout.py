"""Contracts of the conversions between data formats (A19)."""
import copy

from layers import elementwise, movement, reduction

CF, CL = "channels_first", "channels_last"
CASES = [c for c in movement.CASES if "A19" in c.props]


def reordered(case, name, src_format, cfg):
    """The same layer at the end of a network whose output is converted to the other data format."""
    c = copy.copy(case)
    c.name, c.props, c.python = name, ("A19",), False
    c.data_format, c.gen_data_format = src_format, CF if src_format == CL else CL
    c.pred = cfg
    return c


def chw(case):
    return lambda d: tuple(case.out_shape(d))


def hwc(case):
    def f(d):
        c, h, w = case.out_shape(d)
        return h, w, c
    return f


_bn = next(c for c in elementwise.CASES if c.name == "batch normalization")
CASES.append(reordered(_bn, "output to channels last", CL, (hwc(_bn), lambda h, w, c: (c, h, w))))
_pad = next(c for c in movement.CASES if c.name == "EdgePad")
CASES.append(reordered(_pad, "output to channels last after padding", CL, (hwc(_pad), lambda h, w, c: (c, h, w))))

_pool = next(c for c in reduction.CASES if c.name == "max pooling channels last")


def _chw(d):
    h, w, c = _pool.out_shape(d)
    return c, h, w


CASES.append(reordered(_pool, "output to channels first", CF, (_chw, lambda c, h, w: (h, w, c))))
