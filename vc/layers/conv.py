"""Convolution contracts (A03, A09, A10)."""
from acetone_nnet.generator.layers import Conv2D
from case import Case, fdiv
from core import Sum, app, c_and, c_eq, c_ge, c_gt, fresh, poly


def out_h(d):
    return fdiv(d.H + d.PT + d.PB - d.D * (d.KH - 1) - 1, d.S) + 1


def out_w(d):
    return fdiv(d.W + d.PL + d.PR - d.D * (d.KW - 1) - 1, d.S) + 1


DIMS = dict(C=1, H=1, W=1, F=1, KH=1, KW=1, S=1, D=1, PT=0, PL=0, PB=0, PR=0, OH=1, OW=1)


def build(algo="specs", group=None, pad=None):
    def f(d, b):
        return Conv2D(
            original_name="c", idx=b.idx, conv_algorithm=algo, size=d.F * d.OH * d.OW,
            padding=pad or [d.PT, d.PL, d.PB, d.PR], strides=d.S, kernel_h=d.KH, kernel_w=d.KW, dilation_rate=d.D,
            nb_filters=d.F, input_shape=[1, d.C, d.H, d.W], output_shape=[1, d.F, d.OH, d.OW],
            weights=b.T("w", d.F, d.C, d.KH, d.KW), biases=b.T("b", d.F), activation_function=b.act)
    return f


def spec(d, X, W, o, act=True):
    f, i, j = o
    c, h, w = [poly(fresh("s")) for _ in range(3)]
    ii = i * d.S + h * d.D - d.PT
    jj = j * d.S + w * d.D - d.PL
    inside = c_and(c_ge(ii), c_gt(d.H - ii), c_ge(jj), c_gt(d.W - jj))
    y = Sum([(c, d.C), (h, d.KH), (w, d.KW)], X[0](c, ii, jj) * W("w", d.F, d.C, d.KH, d.KW)(f, c, h, w), inside) + W("b", d.F)(f)
    return app("ACT", y) if act else y


def pre(d):
    return [c_ge(d.H + d.PT + d.PB - d.D * (d.KH - 1) - 1), c_ge(d.W + d.PL + d.PR - d.D * (d.KW - 1) - 1)]


def conv(name, version, **kw):
    # the installed algorithm is requested the way a user does: by version name
    algo = version or "specs"
    return Case(name, ("A03",), DIMS, build(algo), lambda d: [(d.C, d.H, d.W)], lambda d: (d.F, d.OH, d.OW), spec,
                pre=pre, versions=version, defs=lambda d: dict(OH=out_h(d), OW=out_w(d)), **kw)


CASES = [
    conv("conv 6loops", "6loops"),
    conv("conv default", None, python=False),
    *[conv(f"conv std_gemm_{t}", f"std_gemm_{t}", python=False, weight=5) for t in ("nn", "nt", "tn", "tt")],
]


def block_spec(d, X, W, o):
    """The same convolution over images stored channels last."""
    i, j, f = o
    c, h, w = [poly(fresh("s")) for _ in range(3)]
    ii = i * d.S + h - d.PT
    jj = j * d.S + w - d.PT
    inside = c_and(c_ge(ii), c_gt(d.H - ii), c_ge(jj), c_gt(d.W - jj))
    return app("ACT", Sum([(h, d.KH), (w, d.KW), (c, d.C)],
                          X[0](ii, jj, c) * W("w", d.F, d.C, d.KH, d.KW)(f, c, h, w), inside) + W("b", d.F)(f))


def block_build(group=1, dw=False):
    def f(d, b):
        return Conv2D(
            original_name="c", idx=b.idx, conv_algorithm="specs", size=d.F * d.OH * d.OW,
            padding=[d.PT, d.PT, d.PB, d.PR], strides=d.S, kernel_h=d.KH, kernel_w=d.KW, dilation_rate=1,
            nb_filters=d.F, input_shape=[1, d.C, d.H, d.W], output_shape=[1, d.F, d.OH, d.OW],
            weights=b.T("w", d.F, 1 if dw else d.C, d.KH, d.KW), biases=b.T("b", d.F), activation_function=b.act,
            group=d.C if dw else 1)
    return f


def b_defs(d):
    return dict(OH=fdiv(d.H + d.PT + d.PB - d.KH, d.S) + 1, OW=fdiv(d.W + d.PT + d.PR - d.KW, d.S) + 1)


def b_pre(*more):
    return lambda d: [c_ge(d.H + d.PT + d.PB - d.KH), c_ge(d.W + d.PT + d.PR - d.KW), *[m(d) for m in more]]


BDIMS = dict(C=1, H=1, W=1, F=1, KH=1, KW=1, S=1, PT=0, PB=0, PR=0, OH=1, OW=1)


def block(name, *more, **kw):
    dims = dict(BDIMS)
    dims.update(kw.pop("dims", {}))
    kw.setdefault("defs", b_defs)
    return Case(name, ("A03",), dims, block_build(), lambda d: [(d.H, d.W, d.C)], lambda d: (d.OH, d.OW, d.F),
                block_spec, pre=b_pre(*more), versions="direct_block", python=False,
                data_format="channels_last", gen_data_format="channels_last", **kw)


BLOCK = "blocked and Winograd code: the path conditions (parity, block counts) are beyond the prover's time limit"

CASES += [
    block("conv direct_block", bounded=dict(code=BLOCK), choices=dict(F=[1, 2, 3, 7, 64], C=[1, 2, 3, 4]),
          dmax=dict(H=7, W=7, KH=5, KW=5, S=3, PT=2, PB=2, PR=2)),
    block("conv direct_block 3x3 stride 1", lambda d: c_eq(d.KH - 3), lambda d: c_eq(d.KW - 3), lambda d: c_eq(d.S - 1),
          bounded=dict(code=BLOCK), choices=dict(F=[1, 2, 3, 64], C=[1, 2, 3, 4], KH=[3], KW=[3], S=[1]),
          dmax=dict(H=8, W=8, PT=2, PB=2, PR=2)),
    block("conv direct_block several blocks", bounded=dict(code=BLOCK), choices=dict(F=[128, 192]),
          dmax=dict(H=5, W=5, KH=3, KW=4, S=2, PT=2, PB=2, PR=2)),
    block("conv direct_block 1x1 several blocks", lambda d: c_eq(d.KH - 1), lambda d: c_eq(d.KW - 1),
          bounded=dict(code=BLOCK), choices=dict(F=[1, 5, 512, 1024], KH=[1], KW=[1]),
          dmax=dict(H=4, W=4, S=2, PT=1, PB=1, PR=1)),
]
