"""Contracts of the ONNX node importers (A17).

Each Case builds its layer by running the real importer function on one ONNX node, and its specification is
the ONNX definition of the operator, so the obligation "reference inference = specification" says that the
imported layer means what the node means, for every size and attribute value.
On symbolic sizes the node is an object with the attributes of the protobuf classes; on concrete sizes
(sampled runs, replays) it is a real onnx protobuf.
"""
import itertools
from fractions import Fraction
from types import SimpleNamespace as NS

import numpy as np
import onnx
import pyfront
from acetone_nnet.generator import activation_functions as af
from acetone_nnet.generator import layers as L
from acetone_nnet.importers.ONNX_importer import create_layer
from case import Case, fdiv
from core import ONE, TRUE, ZERO, Sum, app, c_and, c_ge, c_gt, fmod, fold, fresh, ite, poly, rmax, rmin
from pyfront import rdiv

from layers import conv as conv_cases
from layers import reduction

REAL = onnx


class Wrong(Exception):
    """The importer registers other inputs or outputs than the node's."""


class Msg(NS):
    """A protobuf message: true, whatever it contains."""

    def __bool__(self):
        return True


def value_info(name, shape):
    return Msg(name=name, type=NS(tensor_type=NS(elem_type=1, shape=NS(dim=[NS(dim_value=s) for s in shape]))))


SHIM = NS(helper=NS(get_attribute_value=lambda a: a.value, tensor_dtype_to_np_dtype=onnx.helper.tensor_dtype_to_np_dtype),
          numpy_helper=NS(to_array=None), TensorProto=onnx.TensorProto, shape_inference=onnx.shape_inference)


def to_array(init):
    if not isinstance(init, Msg):
        raise TypeError("to_array of something that is not a tensor")
    t = init.tensor
    return t.copy() if hasattr(t, "copy") else t


SHIM.numpy_helper.to_array = to_array


def imported(b, op, ins, outs, attrs=None, opset=18, domain=""):
    """The layer the importer makes of one node.

    ins: (name, shape) for a computed tensor, (name, shape, array) for an initializer, "" for an omitted input."""
    attrs = attrs or {}
    names = [i if i == "" else i[0] for i in ins]
    inits = {i[0]: i for i in ins if len(i) == 3}
    data = {i[0]: i for i in ins if len(i) == 2}
    onames = [o[0] for o in outs]
    if b.symbolic:
        at = [Msg(name=k, value=v.encode() if isinstance(v, str) else list(v) if isinstance(v, (list, tuple)) else v)
              for k, v in attrs.items()]
        node = Msg(op_type=op, name="node", input=names, output=onames, attribute=at, domain=domain)
        graph = NS(initializer=[Msg(name=n, tensor=t, dims=list(s), data_type=1) for n, s, t in inits.values()],
                   value_info=[value_info(*d) for d in data.values()] + [value_info(*o) for o in outs],
                   input=[], output=[], node=[node])
        model = NS(graph=graph, opset_import=[NS(domain="", version=opset)])
    else:
        h = onnx.helper
        plain = lambda v: [plain(x) for x in v] if isinstance(v, (list, tuple)) else v.item() if hasattr(v, "item") else v
        node = h.make_node(op, names, onames, name="node", domain=domain, **{k: plain(v) for k, v in attrs.items()})
        vi = lambda n, s: h.make_tensor_value_info(n, onnx.TensorProto.FLOAT, [int(x) for x in s])
        graph = h.make_graph([node], "g", [vi(*d) for d in data.values()], [vi(*o) for o in outs],
                             [onnx.numpy_helper.from_array(np.asarray(t), n) for n, s, t in inits.values()])
        model = h.make_model(graph, opset_imports=[h.make_opsetid("", opset)])
        node = model.graph.node[0]
    di, do = {}, {}
    kept = create_layer.onnx
    try:
        if b.symbolic:
            create_layer.onnx = SHIM
        layer = create_layer.layer_type[op](node, b.idx, di, do, model)
    finally:
        create_layer.onnx = kept
    if do != {onames[0]: b.idx}:
        raise Wrong(f"outputs registered: {do}")
    if list(di) != [b.idx]:
        raise Wrong(f"inputs registered: {di}")
    layer.onnx_inputs = list(di[b.idx])
    return layer


def three(shape):
    shape = tuple(shape)
    return shape[1:] if len(shape) == 4 else (1,) * (3 - len(shape)) + shape


def node(name, op, dims, xs, out, spec, params=lambda d, b: [], attrs=lambda d: {}, opset=18, order=None, reads=None, **kw):
    """xs: shapes of the computed inputs; params: initializers; order: indices in xs + params, or "" for omitted."""
    def build(d, b):
        ins = [(f"x{k}", s) for k, s in enumerate(xs(d))] + list(params(d, b))
        want = reads if reads is not None else [f"x{k}" for k in range(len(xs(d)))]
        if order is not None:
            ins = [ins[k] if k != "" else "" for k in order]
        layer = imported(b, op, ins, [("y", out(d))], attrs(d), opset)
        if layer.onnx_inputs != want:
            raise Wrong(f"{op} reads {layer.onnx_inputs} instead of {want}")
        return layer
    kw.setdefault("weight", 1)
    return Case(f"{op} {name}".strip(), ("A17",), dims, build, xs, out, spec, act=False,
                py_in=lambda d: [three(s) for s in xs(d)], py_variants=("shaped",), code=False, **kw)


CASES = []


# -- convolution -------------------------------------------------------------------------------


def conv(name, attrs, bias=True, one=(), **kw):
    """one: the sizes that are left to their default, 1 (strides, dilations) or 0 (pads)."""
    dims = {k: v for k, v in conv_cases.DIMS.items() if k not in one}

    def full(d):
        r = type(d)(d)
        for k in one:
            r[k] = 1 if k in "SD" else 0
        return r

    def spec(d, X, W, o):
        d = full(d)
        n, f, i, j = o
        c, h, w = [poly(fresh("s")) for _ in range(3)]
        ii = i * d.S + h * d.D - d.PT
        jj = j * d.S + w * d.D - d.PL
        inside = c_and(c_ge(ii), c_gt(d.H - ii), c_ge(jj), c_gt(d.W - jj))
        v = Sum([(c, d.C), (h, d.KH), (w, d.KW)], X[0](n, c, ii, jj) * W("w", d.F, d.C, d.KH, d.KW)(f, c, h, w), inside)
        return v + W("b", d.F)(f) if bias is True else v
    return node(name, "Conv", dims, lambda d: [(1, d.C, d.H, d.W)], lambda d: (1, d.F, d.OH, d.OW), spec,
                params=lambda d, b: [("w", (d.F, d.C, d.KH, d.KW), b.T("w", d.F, d.C, d.KH, d.KW))] +
                ([("b", (d.F,), b.T("b", d.F))] if bias is True else [""] if bias == "" else []), attrs=lambda d: attrs(full(d)),
                defs=lambda d: dict(OH=conv_cases.out_h(full(d)), OW=conv_cases.out_w(full(d))),
                pre=lambda d: conv_cases.pre(full(d)), **kw)


ALL = lambda d: dict(kernel_shape=[d.KH, d.KW], strides=[d.S, d.S], dilations=[d.D, d.D], group=1, pads=[d.PT, d.PL, d.PB, d.PR])


def without(*keys, **more):
    return lambda d: {k: v for k, v in ALL(d).items() if k not in keys} | more


NOPAD = ("PT", "PL", "PB", "PR")
CASES += [
    conv("all attributes", ALL), conv("no bias", ALL, bias=False), conv("omitted bias", ALL, bias=""),
    conv("no kernel_shape", without("kernel_shape")), conv("no group", without("group")),
    conv("no strides", without("strides"), one=("S",)), conv("no dilations", without("dilations"), one=("D",)),
    conv("no pads", without("pads"), one=NOPAD), conv("NOTSET", without(auto_pad="NOTSET")),
    conv("NOTSET no pads", without("pads", auto_pad="NOTSET"), one=NOPAD),
    conv("VALID", without("pads", auto_pad="VALID"), one=NOPAD),
    conv("no attributes", lambda d: {}, one=("S", "D", *NOPAD)),
]


# -- pooling -----------------------------------------------------------------------------------


def pool(op, name, attrs, one=(), extra=None, **kw):
    avg = op == "AveragePool"
    dims = {k: v for k, v in reduction.PDIMS.items() if k not in one}

    def full(d):
        r = type(d)(d)
        for k in one:
            r[k] = 1 if k == "S" else 0
        return r

    base = reduction.pool_spec(avg, False)

    def spec(d, X, W, o):
        r = base(full(d), [lambda c, i, j: X[0](o[0], c, i, j)], W, o[1:])
        return linear(r)
    return node(name, op, dims, lambda d: [(1, d.C, d.H, d.W)], lambda d: (1, d.C, d.OH, d.OW), spec, attrs=lambda d: attrs(full(d)),
                defs=lambda d: reduction.pool_defs(full(d)), pre=lambda d: reduction.pool_pre(full(d)),
                dmax=dict(H=6, W=6, K=4, S=3, PT=3, PL=3, PB=3, PR=3), **kw)


def linear(t):
    """The argument of the activation function of another module's specification."""
    a = poly(t).single_atom()
    assert a.kind == "app" and a.args[0] == "ACT", a
    return a.args[1][0]


PALL = lambda d: dict(kernel_shape=[d.K, d.K], strides=[d.S, d.S], pads=[d.PT, d.PL, d.PB, d.PR])


def pwithout(*keys, **more):
    return lambda d: {k: v for k, v in PALL(d).items() if k not in keys} | more


for op in ("MaxPool", "AveragePool"):
    CASES += [
        pool(op, "all attributes", PALL), pool(op, "no strides", pwithout("strides"), one=("S",)),
        pool(op, "no pads", pwithout("pads"), one=NOPAD), pool(op, "NOTSET", pwithout(auto_pad="NOTSET")),
        pool(op, "VALID", pwithout("pads", auto_pad="VALID"), one=NOPAD), pool(op, "floor", pwithout(ceil_mode=0)),
        pool(op, "dilations of 1", pwithout(dilations=[1, 1])),
        pool(op, "kernel_shape only", pwithout("pads", "strides"), one=("S", *NOPAD)),
    ]
CASES += [pool("AveragePool", "count_include_pad 0", pwithout(count_include_pad=0)),
          pool("AveragePool", "count_include_pad without padding", pwithout("pads", count_include_pad=1), one=NOPAD)]


def global_pool():
    def spec(d, X, W, o):
        h, w = poly(fresh("s")), poly(fresh("s"))
        return rdiv(Sum([(h, d.H), (w, d.H)], X[0](ZERO, o[1], h, w)), d.H * d.H)
    return node("square", "GlobalAveragePool", dict(C=1, H=1), lambda d: [(1, d.C, d.H, d.H)], lambda d: (1, d.C, 1, 1), spec)


CASES.append(global_pool())


# -- ranks -------------------------------------------------------------------------------------

NAMES = "ABC"


def ranks(r):
    """(sizes, shape of a tensor of rank r): the batch dimension of a tensor of rank 4 is 1."""
    if r == 4:
        return dict(A=1, B=1, C=1), lambda d: (1, d.A, d.B, d.C)
    return {n: 1 for n in NAMES[:r]}, lambda d: tuple(d[n] for n in NAMES[:r])


def axis_cases(r, signs=(1, -1)):
    """(axis as written, axis >= 0) for every non-batch axis of a tensor of rank r."""
    return [(a if s > 0 else a - r, a) for a in range(1 if r == 4 else 0, r) for s in signs]


# -- softmax -----------------------------------------------------------------------------------


def softmax(r, axis, real, opset, name, block=False, ones=""):
    """ones: the axes of size 1 (the other ones have a size of 2 or more)."""
    dims, full = ranks(r)
    dims = {k: 2 for k in dims if k not in ones}

    def shape(d):
        return full(type(d)({**d, **{k: 1 for k in ones}}))

    def spec(d, X, W, o):
        # before version 13 the axes from `axis` on are normalised together
        axes = range(real, r) if block else [real]
        bs, idx = [], list(o)
        for a in axes:
            s = poly(fresh("s"))
            bs.append((s, shape(d)[a]))
            idx[a] = s
        return rdiv(app("exp", X[0](*o)), Sum(bs, app("exp", X[0](*idx))))
    return node(f"{name} rank {r} opset {opset}" + (f" {ones} of size 1" if ones else ""), "Softmax", dims, lambda d: [shape(d)], shape, spec,
                attrs=lambda d: {} if axis is None else dict(axis=axis), opset=opset)


def subsets(names):
    return ["".join(c) for k in range(1, len(names) + 1) for c in itertools.combinations(names, k)]


for r in (1, 2, 3, 4):
    CASES += [softmax(r, a, p, 13, f"axis {a}") for a, p in axis_cases(r)] + [softmax(r, None, r - 1, 13, "default axis")]
    CASES += [softmax(r, a, p, 13, f"axis {a}", False, o) for a, p in axis_cases(r, (1,)) for o in subsets(NAMES[:min(r, 3)])]
    CASES += [softmax(r, a, p, 11, f"axis {a}", True) for a, p in axis_cases(r) if p == r - 1]
CASES.append(softmax(2, None, 1, 11, "default axis", True))


# -- concatenation, gathering ------------------------------------------------------------------


def concat(r, axis, real, n):
    dims, shape = ranks(r)
    nm = [k for k in range(r)][real]

    def sh(d, k):
        s = list(shape(d))
        s[real] = d[f"N{k}"]
        return tuple(s)

    def out(d):
        s = list(shape(d))
        s[real] = d.N
        return tuple(s)

    def spec(d, X, W, o):
        start, parts = ZERO, []
        for k in range(n):
            idx = list(o)
            idx[real] = o[real] - start
            start = start + d[f"N{k}"]
            parts.append((start, X[k](*idx)))
        v = parts[-1][1]
        for end, e in reversed(parts[:-1]):
            v = ite(c_gt(end - o[real]), e, v)
        return v
    letter = NAMES[nm - 1] if r == 4 else NAMES[nm]
    dims = {k: v for k, v in dims.items() if k != letter}

    def shape(d, _s=shape):  # noqa: F811
        return _s(type(d)({**d, letter: ONE}))
    return node(f"axis {axis} rank {r} of {n}", "Concat", dims | {f"N{k}": 1 for k in range(n)} | {"N": 1},
                lambda d: [sh(d, k) for k in range(n)], out, spec, attrs=lambda d: dict(axis=axis),
                defs=lambda d: {"N": sum((d[f"N{k}"] for k in range(n)), ZERO)})


for r in (1, 2, 3, 4):
    CASES += [concat(r, a, p, 2) for a, p in axis_cases(r)]
CASES += [concat(4, 1, 1, 1), concat(4, -1, 3, 3)]


def gather(r, axis, real, elements, rank=1, low=True, tag="", opset=18):
    """low: indices of [-s, s); otherwise of [0, s)."""
    dims, shape = ranks(r)
    op = "GatherElements" if elements else "Gather"
    ks = [f"K{k}" for k in range(1 if elements else rank)]

    def ishape(d):
        s = shape(d)
        return s[:real] + (d.K0,) + s[real + 1:] if elements else tuple(d[k] for k in ks)

    def out(d):
        s = shape(d)
        return ishape(d) if elements else s[:real] + ishape(d) + s[real + 1:]

    def index(d, W):
        n = shape(d)[real]
        return W.I("idx", -poly(n) if low else 0, n, *ishape(d))

    def spec(d, X, W, o):
        n = shape(d)[real]
        idx = list(o)
        if elements:
            k = index(d, W)(*o)
            idx[real] = ite(c_gt(-k), k + n, k)
        else:
            k = index(d, W)(*o[real:real + rank])
            idx[real:real + rank] = [ite(c_gt(-k), k + n, k)]
        return X[0](*idx)
    return node(f"axis {axis} rank {r}{tag}", op, dims | {k: 1 for k in ks}, lambda d: [shape(d)], out, spec,
                params=lambda d, b: [("i", ishape(d), b.I("idx", -shape(d)[real] if low else 0, shape(d)[real], *ishape(d)))],
                attrs=lambda d: {} if axis is None else dict(axis=axis), opset=opset)


for e in (False, True):
    for r in (1, 2, 3, 4):
        CASES += [gather(r, a, p, e) for a, p in axis_cases(r)]
        if r < 4:
            CASES.append(gather(r, None, 0, e, tag=" default axis"))
CASES += [gather(4, 2, 2, False, 0, tag=" scalar index"), gather(2, 1, 1, False, 2, tag=" matrix of indices"),
          gather(4, 1, 1, False, 1, False, " without negative indices")]


# -- products ----------------------------------------------------------------------------------

GBIAS = {"N": lambda d: (d.N,), "MN": lambda d: (d.M, d.N), "1N": lambda d: (1, d.N), "M1": lambda d: (d.M, 1),
         "11": lambda d: (1, 1), "1": lambda d: (1,), "scalar": lambda d: ()}


def gemm(name, ta, tb, bias, attrs, reals=(), order=None):
    def sa(d):
        return (d.K, d.M) if ta else (d.M, d.K)

    def sw(d):
        return (d.N, d.K) if tb else (d.K, d.N)

    def params(d, b):
        p = [("w", sw(d), b.T("w", *sw(d)))]
        if bias:
            s = GBIAS[bias](d)
            p.append(("c", s, b.T("b", *s)))
        return p

    def spec(d, X, W, o):
        i, j = o
        k = poly(fresh("s"))
        x = X[0](k, i) if ta else X[0](i, k)
        w = W("w", *sw(d))(j, k) if tb else W("w", *sw(d))(k, j)
        s = Sum([(k, d.K)], x * w)
        if "alpha" in reals:
            s = s * d.alpha
        if bias:
            full = {"N": (j,), "MN": (i, j), "1N": (ZERO, j), "M1": (i, ZERO), "11": (ZERO, ZERO), "1": (ZERO,), "scalar": ()}[bias]
            c = W("b", *GBIAS[bias](d))(*full)
            s = s + (d.beta * c if "beta" in reals else c)
        return s
    return node(name, "Gemm", dict(M=1, N=1, K=1), lambda d: [sa(d)], lambda d: (d.M, d.N), spec, params=params, attrs=attrs,
                reals=reals, order=order)


GALL = lambda d: dict(alpha=d.alpha, beta=d.beta, transA=0, transB=0)
CASES += [gemm(f"trans {ta}{tb} bias {bias}", ta, tb, bias, lambda d, ta=ta, tb=tb: GALL(d) | dict(transA=ta, transB=tb), ("alpha", "beta"))
          for ta in (0, 1) for tb in (0, 1) for bias in ("N", "MN")]
CASES += [gemm(f"bias {bias}", 0, 0, bias, GALL, ("alpha", "beta")) for bias in ("1N", "M1", "11", "1", "scalar")]
CASES += [gemm("no attributes", 0, 0, "N", lambda d: {}), gemm("alpha", 0, 0, "N", lambda d: dict(alpha=d.alpha), ("alpha",)),
          gemm("beta", 0, 0, "N", lambda d: dict(beta=d.beta), ("beta",)), gemm("transA only", 1, 0, "N", lambda d: dict(transA=1)),
          gemm("transB only", 0, 1, "N", lambda d: dict(transB=1)),
          gemm("no C", 0, 0, None, lambda d: dict(alpha=d.alpha), ("alpha",)),
          gemm("omitted C", 0, 1, None, lambda d: dict(transB=1), order=[0, 1, ""])]


def matmul(ra, rb, where):
    """where: 'x' for a computed operand, 'w' for an initializer; the batch dimension is 1 (rank 4), the third axis is shared."""
    def sa(d):
        return ((1,) * (ra == 4) + ((d.C,) if ra > 2 else ()) + ((d.M,) if ra > 1 else ()) + (d.K,))

    def sb(d):
        return ((1,) * (rb == 4) + ((d.C,) if rb > 2 else ()) + (d.K,) + ((d.N,) if rb > 1 else ()))

    def out(d):
        s = (1,) if max(ra, rb) == 4 else ()
        s += (d.C,) if max(ra, rb) > 2 else ()
        return s + ((d.M,) if ra > 1 else ()) + ((d.N,) if rb > 1 else ())

    def spec(d, X, W, o):
        o = list(o)
        if max(ra, rb) == 4:
            o = o[1:]
        c = o.pop(0) if max(ra, rb) > 2 else ZERO
        i = o.pop(0) if ra > 1 else None
        j = o.pop(0) if rb > 1 else None
        k = poly(fresh("s"))
        ia = {1: (k,), 2: (i, k), 3: (c, i, k), 4: (ZERO, c, i, k)}[ra]
        ib = {1: (k,), 2: (k, j), 3: (c, k, j), 4: (ZERO, c, k, j)}[rb]
        return Sum([(k, d.K)], X[0](*ia) * X[1](*ib))
    dims = dict(K=1) | (dict(M=1) if ra > 1 else {}) | (dict(N=1) if rb > 1 else {}) | (dict(C=1) if max(ra, rb) > 2 else {})
    xs = lambda d: [sa(d), sb(d)]
    if "w" not in where:
        return node(f"{ra}D x {rb}D", "MatMul", dims, xs, out, spec, may_refuse=(ra > 2) != (rb > 2))
    # an initializer becomes a constant layer: the layer still reads two tensors
    k = where.index("w")

    def build(d, b):
        ins = [("x0", sa(d)), ("x1", sb(d))]
        ins[k] = (*ins[k], b.T("init", *ins[k][1]))
        layer = imported(b, "MatMul", ins, [("y", out(d))])
        if layer.onnx_inputs != ["x0", "x1"]:
            raise Wrong(f"reads {layer.onnx_inputs}")
        return layer
    return Case(f"MatMul {ra}D x {rb}D initializer {k}", ("A17",), dims, build, xs, out, spec, act=False, code=False,
                py_in=lambda d: [three(s) for s in xs(d)], py_variants=("shaped",))


CASES += [matmul(a, b, "xx") for a in (1, 2, 3, 4) for b in (1, 2, 3, 4)] + [matmul(2, 2, "xw"), matmul(2, 2, "wx"), matmul(3, 2, "xw"),
                                                                            matmul(1, 2, "xw"), matmul(2, 1, "wx"), matmul(4, 4, "xw")]


# -- normalisation -----------------------------------------------------------------------------


def batch_norm(name, attrs, reals=("eps",), eps=None):
    def spec(d, X, W, o):
        v = lambda n: W(n, d.C)(o[1])
        return v("scale") * rdiv(X[0](*o) - v("mean"), app("sqrt", v("var") + (d.eps if eps is None else eps))) + v("b")
    return node(name, "BatchNormalization", dict(C=1, H=1, W=1), lambda d: [(1, d.C, d.H, d.W)], lambda d: (1, d.C, d.H, d.W), spec,
                params=lambda d, b: [(n, (d.C,), b.T(n, d.C)) for n in ("scale", "b", "mean", "var")], attrs=attrs, reals=reals,
                values=dict(var=lambda rnd: rnd.choice([1, 2.25, 4, 9])))


CASES += [batch_norm("epsilon", lambda d: dict(epsilon=d.eps)), batch_norm("default epsilon", lambda d: {}, (), Fraction(1, 100000)),
          batch_norm("momentum", lambda d: dict(epsilon=d.eps, momentum=0.9))]


# -- movement ----------------------------------------------------------------------------------


def transpose(r, perm, tag=""):
    dims, shape = ranks(r)
    p = perm if perm is not None else list(reversed(range(r)))

    def spec(d, X, W, o):
        x = [None] * r
        for k, a in enumerate(p):
            x[a] = o[k]
        return X[0](*x)
    return node(f"perm {perm} rank {r}", "Transpose", dims, lambda d: [shape(d)], lambda d: tuple(shape(d)[a] for a in p), spec,
                attrs=lambda d: {} if perm is None else dict(perm=list(perm)), may_refuse=r == 4 and p[0] != 0)


CASES += [transpose(r, p) for r in (1, 2, 3) for p in itertools.permutations(range(r))]
CASES += [transpose(4, p) for p in itertools.permutations(range(4))] + [transpose(r, None) for r in (1, 2, 3, 4)]


def tile(r):
    dims, shape = ranks(r)
    rs = [f"R{n}" for n in dims]

    def reps(d):
        return [1] * (r - len(rs)) + [d[x] for x in rs]

    class Known(list):
        """The repeats: an array of known integers."""

    def params(d, b):
        v = reps(d)
        return [("r", (r,), listed(v, b))]
    return node(f"rank {r}", "Tile", dims | {x: 1 for x in rs}, lambda d: [shape(d)],
                lambda d: tuple(poly_or(a, k) for a, k in zip(shape(d), reps(d))),
                lambda d, X, W, o: X[0](*[fmod(i, poly(n)) for i, n in zip(o, shape(d))]), params=params,
                dmax={x: 3 for x in rs})


def poly_or(a, k):
    return a * k


def listed(values, b):
    """An integer array of known values: a list of sizes when they are symbolic."""
    if b.symbolic:
        return Values(values)
    return np.array([int(v) for v in values], dtype=np.int64)


class Values(list):
    """A symbolic integer vector given by its elements."""

    @property
    def shape(self):
        return (len(self),)

    @property
    def size(self):
        return len(self)

    @property
    def ndim(self):
        return 1

    def copy(self):
        return Values(self)

    def tolist(self):
        return list(self)

    def astype(self, *_a, **_k):
        return Values(self)


CASES += [tile(r) for r in (1, 2, 3, 4)]


def pad(name, mode, attrs, params, r=4, axes=None, reals=("v",), order=None, value=None, lows=1):
    """axes: the padded axes (default: all of them), with two amounts each."""
    dims, shape = ranks(r)
    dims = {k: lows for k in dims}
    ax = list(range(r)) if axes is None else [a % r for a in axes]
    amounts = {a: (f"P{a}", f"Q{a}") for a in ax if not (r == 4 and a == 0)}

    def both(d, a):
        return tuple(d[n] for n in amounts[a]) if a in amounts else (0, 0)

    def out(d):
        return tuple(n + both(d, a)[0] + both(d, a)[1] if a in amounts else n for a, n in enumerate(shape(d)))

    def spec(d, X, W, o):
        idx, inside = [], []
        for a, (x, n) in enumerate(zip(o, shape(d))):
            if a not in amounts:
                idx.append(x)
                continue
            n = poly(n)
            q = x - both(d, a)[0]
            if mode == "constant":
                inside += [c_ge(q), c_gt(n - q)]
            elif mode == "edge":
                q = rmax(ZERO, rmin(q, n - 1))
            elif mode == "wrap":
                q = fmod(q, n)
            else:
                m = n - 1
                t = fmod(-q, 2 * m)
                q = ite(c_gt(t - m), 2 * m - t, t)
            idx.append(q)
        v = X[0](*idx)
        return ite(c_and(*inside), v, d.v if value is None else poly(value)) if mode == "constant" else v

    def ps(d, b):
        out = [("p", (2 * len(ax),), listed([both(d, a)[0] for a in ax] + [both(d, a)[1] for a in ax], b))]
        if "value" in params:
            out.append(("v", (), scalar(d.v, b)))
        if "axes" in params:
            out.append(("ax", (len(axes),), np.array(axes, dtype=np.int64)))
        return out
    return node(f"{name} rank {r}", "Pad", dims | {n: 0 for p in amounts.values() for n in p}, lambda d: [shape(d)], out, spec,
                params=ps, attrs=attrs, reals=reals, order=order)


def scalar(v, b):
    """A 0-dimensional array."""
    if not b.symbolic:
        return np.array(v, dtype=np.float32)
    return pyfront.SymTensor([], lambda: pyfront.dim(v))


CASES += [
    pad("constant", "constant", lambda d: dict(mode="constant"), ["value"]),
    pad("default mode", "constant", lambda d: {}, ["value"]),
    pad("constant default value", "constant", lambda d: dict(mode="constant"), [], reals=(), value=0),
    pad("constant omitted value", "constant", lambda d: dict(mode="constant"), [], reals=(), value=0, order=[0, 1, ""]),
    pad("constant on some axes", "constant", lambda d: dict(mode="constant"), ["value", "axes"], axes=[1, 3]),
    pad("constant on negative axes", "constant", lambda d: dict(mode="constant"), ["value", "axes"], axes=[-1, -3]),
    pad("constant omitted value on some axes", "constant", lambda d: dict(mode="constant"), ["axes"], axes=[2, 3], reals=(), value=0,
        order=[0, 1, "", 2]),
    pad("constant", "constant", lambda d: dict(mode="constant"), ["value"], r=2),
    pad("constant on one axis", "constant", lambda d: dict(mode="constant"), ["value", "axes"], r=3, axes=[1]),
    pad("edge", "edge", lambda d: dict(mode="edge"), [], reals=()),
    pad("edge with a value", "edge", lambda d: dict(mode="edge"), ["value"]),
    pad("wrap", "wrap", lambda d: dict(mode="wrap"), [], reals=()),
    pad("reflect", "reflect", lambda d: dict(mode="reflect"), [], reals=(), lows=2),
]


# -- reductions --------------------------------------------------------------------------------

OPS = ("Sum", "Max", "Min", "Mean", "Prod")
SINCE = dict(Sum=13)            # version from which the axes are an input


def reduce(op, r, axes, keep=None, noop=None, opset=18, tag=""):
    dims, shape = ranks(r)
    red = {a % r for a in axes} if axes else set() if noop else set(range(r))
    kept = keep != 0
    attr = opset < SINCE.get(op, 18)

    def out(d):
        return tuple(1 if a in red else n for a, n in enumerate(shape(d)) if kept or a not in red)

    def attrs(d):
        a = {} if keep is None else dict(keepdims=keep)
        if noop is not None:
            a["noop_with_empty_axes"] = noop
        if attr and axes is not None:
            a["axes"] = list(axes)
        return a

    def spec(d, X, W, o):
        o = list(o)
        bs, idx, n = [], [], ONE
        for a, s in enumerate(shape(d)):
            if a in red:
                if kept:
                    o.pop(0)
                k = poly(fresh("s"))
                bs.append((k, poly(s)))
                idx.append(k)
                n = n * poly(s)
            else:
                idx.append(o.pop(0))
        x = X[0](*idx)
        if not bs:
            return x
        v = fold({"Sum": "sum", "Mean": "sum", "Prod": "prod", "Max": "max", "Min": "min"}[op], bs, TRUE, x)
        return rdiv(v, n) if op == "Mean" else v
    name = f"axes {axes} rank {r}" + ("" if keep is None else f" keepdims {keep}") + ("" if noop is None else f" noop {noop}") + f" opset {opset}"
    return node(name, f"Reduce{op}", dims, lambda d: [shape(d)], out, spec, attrs=attrs, opset=opset,
                params=lambda d, b: [] if attr or axes is None else [("axes", (len(axes),), np.array(axes, dtype=np.int64))])


for op in OPS:
    CASES += [reduce(op, 4, (a,)) for a in (1, 2, 3, -1, -2, -3)]
    CASES += [reduce(op, 4, (2, 3)), reduce(op, 4, (-1, 1), 1), reduce(op, 4, None), reduce(op, 4, None, 0), reduce(op, 4, None, 1, 1),
              reduce(op, 4, None, 1, 0), reduce(op, 4, (2,), 0), reduce(op, 4, (1, -1), 0), reduce(op, 3, (0,)), reduce(op, 3, (-1, 0), 0),
              reduce(op, 2, (1,)), reduce(op, 2, (0,), 0), reduce(op, 1, (0,)), reduce(op, 2, None),
              reduce(op, 4, (2,), opset=11), reduce(op, 4, (-1, 1), 0, opset=11), reduce(op, 4, None, opset=11), reduce(op, 2, (0,), opset=11)]


# -- broadcast operators -----------------------------------------------------------------------

BIN = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "Div": rdiv,
       "Max": lambda a, b: ite(c_ge(a - b), a, b), "Min": lambda a, b: ite(c_ge(b - a), a, b), "Mean": lambda a, b: a + b}


def nonzero(rnd):
    return rnd.choice([-4, -3, -2, -1, 1, 2, 3, 4])


def broadcast(op, pats, init=()):
    """pats: the shapes of the operands, over A B C and 1; init: the operands that are initializers."""
    dims = {x: 1 for p in pats for x in p if x != "1"}

    def shape(d, k):
        return tuple(1 if x == "1" else d[x] for x in pats[k])

    r = max(map(len, pats))
    full = ["1" * (r - len(p)) + p for p in pats]

    def out(d):
        return tuple(next((d[p[a]] for p in full if p[a] != "1"), 1) for a in range(r))

    def spec(d, X, W, o):
        v = None
        xs = iter(X)
        for k, p in enumerate(pats):
            idx = tuple(ZERO if x == "1" else i for x, i in zip(p, o[r - len(p):]))
            e = next(xs)(*idx) if k in reading else W("init", *shape(d, k))(*idx)
            v = e if v is None else BIN[op](v, e)
        return v * Fraction(1, len(pats)) if op == "Mean" else v

    reading = op_reads(op, pats, init)

    def build(d, b):
        ins = [(f"x{k}", shape(d, k), b.T("init", *shape(d, k))) if k in init else (f"x{k}", shape(d, k)) for k in range(len(pats))]
        layer = imported(b, op, ins, [("y", out(d))])
        layer_reads = layer.onnx_inputs
        if layer_reads != [f"x{k}" for k in reading]:
            raise Wrong(f"{op} reads {layer_reads}")
        return layer
    div = {f"in{k}": nonzero for k in range(len(pats))} | {"init": nonzero}
    return Case(f"{op} " + " ".join(f"{'initializer ' if k in init else ''}({','.join(p)})" for k, p in enumerate(pats)), ("A17",), dims, build,
                lambda d: [shape(d, k) for k in reading], out, spec, act=False, code=False,
                py_in=lambda d: [three(shape(d, k)) for k in reading], py_variants=("shaped",), values=div if op == "Div" else None)


def op_reads(op, pats, init):
    """The operands that are read as tensors (the initializers among them are constant layers), the other ones are held by the layer."""
    try:
        sh = [tuple(1 if x == "1" else 2 for x in p) for p in pats]
        ins = [(f"x{k}", s, np.full(s, 3.0, np.float32)) if k in init else (f"x{k}", s) for k, s in enumerate(sh)]
        y = imported(NS(symbolic=False, idx=5), op, ins, [("y", np.broadcast_shapes(*sh))])
        held = [k for k in init if f"x{k}" not in y.onnx_inputs]
    except Exception:  # noqa: BLE001
        held = []
    return [k for k in range(len(pats)) if k not in held]


for op in BIN:
    CASES += [broadcast(op, p) for p in (["1ABC", "1ABC"], ["1ABC", "1A11"], ["11BC", "1A1C"], ["ABC", "ABC"], ["AB", "AB"], ["A", "A"],
                                         ["1ABC", "C"], ["BC", "1ABC"], ["1ABC", "ABC"], ["AB", "B"])]
    CASES += [broadcast(op, p, (k,)) for p, k in ((["1ABC", "1ABC"], 1), (["1ABC", "1ABC"], 0), (["1ABC", "1A11"], 1), (["1ABC", "C"], 1),
                                                 (["1ABC", ""], 1), (["", "1ABC"], 0), (["ABC", "A11"], 1), (["B", "AB"], 0),
                                                 (["1A11", "1ABC"], 1), (["A", "A"], 1), (["1ABC", "1111"], 1))]
    if op in ("Max", "Min", "Mean"):
        CASES += [broadcast(op, ["1ABC"]), broadcast(op, ["1ABC", "1ABC", "1ABC"]), broadcast(op, ["1ABC", "1A11", "C"]),
                  broadcast(op, ["1ABC", "1A11", "1ABC"], (1,))]
