"""Contracts of the PyTorch importer (A21).

Each Case runs the real visitor on the nodes of one exported program (an operation, or a group that is imported as one layer) whose
sizes, settings and parameters are symbolic; the reference inference of the resulting layer has to be the operation's definition.
On symbolic sizes a node is an object with the fields of torch.fx.Node and a parameter is a symbolic tensor; on concrete sizes
(sampled runs) parameters are real torch tensors.
"""
from types import SimpleNamespace as NS

import numpy as np
import pyfront
import torch
from acetone_nnet.importers.PYTORCH_importer import parse_pytorch
from case import Case
from core import ONE, ZERO, Sum, c_ge, c_gt, fresh, ite, poly, rmax, rmin
from pyfront import rdiv

from layers import conv as conv_cases
from layers import elementwise, reduction

def view(t, *shape):
    return t.reshape(*[list(x) if isinstance(x, tuple) else x for x in shape])


def unsqueeze(t, axis):
    shape = list(t.shape)
    shape.insert(axis if axis >= 0 else axis + len(shape) + 1, 1)
    return t.reshape(*shape)


def same(t, *a, **k):
    return t


# what torch calls the tensors that numpy calls arrays
for _n, _f in dict(numpy=same, detach=same, cpu=same, float=same, clone=lambda t, **k: t.copy(), view=view, unsqueeze=unsqueeze, contiguous=same,
                   to=same, add=lambda t, o: t + o, sub=lambda t, o: t - o, mul=lambda t, o: t * o, div=lambda t, o: t / o,
                   sqrt=lambda t: sqrt(t), rsqrt=lambda t: rsqrt(t), dim=lambda t: len(t._shape), numel=lambda t: numel(t.shape),
                   permute=lambda t, *a: t.transpose(*a), pow=lambda t, e: t ** e).items():
    if _n not in vars(pyfront.SymTensor):
        setattr(pyfront.SymTensor, _n, _f)


class Wrong(Exception):
    """The imported network is wired differently from the program."""


def sqrt(x):
    return parse_pytorch.np.sqrt(x)      # pyfront's numpy while it is installed


def rsqrt(x):
    return 1 / sqrt(x)


SHIM = NS(rsqrt=rsqrt, pow=lambda t, e: t ** e, sqrt=sqrt, from_numpy=lambda t: t, as_tensor=lambda t, **k: t, tensor=lambda t, **k: t, Tensor=torch.Tensor, float32=torch.float32,
          channels_last=torch.channels_last, contiguous_format=torch.contiguous_format, fx=torch.fx, nn=torch.nn, export=torch.export,
          add=lambda x, y: x + y, sub=lambda x, y: x - y, mul=lambda x, y: x * y, div=lambda x, y: x / y,
          reshape=lambda t, s: t.reshape(*s), zeros=lambda *s, **k: parse_pytorch.np.zeros(s[0] if isinstance(s[0], (tuple, list)) else s),
          zeros_like=lambda t, **k: 0 * t, ones_like=lambda t, **k: 0 * t + 1)


def numel(shape):
    r = 1
    for s in shape:
        r = r * s
    return r


class Target(str):
    """What a node calls, by the name of the operation."""

    @property
    def __name__(self):
        return str(self)


class Graph:
    """An exported program, node by node."""

    def __init__(self, b):
        self.b, self.nodes, self.params = b, [], {}

    def node(self, op, name, target, args, shape, kwargs=None):
        n = NS(op=op, name=name, target=Target(target) if op == "call_function" else target, args=tuple(args), kwargs=kwargs or {}, users={},
               meta=dict(val=NS(shape=tuple(shape), numel=lambda: numel(shape), dim=lambda: len(shape), ndim=len(shape),
                                size=lambda k=None: tuple(shape) if k is None else shape[k], dtype=torch.float32, is_contiguous=lambda memory_format=None: memory_format is None)))
        for a in n.args:
            for x in a if isinstance(a, list) else [a]:
                if isinstance(x, NS):
                    x.users[name] = n
        n.all_input_nodes = [x for a in n.args for x in (a if isinstance(a, list) else [a]) if isinstance(x, NS)]
        self.nodes.append(n)
        return n

    def x(self, shape):
        k = sum(n.op == "placeholder" for n in self.nodes)
        return self.node("placeholder", f"x{k}", f"x{k}", (), shape)

    def param(self, name, *shape):
        t = self.b.T(name, *shape)
        self.params[f"m.{name}"] = t if self.b.symbolic else torch.from_numpy(np.array(t))
        return self.node("get_attr", f"m_{name}", f"m.{name}", (), shape)

    def call(self, op, args, shape, name=None, **kw):
        k = sum(n.op == "call_function" for n in self.nodes)
        return self.node("call_function", name or f"{op.split('.')[0]}_{k}", op, args, shape, kw)

    def load(self, out, reads=None):
        """The layer of the node, after the importer has seen the whole program."""
        self.node("output", "output", "output", [(out,)], ())
        out.users["output"] = self.nodes[-1]
        v = parse_pytorch.ShapeAwareVisitor()
        module = NS(graph=NS(nodes=self.nodes), state_dict=lambda: self.params)
        kept = parse_pytorch.torch
        try:
            if self.b.symbolic:
                parse_pytorch.torch = SHIM
            v.visit(module)
        finally:
            parse_pytorch.torch = kept
        if v.data_format != "channels_first":
            raise Wrong(f"data format {v.data_format}")
        layer = v.layerdic[out.name][0]
        ins = [n.name for n in self.nodes if n.op == "placeholder"]
        want = ins if reads is None else reads
        got = [q.original_name for q in layer.previous_layer]
        if got != want:
            raise Wrong(f"reads {got} instead of {want}")
        for q in layer.previous_layer:
            if sum(y is layer for y in q.next_layer) != got.count(q.original_name):
                raise Wrong("links in the two directions differ")
        all_idx = [i.idx for i in {id(e[0]): e[0] for e in v.layerdic.values()}.values()]
        if len(set(all_idx)) != len(all_idx):
            raise Wrong(f"identifiers {all_idx}")
        return layer


def case(name, dims, build, ins, out, spec, **kw):
    return Case(f"torch {name}", ("A21",), dims, build, ins, out, spec, act=False, code=False, py_variants=("shaped",), **kw)


def four(s):
    return (1, *s)


# -- linear ------------------------------------------------------------------------------------


def linear(bias, rank, after=None):
    def build(d, b):
        g = Graph(b)
        x = g.x([*[1] * (rank - 1), d.N])
        args = [x, g.param("w", d.M, d.N)] + ([g.param("b", d.M)] if bias is True else [None] if bias == "none" else [])
        y = g.call("linear.default", args, [*[1] * (rank - 1), d.M])
        return g.load(act_node(g, y, after, d, [*[1] * (rank - 1), d.M]) if after else y)

    def spec(d, X, W, o):
        k = poly(fresh("s"))
        y = Sum([(k, d.N)], X[0](k) * W("w", d.M, d.N)(o[0], k), c_ge(ONE))
        y = y + W("b", d.M)(o[0]) if bias is True else y
        return ACTS[after](d, y) if after else y
    return case(f"linear bias {bias} rank {rank}" + (f" {after}" if after else ""), dict(N=1, M=1), build, lambda d: [(d.N,)], lambda d: (d.M,), spec,
                **act_kw(after))


ACTS = {"relu": lambda d, v: rmax(v, ZERO), "clamp": lambda d, v: rmin(rmax(v, d.lo), d.hi)}


def act_kw(after):
    return dict(reals=("lo", "hi"), choices=dict(lo=[-2.5, -1.0, -0.25, 0.0, 0.5], hi=[-0.75, -0.25, 0.0, 0.5, 1.25]), preds=[lambda d: c_ge(d.hi - d.lo)]) if after and "clamp" in after else {}


def act_node(g, y, after, d, shape):
    return g.call("relu.default", [y], shape) if after == "relu" else g.call("clamp.default", [y, d.lo, d.hi], shape)


_case = case


def case(name, dims, build, ins, out, spec, preds=(), pre=None, **kw):  # noqa: F811
    p = pre or (lambda d: [])
    return _case(name, dims, build, ins, out, spec, pre=lambda d: [*p(d), *[q(d) for q in preds]], **kw)


# -- convolution -------------------------------------------------------------------------------

NAMES = {"S": 1, "D": 1, "PT": 0, "PL": 0}


def full(d):
    r = type(d)(d)
    for k, v in NAMES.items():
        if k not in r:
            r[k] = v
    r["PB"], r["PR"] = r["PT"], r["PL"]
    return r


def conv(name, given, bias=True, bn=False, after=None):
    """given: how many of the arguments stride, padding, dilation, groups are written in the program."""
    left = [n for n, need in (("S", 1), ("PT", 2), ("PL", 2), ("D", 3)) if given < need]
    dims = {k: v for k, v in conv_cases.DIMS.items() if k not in left and k not in ("PB", "PR")}

    def build(d, b):
        d = full(d)
        g = Graph(b)
        x = g.x(four((d.C, d.H, d.W)))
        sh = four((d.F, d.OH, d.OW))
        args = [x, g.param("w", d.F, d.C, d.KH, d.KW)]
        if bias is True:
            args.append(g.param("b", d.F))
        elif bias == "none" or given:
            args.append(None)
        args += [[d.S, d.S], [d.PT, d.PL], [d.D, d.D], 1][:given]
        y = g.call("conv2d.default", args, sh)
        if bn:
            ps = [g.param(f"bn_{n}", d.F) for n in ("scale", "b", "mean", "var")]
            y = g.call("batch_norm.default", [y, *ps, False, 0.1, d.eps, True], sh)
        if after:
            y = act_node(g, y, after, d, sh)
        return g.load(y)

    def spec(d, X, W, o):
        e = full(d)
        f, i, j = o
        c, h, w = [poly(fresh("s")) for _ in range(3)]
        ii, jj = i * e.S + h * e.D - e.PT, j * e.S + w * e.D - e.PL
        from core import c_and
        inside = c_and(c_ge(ii), c_gt(e.H - ii), c_ge(jj), c_gt(e.W - jj))
        y = Sum([(c, e.C), (h, e.KH), (w, e.KW)], X[0](c, ii, jj) * W("w", e.F, e.C, e.KH, e.KW)(f, c, h, w), inside)
        y = y + W("b", e.F)(f) if bias is True else y
        if bn:
            v = lambda n: W(f"bn_{n}", e.F)(f)
            y = v("scale") * rdiv(y - v("mean"), elementwise.sqrt(v("var") + e.eps)) + v("b")
        return ACTS[after](d, y) if after else y
    kw = act_kw(after)
    if bn:
        kw["reals"] = (*kw.get("reals", ()), "eps")
        kw["values"] = dict(bn_var=lambda rnd: rnd.choice([0, 1, 2.25, 4, 9]))
    return case(f"conv2d {name}", dims, build, lambda d: [(d.C, d.H, d.W)], lambda d: (d.F, d.OH, d.OW), spec,
                pre=lambda d: conv_cases.pre(full(d)),
                defs=lambda d: dict(OH=conv_cases.out_h(full(d)), OW=conv_cases.out_w(full(d))), **kw)


# -- pooling -----------------------------------------------------------------------------------


def pool(name, stride, padded, after=None):
    """stride: "given", "empty" (an empty list) or "left out"."""
    dims = {k: v for k, v in reduction.PDIMS.items() if k not in ("PB", "PR") and (padded or k not in ("PT", "PL"))
            and (stride == "given" or k != "S")}

    def whole(d):
        r = full(d)
        if stride != "given":
            r["S"] = r["K"]
        return r

    def build(d, b):
        d = whole(d)
        g = Graph(b)
        x = g.x(four((d.C, d.H, d.W)))
        args = [x, [d.K, d.K]] + ([] if stride == "left out" else [[d.S, d.S] if stride == "given" else []]) + ([[d.PT, d.PL]] if padded else [])
        sh = four((d.C, d.OH, d.OW))
        y = g.call("max_pool2d.default", args, sh)
        return g.load(act_node(g, y, after, d, sh) if after else y)

    def spec(d, X, W, o):
        from core import c_and, fold
        e = whole(d)
        c, i, j = o
        h, w = poly(fresh("s")), poly(fresh("s"))
        ii, jj = i * e.S + h - e.PT, j * e.S + w - e.PL
        v = fold("max", [(h, e.K), (w, e.K)], c_and(c_ge(ii), c_gt(e.H - ii), c_ge(jj), c_gt(e.W - jj)), X[0](c, ii, jj))
        return ACTS[after](d, v) if after else v
    return case(f"max_pool2d {name}", dims, build, lambda d: [(d.C, d.H, d.W)], lambda d: (d.C, d.OH, d.OW), spec,
                pre=lambda d: reduction.pool_pre(whole(d)), defs=lambda d: reduction.pool_defs(whole(d)),
                dmax=dict(H=6, W=6, K=4, S=3, PT=3, PL=3), **act_kw(after))


def mean():
    def build(d, b):
        g = Graph(b)
        return g.load(g.call("adaptive_avg_pool2d.default", [g.x(four((d.C, d.H, d.H))), [1, 1]], four((d.C, 1, 1))))

    def spec(d, X, W, o):
        h, w = poly(fresh("s")), poly(fresh("s"))
        return rdiv(Sum([(h, d.H), (w, d.H)], X[0](o[0], h, w), c_ge(ONE)), d.H * d.H)
    return case("adaptive_avg_pool2d", dict(C=1, H=1), build, lambda d: [(d.C, d.H, d.H)], lambda d: (d.C, 1, 1), spec)


# -- several inputs ----------------------------------------------------------------------------


def add(twice=False, broadcast=False, inplace=False, after=None):
    def build(d, b):
        g = Graph(b)
        sh = four((d.C, d.H, d.W))
        x = g.x(sh)
        y = x if twice else g.x(four((d.C, 1, 1)) if broadcast else sh)
        z = g.call("add_.Tensor" if inplace else "add.Tensor", [x, y], sh)
        return g.load(act_node(g, z, after, d, sh) if after else z, reads=["x0", "x0"] if twice else None)

    def spec(d, X, W, o):
        v = X[0](*o) + (X[1](o[0], ZERO, ZERO) if broadcast else X[1](*o))
        return ACTS[after](d, v) if after else v
    n = "add" + " to itself" * twice + " broadcast" * broadcast + " in place" * inplace + (f" {after}" if after else "")
    return case(n, dict(C=1, H=1, W=1), build,
                lambda d: [(d.C, d.H, d.W)] + ([(d.C, d.H, d.W)] if twice else [(d.C, 1, 1) if broadcast else (d.C, d.H, d.W)]),
                lambda d: (d.C, d.H, d.W), spec, **act_kw(after))


AX = {1: "C", 2: "H", 3: "W"}


def cat(axis, n):
    a0 = axis % 4

    def shape(d, k):
        return tuple(d[f"N{k}"] if a == a0 else d[x] for a, x in AX.items())

    def out(d):
        return tuple(d["N"] if a == a0 else d[x] for a, x in AX.items())

    def build(d, b):
        g = Graph(b)
        xs = [g.x(four(shape(d, k))) for k in range(n)]
        return g.load(g.call("cat.default", [xs, axis], four(out(d))))

    def spec(d, X, W, o):
        start, parts = ZERO, []
        for k in range(n):
            idx = list(o)
            idx[a0 - 1] = o[a0 - 1] - start
            start = start + d[f"N{k}"]
            parts.append((start, X[k](*idx)))
        v = parts[-1][1]
        for end, e in reversed(parts[:-1]):
            v = ite(c_gt(end - o[a0 - 1]), e, v)
        return v
    dims = {x: 1 for a, x in AX.items() if a != a0} | {f"N{k}": 1 for k in range(n)} | {"N": 1}
    return case(f"cat {n} axis {axis}", dims, build, lambda d: [shape(d, k) for k in range(n)], out, spec,
                defs=lambda d: {"N": sum((d[f"N{k}"] for k in range(n)), ZERO)})


# -- activations that stay layers of their own ---------------------------------------------------


def activation(after, why):
    def build(d, b):
        g = Graph(b)
        sh = four((d.C, d.H, d.W))
        x = g.x(sh)
        if why == "input":
            return g.load(act_node(g, x, after, d, sh))
        y = g.call("add.Tensor", [x, g.x(sh)], sh)
        z = g.call("dropout.default", [y, 0.5, False], sh) if why == "shared, behind a dropout" else y
        if why == "second":
            z = g.call("relu.default", [y], sh)
            lay = g.load(act_node(g, z, after, d, sh), reads=["add_0"])
            if not isinstance(lay.previous_layer[0].activation_function, parse_pytorch.ReLu):
                raise Wrong("the first activation is lost")
            return lay
        r = act_node(g, z, after, d, sh)
        g.call("cat.default", [[r, y], 1], four((d.C + d.C, d.H, d.W)))
        # the sum itself has to keep its value for its other reader
        lay = g.load_part(r)
        if not isinstance(lay.previous_layer[0].activation_function, parse_pytorch.Linear):
            raise Wrong("the other reader of the operand sees the activation")
        return lay

    def spec(d, X, W, o):
        return ACTS[after](d, X[0](*o))
    kw = act_kw(after)
    return case(f"{after} of its own: {why}", dict(C=1, H=1, W=1), build, lambda d: [(d.C, d.H, d.W)], lambda d: (d.C, d.H, d.W), spec, **kw)


def load_part(self, r):
    last = self.nodes[-1]
    self.node("output", "output", "output", [(last,)], ())
    last.users["output"] = self.nodes[-1]
    v = parse_pytorch.ShapeAwareVisitor()
    kept = parse_pytorch.torch
    try:
        if self.b.symbolic:
            parse_pytorch.torch = SHIM
        v.visit(NS(graph=NS(nodes=self.nodes), state_dict=lambda: self.params))
    finally:
        parse_pytorch.torch = kept
    lay = v.layerdic[r.name][0]
    if [q.original_name for q in lay.previous_layer] != ["add_0"]:
        raise Wrong("reads another layer")
    return lay


Graph.load_part = load_part

CASES = [
    *[linear(b, r) for b in (True, "none", False) for r in (1, 2)], linear(True, 2, "relu"), linear(True, 2, "clamp"),
    *[conv(f"arguments {k}", k) for k in range(5)], conv("no bias", 0, False), conv("bias None", 2, "none"),
    conv("batch_norm", 3, True, True), conv("batch_norm no bias", 1, "none", True), conv("batch_norm relu", 1, True, True, "relu"),
    conv("relu", 2, True, False, "relu"), conv("clamp", 1, True, False, "clamp"),
    pool("stride and padding", "given", True), pool("stride", "given", False), pool("stride left out", "left out", False),
    pool("stride empty", "empty", True), pool("relu", "given", False, "relu"), mean(),
    add(), add(twice=True), add(broadcast=True), add(inplace=True), add(after="relu"), add(after="clamp"),
    *[cat(a, n) for a in (1, 2, 3, -1, -2, -3) for n in (2, 3)],
    *[activation(a, w) for a in ("relu", "clamp") for w in ("input", "shared", "shared, behind a dropout")],
    activation("clamp", "second"),
]
