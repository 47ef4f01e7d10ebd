"""A17: ONNX operators are imported with the meaning ONNX gives them.

Node contracts (proved): the real importer function of each operator builds the layer from a node with symbolic sizes,
attribute values and initializers, and the inference of that layer is the ONNX definition of the operator.
Attribute contracts (proved): where the layer's own property gives the meaning of an attribute (padding "SAME",
activation functions, resizing), the imported layer is the layer built with the node's attributes.
Models (bounded): enumerated models through load_onnx and the generator, against onnxruntime.
"""
import random

import numpy as np
import pyfront
from acetone_nnet.generator import activation_functions as af
from acetone_nnet.generator import layers as L
from case import D, Case
from casetasks import Covered, case_tasks, relevant
from check import Task
from core import Facts, Unsupported, c_eq, fresh, poly, proves
from layers import onnx_models, onnx_ops
from layers.onnx_ops import imported
from prove import Builder, equal

ASSUMPTIONS = ["the node has the attributes and inputs that onnx.checker accepts, and shapes are inferred for every tensor",
               "symbolic nodes are objects with the fields of the protobuf messages; onnx.helper.get_attribute_value and onnx.numpy_helper.to_array "
               "return the value they hold",
               "the batch dimension of tensors of rank 4 is 1",
               "exact real arithmetic; exp and sqrt are uninterpreted functions"]
BOUNDED = ["whole models: enumerated attribute values, shapes and graphs, compared with onnxruntime on one input each"]

#: operators whose contracts are checked on a sample of their cases in the quick tier
QUICK = {"Conv": 6, "MaxPool": 4, "AveragePool": 5, "Gemm": 9, "Transpose": 16, "MatMul": 12, "Softmax": 30, "Reduce": 8, "Add": 12, "Sub": 12,
         "Mul": 12, "Div": 12, "Max": 12, "Min": 12, "Mean": 12, "Gather": 24, "Pad": 13, "Concat": 12}


# -- attribute contracts -----------------------------------------------------------------------


def same(a, b, facts, where="layer"):
    """The differences between two values of the same attribute."""
    if a is b:
        return []
    sy = (pyfront.Sym, int, float)
    if isinstance(a, pyfront.Sym) or isinstance(b, pyfront.Sym):
        if not (isinstance(a, sy) and isinstance(b, sy)):
            return [f"{where}: {a!r} instead of {b!r}"]
        x, y = poly(pyfront.dim(a)), poly(pyfront.dim(b))
        return [] if proves(c_eq(x - y), facts) else [f"{where}: {x} instead of {y}"]
    if isinstance(a, pyfront.SymTensor) or isinstance(b, pyfront.SymTensor):
        try:
            a, b = pyfront.to_tensor(a), pyfront.to_tensor(b)
        except Exception:  # noqa: BLE001
            return [f"{where}: {a!r} instead of {b!r}"]
        if len(a._shape) != len(b._shape) or not all(proves(c_eq(poly(x) - poly(y)), facts) for x, y in zip(a._shape, b._shape)):
            return [f"{where}: shape {a._shape} instead of {b._shape}"]
        os_ = [poly(fresh("o")) for _ in a._shape]
        f = facts
        for o, n in zip(os_, a._shape):
            f = f.bind(o, n)
        ok, x, y = equal(a.at(*os_), b.at(*os_), f)
        return [] if ok else [f"{where}: {x} instead of {y}"]
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return [f"{where}: {a} instead of {b}"]
        return [m for k, (x, y) in enumerate(zip(a, b)) for m in same(x, y, facts, f"{where}[{k}]")]
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return [f"{where}: keys {sorted(map(str, a))} instead of {sorted(map(str, b))}"]
        return [m for k in a for m in same(a[k], b[k], facts, f"{where}[{k!r}]")]
    if hasattr(a, "__func__") and hasattr(b, "__func__"):
        return [] if a.__func__ is b.__func__ else [f"{where}: {a} instead of {b}"]
    if getattr(a, "__qualname__", 1) == getattr(b, "__qualname__", 2) and not isinstance(a, type):
        return [] if a.__name__ == b.__name__ else [f"{where}: {a.__name__} instead of {b.__name__}"]
    if type(a).__module__.startswith("acetone_nnet") and hasattr(a, "__dict__"):
        if type(a) is not type(b):
            return [f"{where}: {type(a).__name__} instead of {type(b).__name__}"]
        return same(vars(a), vars(b), facts, where)
    try:
        return [] if bool(a == b) else [f"{where}: {a!r} instead of {b!r}"]
    except Exception:  # noqa: BLE001
        return [f"{where}: {a!r} instead of {b!r}"]


def attempt(build, d, b):
    try:
        return build(d, b)
    except (Unsupported, pyfront.PathEnd, RecursionError):
        raise
    except Exception as e:  # noqa: BLE001
        return e


def describe(v):
    return f"{type(v).__name__}: {v}" if isinstance(v, Exception) else f"a {type(v).__name__} layer"


def equivalent(name, dims, imp, direct, reals=(), pre=lambda d: []):
    """The imported layer is the layer built directly: imp(d, b) and direct(d, b) under the size bounds."""
    case = Case(name, ("A17",), dims, None, lambda d: [], lambda d: (), None, reals=reals, pre=pre, act=False)

    def fn():
        pyfront.install()
        try:
            d = case.symbols()
            dd = D({k: pyfront.undim(v) for k, v in d.items()})
            obs, n = [], 0
            with Covered() as c:
                bases = {}
                ins = []

                def run():
                    b = Builder(case, bases, 5)
                    x, y = attempt(imp, dd, b), attempt(direct, dd, b)
                    if not isinstance(x, Exception):
                        ins.append(x.onnx_inputs)
                        del x.onnx_inputs
                    return x, y
                for facts, val, exc, ctx in pyfront.explore(run, case.facts(d)):
                    pyfront.CTX = ctx
                    n += 1
                    if exc is not None:
                        obs.append(("accept", f"{name}: the node is imported", False, f"{type(exc).__name__}: {exc}"))
                        continue
                    if any(isinstance(v, Exception) for v in val):
                        ok = all(isinstance(v, ValueError) for v in val)
                        obs.append(("accept", f"{name}: refused exactly when the layer is refused", ok, "" if ok else
                                    f"node: {describe(val[0])}; layer: {describe(val[1])}"))
                        continue
                    diff = same(val[0], val[1], facts)
                    obs.append(("post", f"{name}: the imported layer is the layer with the node's attributes", not diff, "; ".join(diff)[:600]))
                    obs.append(("post", f"{name}: reads the node's input", ins[-1] == ["x0"], str(ins[-1])))
            return dict(obligations=obs, paths=n, functions=sorted(f for f in c.names if relevant(f)))
        finally:
            pyfront.uninstall()

    def search():
        pyfront.uninstall()
        rnd = random.Random(1)
        import conc
        for t in range(20):
            v = case.draw(rnd)
            if v is None:
                continue
            b = conc.ConcBuilder(case, 5, rnd, {})
            try:
                x, y = attempt(imp, D(v), b), attempt(direct, D(v), b)
                if isinstance(x, ValueError) and isinstance(y, ValueError):
                    continue
                if isinstance(x, Exception) or isinstance(y, Exception):
                    diff = [f"node: {describe(x)}; layer: {describe(y)}"]
                else:
                    read = x.onnx_inputs
                    del x.onnx_inputs
                    diff = same(x, y, Facts()) + ([] if read == ["x0"] else [f"reads {read}"])
            except Exception as e:  # noqa: BLE001
                diff = [f"{type(e).__name__}: {e}"]
            if diff:
                return dict(obligations=[], found=dict(status="mismatch", detail="; ".join(diff)[:600], node=name, sizes=v))
        return dict(obligations=[], found=None)
    return Task(f"attributes/{name}", fn, 200, search)


def attribute_tasks():
    out = []
    cd = dict(C=1, H=1, W=1, F=1, KH=1, KW=1, S=1, D=1, OH=1, OW=1)
    for auto in ("SAME_UPPER", "SAME_LOWER", "VALID"):
        def imp(d, b, auto=auto):
            return imported(b, "Conv", [("x0", (1, d.C, d.H, d.W)), ("w", (d.F, d.C, d.KH, d.KW), b.T("w", d.F, d.C, d.KH, d.KW)),
                                        ("b", (d.F,), b.T("b", d.F))], [("y", (1, d.F, d.OH, d.OW))],
                            dict(auto_pad=auto, strides=[d.S, d.S], dilations=[d.D, d.D], kernel_shape=[d.KH, d.KW], group=1))

        def direct(d, b, auto=auto):
            return L.Conv2D(conv_algorithm="specs", original_name="node", idx=b.idx, size=d.F * d.OH * d.OW, padding=auto, strides=d.S,
                            kernel_h=d.KH, kernel_w=d.KW, dilation_rate=d.D, nb_filters=d.F, input_shape=[1, d.C, d.H, d.W],
                            output_shape=[1, d.F, d.OH, d.OW], weights=b.T("w", d.F, d.C, d.KH, d.KW), biases=b.T("b", d.F),
                            activation_function=af.Linear())
        out.append(equivalent(f"Conv {auto}", cd, imp, direct))
        for op, cls in (("MaxPool", L.MaxPooling2D), ("AveragePool", L.AveragePooling2D)):
            def imp(d, b, auto=auto, op=op):
                return imported(b, op, [("x0", (1, d.C, d.H, d.W))], [("y", (1, d.C, d.OH, d.OW))],
                                dict(auto_pad=auto, strides=[d.S, d.S], kernel_shape=[d.K, d.K]))

            def direct(d, b, auto=auto, cls=cls):
                return cls(original_name="node", idx=b.idx, size=d.C * d.OH * d.OW, padding=auto, strides=d.S, pool_size=d.K,
                           input_shape=[1, d.C, d.H, d.W], output_shape=[1, d.C, d.OH, d.OW], activation_function=af.Linear())
            out.append(equivalent(f"{op} {auto}", dict(C=1, H=1, W=1, K=1, S=1, OH=1, OW=1), imp, direct))
    acts = [("Relu", {}, (), lambda d: af.ReLu()), ("Tanh", {}, (), lambda d: af.TanH()), ("Sigmoid", {}, (), lambda d: af.Sigmoid()),
            ("Exp", {}, (), lambda d: af.Exponential()), ("Log", {}, (), lambda d: af.Logarithm()),
            ("LeakyRelu", {}, (), lambda d: af.LeakyReLu(0.01)), ("LeakyRelu", dict(alpha="alpha"), ("alpha",), lambda d: af.LeakyReLu(d.alpha)),
            ("Clip", {}, (), lambda d: af.Clip(np.inf, -np.inf)), ("Clip", dict(min="lo"), ("lo",), lambda d: af.Clip(np.inf, d.lo)),
            ("Clip", dict(max="hi"), ("hi",), lambda d: af.Clip(d.hi, -np.inf)),
            ("Clip", dict(min="lo", max="hi"), ("lo", "hi"), lambda d: af.Clip(d.hi, d.lo))]
    for op, attrs, reals, fun in acts:
        for r in (1, 2, 3, 4):
            dims, shape = onnx_ops.ranks(r)
            if r != 4 and (op == "Clip" or attrs):
                continue

            def imp(d, b, op=op, attrs=attrs, shape=shape):
                return imported(b, op, [("x0", shape(d))], [("y", shape(d))], {k: d[v] for k, v in attrs.items()}, 6 if op == "Clip" else 18)

            def direct(d, b, fun=fun, shape=shape):
                return L.ActivationLayer(original_name="node", idx=b.idx, size=int_prod(shape(d)), activation_function=fun(d))
            out.append(equivalent(f"{op} {' '.join(attrs)} rank {r}".replace("  ", " "), dims, imp, direct, reals))
    for which in (("lo", "hi"), ("lo",), ("hi",), ()):
        def imp(d, b, which=which):
            ins = [("x0", (1, d.A, d.B, d.C))]
            ins.append(("lo", (), onnx_ops.scalar(d.lo, b)) if "lo" in which else "")
            if "hi" in which:
                ins.append(("hi", (), onnx_ops.scalar(d.hi, b)))
            return imported(b, "Clip", ins, [("y", (1, d.A, d.B, d.C))])

        def direct(d, b, which=which):
            return L.ActivationLayer(original_name="node", idx=b.idx, size=d.A * d.B * d.C,
                                     activation_function=af.Clip(d.hi if "hi" in which else np.inf, d.lo if "lo" in which else -np.inf))
        out.append(equivalent(f"Clip inputs {' '.join(which)}", dict(A=1, B=1, C=1), imp, direct, which))
    return out


def int_prod(shape):
    r = 1
    for s in shape:
        r = r * s
    return r


# -- models ------------------------------------------------------------------------------------


def models(kind, lo, hi, program):
    def fn():
        import onnxrun
        pyfront.uninstall()
        obs = []
        for k, (name, must, m) in enumerate(onnx_models.GROUPS[kind]()):
            if lo <= k < hi:
                obs.append(onnxrun.obligation(name, m, random.Random(k), must == onnx_models.MUST, program, must == onnx_models.REFUSE))
        return dict(obligations=obs)
    return fn


def tasks(tier, seed):
    cases = onnx_ops.CASES
    if tier == "quick":
        rnd = random.Random(seed)
        groups = {}
        for c in cases:
            op = c.name.split()[0]
            groups.setdefault(op, []).append(c)
        cases = []
        for op, cs in groups.items():
            n = QUICK.get(op, QUICK["Reduce"] if op.startswith("Reduce") else len(cs))
            cases += rnd.sample(cs, n) if n < len(cs) else cs
    out = case_tasks(cases, ["python"], tier, seed)
    out += attribute_tasks()
    for kind, gen in onnx_models.GROUPS.items():
        n = sum(1 for _ in gen())
        step = 12 if kind == "graph" else 40
        for i in range(0, n, step):
            out.append(Task(f"models/{kind}/{i // step}", models(kind, i, i + step, kind == "graph" or tier == "thorough"), 300, label="bounded"))
    return out
