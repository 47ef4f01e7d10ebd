"""Whole ONNX models, enumerated: attribute values outside the node contracts, and the shape of the graph (A17).

MUST: importing has to succeed.  MAY: refused, or imported with the meaning of the model.  REFUSE: has no layer, has to be refused."""
import itertools
import random

import numpy as np
from onnx import helper as H
from onnxrun import model, one

MUST, MAY, REFUSE = "must", "may", "refuse"


def arr(rnd, *shape):
    return np.array([rnd.randint(-4, 4) / 2 for _ in range(int(np.prod(shape)))], dtype=np.float32).reshape(shape)


def out_len(h, k, s, d, p):
    return (h + p - d * (k - 1) - 1) // s + 1


def conv_models():
    rnd = random.Random(1)
    for auto, s, h, k, d in itertools.product(("SAME_UPPER", "SAME_LOWER", "VALID"), (1, 2, 3), (5, 6), (2, 3), (1, 2)):
        if s > 1 and d > 1 or h == 6 and d > 1:
            continue
        o = -(-h // s) if auto != "VALID" else out_len(h, k, s, d, 0)
        w = arr(rnd, 2, 2, k, k)
        # (the reference evaluator of onnx does not implement SAME with dilations)
        if auto != "VALID" and d > 1:
            continue
        yield (f"Conv {auto} stride {s} size {h} kernel {k} dilation {d}", MUST,
               one("Conv", [(1, 2, h, h)], (1, 2, o, o), dict(w=w), auto_pad=auto, strides=[s, s], dilations=[d, d]))
    for s, d, k, p in (((1, 2), (1, 1), (2, 2), (0, 0, 0, 0)), ((1, 1), (1, 2), (2, 2), (0, 0, 0, 0)), ((2, 1), (1, 1), (3, 2), (1, 0, 1, 1)),
                       ((1, 1), (1, 1), (1, 3), (0, 1, 0, 1))):
        oh, ow = out_len(5, k[0], s[0], d[0], p[0] + p[2]), out_len(6, k[1], s[1], d[1], p[1] + p[3])
        yield (f"Conv strides {s} dilations {d} kernel {k} pads {p}", MUST if s[0] == s[1] and d[0] == d[1] else MAY,
               one("Conv", [(1, 2, 5, 6)], (1, 3, oh, ow), dict(w=arr(rnd, 3, 2, *k), b=arr(rnd, 3)), strides=s, dilations=d, pads=p, kernel_shape=k))
    for g, c, f in ((2, 2, 2), (2, 4, 2), (2, 2, 4), (3, 3, 3), (2, 4, 6)):
        yield f"Conv group {g} of {c} to {f}", MAY, one("Conv", [(1, c, 4, 4)], (1, f, 3, 3), dict(w=arr(rnd, f, c // g, 2, 2)), group=g)
    yield "Conv of rank 3", MAY, one("Conv", [(1, 2, 5)], (1, 3, 4), dict(w=arr(rnd, 3, 2, 2)))
    yield "Conv of rank 5", MAY, one("Conv", [(1, 2, 3, 3, 3)], (1, 2, 2, 2, 2), dict(w=arr(rnd, 2, 2, 2, 2, 2)))
    yield "Conv of a batch", MAY, one("Conv", [(2, 2, 3, 3)], (2, 2, 2, 2), dict(w=arr(rnd, 2, 2, 2, 2)))
    yield ("Conv with computed weights", MAY,
           model([H.make_node("Relu", ["w"], ["v"]), H.make_node("Conv", ["x0", "v"], ["y"])], dict(x0=(1, 2, 3, 3)), dict(y=(1, 2, 2, 2)),
                 dict(w=arr(rnd, 2, 2, 2, 2))))


def pool_models():
    for op, auto, s, h, k in itertools.product(("MaxPool", "AveragePool"), ("SAME_UPPER", "SAME_LOWER", "VALID"), (1, 2, 3), (5, 6), (2, 3)):
        o = -(-h // s) if auto != "VALID" else out_len(h, k, s, 1, 0)
        yield f"{op} {auto} stride {s} size {h} kernel {k}", MUST, one(op, [(1, 2, h, h)], (1, 2, o, o), auto_pad=auto, strides=[s, s], kernel_shape=[k, k])
    for op in ("MaxPool", "AveragePool"):
        for kw, o in ((dict(kernel_shape=[2, 2], strides=[2, 2], ceil_mode=1), (3, 3)), (dict(kernel_shape=[2, 3]), (4, 3)),
                      (dict(kernel_shape=[2, 2], strides=[1, 2]), (4, 2)), (dict(kernel_shape=[3, 1], pads=[1, 0, 1, 0]), (5, 5))):
            yield f"{op} {kw}", MAY, one(op, [(1, 2, 5, 5)], (1, 2, *o), **kw)
    yield "MaxPool dilations", MAY, one("MaxPool", [(1, 2, 5, 5)], (1, 2, 3, 3), kernel_shape=[2, 2], dilations=[2, 2])
    yield "MaxPool dilations (1, 2)", MAY, one("MaxPool", [(1, 2, 5, 5)], (1, 2, 4, 3), kernel_shape=[2, 2], dilations=[1, 2])
    yield "AveragePool dilations", MAY, one("AveragePool", [(1, 2, 5, 5)], (1, 2, 3, 3), opset=19, kernel_shape=[2, 2], dilations=[2, 2])
    for pads in ((1, 1, 1, 1), (1, 0, 0, 1)):
        o = (3 + pads[0] + pads[2], 3 + pads[1] + pads[3])
        yield (f"AveragePool count_include_pad pads {pads}", MAY,
               one("AveragePool", [(1, 2, 4, 4)], (1, 2, *o), kernel_shape=[2, 2], pads=list(pads), count_include_pad=1))
    yield ("AveragePool count_include_pad SAME", MAY,
           one("AveragePool", [(1, 2, 4, 4)], (1, 2, 4, 4), kernel_shape=[2, 2], auto_pad="SAME_UPPER", count_include_pad=1))
    for h, w in ((3, 3), (2, 4), (4, 1)):
        yield f"GlobalAveragePool {h}x{w}", MUST if h == w else MAY, one("GlobalAveragePool", [(1, 3, h, w)], (1, 3, 1, 1))
    yield "MaxPool of rank 3", MAY, one("MaxPool", [(1, 2, 5)], (1, 2, 4), kernel_shape=[2])
    yield "MaxPool of a batch", MAY, one("MaxPool", [(2, 2, 4, 4)], (2, 2, 3, 3), kernel_shape=[2, 2])
    for op in ("GlobalMaxPool", "LpPool"):
        yield f"{op}", MAY, one(op, [(1, 2, 4, 4)], (1, 2, 1, 1), **({} if op[0] == "G" else dict(kernel_shape=[4, 4])))


def other_models():
    rnd = random.Random(2)
    for op, kw in (("Relu", {}), ("Tanh", {}), ("Sigmoid", {}), ("Exp", {}), ("LeakyRelu", dict(alpha=0.25)), ("LeakyRelu", {})):
        for sh in ((1, 2, 2, 3), (5,), (2, 3), (2, 2, 2)):
            yield f"{op} {kw} {sh}", MUST, one(op, [sh], sh, **kw)
    yield ("Log", MUST, model([H.make_node("Exp", ["x"], ["e"]), H.make_node("Log", ["e"], ["y"])], dict(x=(1, 2, 2, 3)), dict(y=(1, 2, 2, 3))))
    lo, hi = np.array(-1, np.float32), np.array(1.5, np.float32)
    for name, inits, names in (("both", dict(lo=lo, hi=hi), ["x0", "lo", "hi"]), ("min", dict(lo=lo), ["x0", "lo"]), ("max", dict(hi=hi), ["x0", "", "hi"]),
                               ("none", {}, ["x0"])):
        yield f"Clip bounds {name}", MUST, one("Clip", [(1, 2, 2, 3)], (1, 2, 2, 3), inits, names=names)
    for kw in (dict(min=-1.0, max=1.5), dict(min=-1.0), dict(max=1.5), {}):
        yield f"Clip attributes {kw}", MUST, one("Clip", [(1, 2, 2, 3)], (1, 2, 2, 3), opset=6, **kw)
    yield ("Clip computed bound", MAY,
           model([H.make_node("Relu", ["lo"], ["l"]), H.make_node("Clip", ["x", "l"], ["y"])], dict(x=(1, 2, 2, 3)), dict(y=(1, 2, 2, 3)), dict(lo=hi)))
    bn = lambda c: {k: np.abs(arr(rnd, c)) + 1 if k == "var" else arr(rnd, c) for k in ("scale", "b", "mean", "var")}
    for sh in ((1, 3), (1, 3, 4), (1, 3, 2, 2), (1, 2, 2, 2, 2), (2, 3, 2, 2), (2, 3)):
        yield f"BatchNormalization {sh}", MUST if len(sh) == 4 and sh[0] == 1 else MAY, one("BatchNormalization", [sh], sh, bn(sh[1]))
    yield ("BatchNormalization training", REFUSE, model([H.make_node("BatchNormalization", ["x0", "scale", "b", "mean", "var"], ["y", "rm", "rv"], training_mode=1)],
                                                        dict(x0=(1, 3, 2, 2)), dict(y=(1, 3, 2, 2)), bn(3)))
    for r, axis, op in itertools.product((1, 2, 3, 4), range(4), (11, 13)):
        if axis < r:
            sh = (1, 2, 3, 2)[4 - r:] if r < 4 else (1, 2, 3, 2)
            yield f"Softmax axis {axis} of {sh} opset {op}", MAY, one("Softmax", [sh], sh, opset=op, axis=axis)
    for sh, axis in (((1, 3, 1, 1), 1), ((1, 3, 1, 1), 2), ((1, 3, 1, 1), 3), ((1, 1, 3, 1), 1), ((1, 1, 1, 3), 3), ((1, 2, 3, 1), 2), ((3, 1), 0), ((3, 1), 1)):
        yield f"Softmax axis {axis} of {sh}", MAY, one("Softmax", [sh], sh, opset=13, axis=axis)
    for perm in itertools.permutations(range(4)):
        sh = (1, 2, 3, 2)
        yield f"Transpose {perm}", MUST if perm[0] == 0 else MAY, one("Transpose", [sh], tuple(sh[p] for p in perm), perm=perm)
    for p in ([0, 0, -1, 0, 0, 0, 0, 0], [0, 0, 1, 1, 0, 0, -1, 2], [1, 0, 0, 0, 0, 0, 0, 0]):
        sh = tuple(n + p[k] + p[k + 4] for k, n in enumerate((1, 2, 3, 4)))
        yield f"Pad {p}", MAY, one("Pad", [(1, 2, 3, 4)], sh, dict(p=np.array(p)), mode="constant")
    for mode in ("edge", "reflect", "wrap"):
        p = [0, 0, 2, 3, 0, 1, 1, 4] if mode != "reflect" else [0, 0, 1, 2, 0, 1, 2, 3]
        sh = tuple(n + p[k] + p[k + 4] for k, n in enumerate((1, 2, 3, 4)))
        yield f"Pad {mode}", MAY, one("Pad", [(1, 2, 3, 4)], sh, dict(p=np.array(p)), opset=19, mode=mode)
    for idx, sh in (([[0, 1], [1, 0]], (2, 2)), ([[0, 1, 1]], (1, 3)), ([[1, 1]], (1, 2)), ([[-1, 0, 1]], (1, 3))):
        for ax in (0, 1):
            ix = np.array(idx)
            yield (f"GatherElements axis {ax} indices {idx}", MAY, one("GatherElements", [(2, 3)], ix.shape, dict(i=ix), axis=ax))
    for ax in (0, 1, 2, 3):
        sh = [1, 3, 2, 4]
        sh[ax] = 2
        if ax:
            yield f"Gather axis {ax}", MUST, one("Gather", [(1, 3, 2, 4)], sh, dict(i=np.array([1, 0])), axis=ax)
        yield f"Gather axis {ax} matrix", MAY, one("Gather", [(1, 3, 2, 4)], (*[1, 3, 2, 4][:ax], 1, 2, *[1, 3, 2, 4][ax + 1:]), dict(i=np.array([[0, 0]])), axis=ax)
    yield "Gather computed indices", MAY, model([H.make_node("Cast", ["f"], ["i"], to=7), H.make_node("Gather", ["x", "i"], ["y"])], dict(x=(3, 2)),
                                                dict(y=(2, 2)), dict(f=np.array([0, 1], np.float32)))
    for a, b in itertools.product(((3,), (2, 3), (4, 2, 3), (1, 4, 2, 3), (2, 2, 2, 3)), ((3,), (3, 2), (4, 3, 2), (1, 4, 3, 2), (2, 2, 3, 2))):
        try:
            o = np.matmul(np.zeros(a), np.zeros(b)).shape
        except ValueError:
            continue
        if o:
            yield (f"MatMul {a} x {b}", MUST if len(a) == len(b) == 2 else MAY,
                   model([H.make_node("Relu", ["x"], ["x0"]), H.make_node("Relu", ["x"], ["x1"]), H.make_node("MatMul", ["p", "q"], ["y"])][2:],
                         dict(p=a), dict(y=o), dict(q=arr(rnd, *b))))
            yield f"MatMul initializer {a} x {b}", MAY, model([H.make_node("MatMul", ["q", "p"], ["y"])], dict(p=b), dict(y=o), dict(q=arr(rnd, *a)))
    for op in ("Add", "Sub", "Mul", "Max", "Min", "Mean", "Div"):
        for a, b in (((1, 2, 3, 4), (4,)), ((4,), (1, 2, 3, 4)), ((1, 2, 3, 4), ()), ((2, 3), (1, 2, 2, 3)), ((1, 2, 1, 4), (1, 1, 3, 4)), ((2, 3, 4), (1, 2, 3, 4))):
            o = np.broadcast_shapes(a, b)
            c = arr(rnd, *b) + np.float32(5)
            yield f"{op} {a} initializer {b}", MUST, one(op, [a], o, dict(c=c))
            if op != "Div":
                yield f"{op} initializer {b} {a}", MUST, one(op, [a], o, dict(c=c), names=["c", "x0"])
    for op in ("Abs", "Neg", "Sqrt", "Elu", "HardSigmoid", "Erf", "Softplus", "Identity", "Ceil"):
        yield f"{op}", MAY if op == "Identity" else REFUSE, one(op, [(1, 2, 2, 2)], (1, 2, 2, 2))
    yield "ArgMax", REFUSE, one("ArgMax", [(1, 4)], (1, 1))
    for op, r, axes, kd in itertools.product(("ReduceSum", "ReduceMax", "ReduceMean"), (3, 4), ([0], [1], [0, 1], [-1], [0, 1, 2]), (0, 1)):
        sh = (1, 2, 3, 2) if r == 4 else (2, 3, 2)
        o = np.zeros(sh).sum(axis=tuple(axes), keepdims=bool(kd)).shape
        if o:
            yield f"{op} {sh} axes {axes} keepdims {kd}", MAY, one(op, [sh], o, dict(a=np.array(axes)), keepdims=kd)
    yield "LSTM", MAY, model([H.make_node("LSTM", ["x", "w", "r", "b"], ["", "y"], hidden_size=2)], dict(x=(3, 1, 2)), dict(y=(1, 1, 2)),
                             dict(w=arr(rnd, 1, 8, 2), r=arr(rnd, 1, 8, 2), b=arr(rnd, 1, 16)))
    yield "LSTM without bias", MAY, model([H.make_node("LSTM", ["x", "w", "r"], ["", "y"], hidden_size=2)], dict(x=(3, 1, 2)), dict(y=(1, 1, 2)),
                                          dict(w=arr(rnd, 1, 8, 2), r=arr(rnd, 1, 8, 2)))
    yield "LRN", MAY, one("LRN", [(1, 4, 2, 2)], (1, 4, 2, 2), size=3, alpha=0.5)


def graph_models():
    """The neighbours of the layers, and the nodes that leave no layer."""
    rnd = random.Random(3)
    N = H.make_node
    S = (1, 2, 3, 4)
    w = arr(rnd, 2, 2, 1, 1)
    yield "two consumers", MUST, model([N("Relu", ["x"], ["a"]), N("Tanh", ["x"], ["b"]), N("Sub", ["b", "a"], ["y"])], dict(x=S), dict(y=S))
    yield "the same tensor twice", MUST, model([N("Relu", ["x"], ["a"]), N("Mul", ["a", "a"], ["y"])], dict(x=S), dict(y=S))
    yield "operands in reverse order", MUST, model([N("Conv", ["x", "w"], ["a"]), N("Sigmoid", ["x"], ["b"]), N("Concat", ["b", "a", "x"], ["y"], axis=1)],
                                                   dict(x=S), dict(y=(1, 6, 3, 4)), dict(w=w))
    yield "shared initializer", MUST, model([N("Conv", ["x", "w"], ["a"]), N("Conv", ["a", "w"], ["b"]), N("Add", ["a", "b"], ["y"])], dict(x=S), dict(y=S), dict(w=w))
    c = arr(rnd, 1, 2, 3, 4)
    yield "initializer read twice", MUST, model([N("Mul", ["c", "x"], ["a"]), N("Sub", ["c", "a"], ["y"])], dict(x=S), dict(y=S), dict(c=c))
    yield "initializer listed as input", MUST, model([N("Conv", ["x", "w"], ["y"])], dict(x=S, w=(2, 2, 1, 1)), dict(y=S), dict(w=w))
    for op, sh, extra in (("Reshape", (1, 24), dict(s=np.array([1, 24]))), ("Flatten", (1, 24), {}), ("Dropout", S, {}),
                          ("Unsqueeze", (1, 1, 2, 3, 4), dict(s=np.array([0])))):
        ins = ["x", *extra]
        back = [N("Reshape", ["a", "t"], ["b"])] if op != "Dropout" else [N("Relu", ["a"], ["b"])]
        t = dict(t=np.array(S)) if op != "Dropout" else {}
        last = N("Conv", ["b", "w"], ["y"])
        yield f"{op} between layers", MAY, model([N("Tanh", ["x"], ["u"]), N(op, ["u", *extra], ["a"]), *back, last], dict(x=S), dict(y=S), {**extra, **t, "w": w})
        yield f"{op} of a tensor with another consumer", MAY, model([N("Tanh", ["x"], ["u"]), N(op, ["u", *extra], ["a"]), *back, N("Conv", ["u", "w"], ["v"]),
                                                                     N("Add", ["v", "b"], ["y"])], dict(x=S), dict(y=S), {**extra, **t, "w": w})
        yield f"{op} first", MAY, model([N(op, ins, ["a"]), *back, last], dict(x=S), dict(y=S), {**extra, **t, "w": w})
        yield f"{op} last", MAY, model([N("Conv", ["x", "w"], ["a"]), N(op, ["a", *extra], ["y"])], dict(x=S), dict(y=sh), {**extra, "w": w})
    yield "Flatten then Gemm", MUST, model([N("Relu", ["x"], ["r"]), N("Flatten", ["r"], ["a"]), N("Gemm", ["a", "g"], ["y"], transB=1)], dict(x=S), dict(y=(1, 3)),
                                           dict(g=arr(rnd, 3, 24)))
    yield "Reshape to another rank 4 shape", MUST, model([N("Relu", ["x"], ["r"]), N("Reshape", ["r", "s"], ["a"]), N("MaxPool", ["a"], ["y"], kernel_shape=[2, 2])],
                                                         dict(x=S), dict(y=(1, 3, 1, 3)), dict(s=np.array([1, 3, 2, 4])))
    yield "Reshape then Softmax", MUST, model([N("Reshape", ["x", "s"], ["a"]), N("Softmax", ["a"], ["y"], axis=-1)], dict(x=S), dict(y=(2, 12)), dict(s=np.array([2, 12])))
    from onnx import numpy_helper
    for name, t in (("raw", numpy_helper.from_array(c, "c")), ("typed", H.make_tensor("c", 1, c.shape, c.ravel().tolist()))):
        yield f"Constant node, {name} data", MUST, model([N("Constant", [], ["c"], value=t), N("Mul", ["x", "c"], ["y"])], dict(x=S), dict(y=S))
        yield f"Constant node, {name} data, weights", MUST, model([N("Constant", [], ["w"], value=(numpy_helper.from_array(w, "w") if name == "raw" else
                                                                  H.make_tensor("w", 1, w.shape, w.ravel().tolist()))), N("Conv", ["x", "w"], ["y"])], dict(x=S), dict(y=S))
    yield "Constant node, float", MAY, model([N("Constant", [], ["c"], value_float=2.0), N("Mul", ["x", "c"], ["y"])], dict(x=S), dict(y=S))
    yield "Constant node, floats", MAY, model([N("Constant", [], ["c"], value_floats=[2.0, 1.0, 3.0, 4.0]), N("Mul", ["x", "c"], ["y"])], dict(x=S), dict(y=S))
    yield "Shape", MAY, model([N("Conv", ["x", "w"], ["a"]), N("Shape", ["a"], ["s"]), N("Cast", ["s"], ["t"], to=1), N("Add", ["a", "t"], ["y"])], dict(x=S), dict(y=S), dict(w=w))
    yield "Reshape to a computed shape", MAY, model([N("Relu", ["x"], ["a"]), N("Shape", ["a"], ["s"]), N("Reshape", ["a", "s"], ["b"]), N("Conv", ["b", "w"], ["y"])],
                                                    dict(x=S), dict(y=S), dict(w=w), infos=dict(a=S, b=S))
    yield "LRN inside", MAY, model([N("Conv", ["x", "w"], ["a"]), N("LRN", ["a"], ["b"], size=3, alpha=1.0, bias=2.0), N("Relu", ["b"], ["y"])], dict(x=S), dict(y=S), dict(w=w))
    for n in range(6):
        yield random_graph(random.Random(n), n)


def random_graph(rnd, n):
    """Layers of one shape, wired at random."""
    S = (1, 2, 3, 3)
    names, nodes, inits = ["x"], [], {}
    for k in range(rnd.randint(3, 7)):
        kind = rnd.choice(["un", "bin", "conv", "cst", "drop"])
        a, b, o = rnd.choice(names[-3:]), rnd.choice(names), f"t{k}"
        if kind == "un":
            nodes.append(H.make_node(rnd.choice(["Relu", "Tanh", "Sigmoid"]), [a], [o]))
        elif kind == "bin":
            nodes.append(H.make_node(rnd.choice(["Add", "Sub", "Max", "Min"]), [a, b], [o]))
        elif kind == "conv":
            inits[f"w{k}"], inits[f"b{k}"] = arr(rnd, 2, 2, 3, 3) / 4, arr(rnd, 2)
            nodes.append(H.make_node("Conv", [a, f"w{k}", f"b{k}"], [o], pads=[1, 1, 1, 1]))
        elif kind == "cst":
            inits[f"w{k}"] = arr(rnd, *rnd.choice([(1, 2, 3, 3), (1, 2, 1, 1), (3,), ()]))
            ops = [f"w{k}", a] if rnd.random() < 0.5 else [a, f"w{k}"]
            nodes.append(H.make_node(rnd.choice(["Add", "Sub", "Mul"]), ops, [o]))
        else:
            nodes.append(H.make_node("Dropout", [a], [o]))
        names.append(o)
    used = {i for nd in nodes for i in nd.input}
    ends = [x for x in names if x not in used and x != "x"]
    y = ends[0]
    for k, e in enumerate(ends[1:]):
        nodes.append(H.make_node("Add", [y, e], [f"s{k}"]))
        y = f"s{k}"
    nodes.append(H.make_node("Tanh", [y], ["y"]))
    return f"random graph {n}", MUST, model(nodes, dict(x=S), dict(y=S), inits)


GROUPS = dict(conv=conv_models, pool=pool_models, other=other_models, graph=graph_models)
