"""A12: fusion passes."""
import itertools
import random

import numpy as np

import graphs
from acetone_nnet.generator import activation_functions as af
from acetone_nnet.generator.layers import (ActivationLayer, Add, BatchNormalization, ConstantLayer, Conv2D, Flatten, InputLayer, Maximum,
                                           MaxPooling2D, Multiply, Softmax, Subtract)
from acetone_nnet.graph.graph_interpretor import tri_topo
from acetone_nnet.pattern_matching.PatternMatcher import PatternMatcher, pattern_matcher
from casetasks import case_tasks
from check import Task
from layers import elementwise, fusion

ASSUMPTIONS = ["exact real arithmetic (the concrete comparisons use a tolerance of 1e-9 relative)"]
TRUSTED = ["the Python inference of the layers (A10)"]
BOUNDED = ["which groups of layers are fused, links, identifiers and kept tensors: every network of at most 3 operations, random ones of at most 9"]
C, H, W = 2, 2, 3
SHAPE = [1, C, H, W]
SIZE = C * H * W

UNARY = ["conv", "bn", "Sigmoid", "ReLu"]
MORE = ["TanH", "Linear", "Silu", "softmax", "pool", "muls", "subs", "flatten", "bnrelu", "convrelu"]
BINARY = ["mul", "add"]
MORE2 = ["max", "mulrelu", "mulc"]


def layer(kind, i, k, rnd, shared):
    """One layer computing SHAPE -> SHAPE; k operands."""
    a = af.Linear()
    if kind.endswith("relu"):
        kind, a = kind[:-4], af.ReLu()
    name = f"{kind}_{i}"
    if kind == "input":
        return InputLayer(name, i, SIZE, SHAPE, "channels_first")
    if kind == "conv":
        w = rnd.uniform(-1, 1, (C, C, 1, 1))
        b = rnd.uniform(-1, 1, C)
        if shared is not None:
            w, b = shared.setdefault("conv", (w, b))
        return Conv2D(original_name=name, idx=i, conv_algorithm="specs", size=SIZE, padding="VALID", strides=1, kernel_h=1,
                      kernel_w=1, dilation_rate=1, nb_filters=C, input_shape=SHAPE, output_shape=SHAPE, weights=w, biases=b,
                      activation_function=a)
    if kind == "bn":
        v = [rnd.uniform(-1, 1, C) for _ in range(3)]
        return BatchNormalization(original_name=name, idx=i, size=SIZE, input_shape=SHAPE, epsilon=1e-3, scale=v[0],
                                  biases=v[1], mean=v[2], var=rnd.uniform(0.1, 2, C), activation_function=a)
    if kind == "softmax":
        return Softmax(original_name=name, idx=i, size=SIZE, output_shape=SHAPE, axis=1)
    if kind == "flatten":
        return Flatten(original_name=name, idx=i, size=SIZE, input_shape=SHAPE, data_format="channels_first")
    if kind == "pool":
        return MaxPooling2D(original_name=name, idx=i, size=SIZE, padding=[1, 1, 1, 1], strides=1, pool_size=3,
                            input_shape=SHAPE, output_shape=SHAPE, activation_function=a)
    if hasattr(af, kind):
        f = getattr(af, kind)()
        return ActivationLayer(original_name=name, idx=i, size=SIZE, activation_function=f)
    if kind == "const":
        return ConstantLayer(original_name=name, idx=i, size=SIZE, constant=rnd.uniform(-1, 1, SHAPE))
    cst = None
    shapes = [SHAPE] * k
    cls = {"mul": Multiply, "add": Add, "max": Maximum, "muls": Multiply, "subs": Subtract, "mulc": Multiply}[kind]
    if kind in ("muls", "subs", "mulc"):
        cst = rnd.uniform(-1, 1, SHAPE)
        shapes = shapes + [SHAPE]
    kw = {} if cst is None else dict(constant=cst)
    return cls(original_name=name, idx=i, size=SIZE, input_shapes=np.array(shapes), output_shape=SHAPE,
               activation_function=a, **kw)


def build(net, ids, seed, share):
    """net: [(kind, operands)]; layers listed by identifier, as an importer numbers them."""
    rnd = np.random.default_rng(seed)
    shared = {} if share else None
    ls = [layer(kind, ids[k], len(ops), rnd, shared) for k, (kind, ops) in enumerate(net)]
    prev, nxt = [[] for _ in ls], [[] for _ in ls]
    for k, (_, ops) in enumerate(net):
        for o in ops:
            prev[k].append(ls[o])
            nxt[o].append(ls[k])
    for k, x in enumerate(ls):
        x.previous_layer, x.next_layer = prev[k], nxt[k]
    return ls


def call(x, ins):
    ins = [np.array(v) for v in ins]
    return np.asarray(x.forward_path_layer(ins if len(ins) > 1 else ins[0])).reshape(C, H, W)


def dataflow(out, x0):
    val = {}
    for x in out:
        val[id(x)] = call(x, [val[id(p)] for p in x.previous_layer] or [x0])
    return val[id(out[-1])]


def buffered(out, dict_cst, maxpath, x0):
    mem = {}
    for x in out:
        if x.path is None or not 0 <= x.path < maxpath:
            raise AssertionError(f"layer {x.original_name} writes output_{x.path}, of which {maxpath} are declared")
        r = call(x, [mem[p.output_str] for p in x.previous_layer] or [x0])
        mem[f"output_{x.path}"] = r
        if x.idx in dict_cst:
            mem[f"cst_{dict_cst[x.idx]}"] = r
    return mem[f"output_{out[-1].path}"]


def well_formed(out, dict_cst):
    ids = [x.idx for x in out]
    if len(set(ids)) != len(ids):
        return f"identifiers are not unique: {ids}"
    here = {id(x) for x in out}
    for x in out:
        for y in x.previous_layer:
            if id(y) not in here:
                return f"{x.original_name} reads {y.original_name}, which is not in the network"
            if not any(z is x for z in y.next_layer):
                return f"{x.original_name} reads {y.original_name}, which does not list it as a successor"
        for y in x.next_layer:
            if id(y) not in here:
                return f"{x.original_name} is followed by {y.original_name}, which is not in the network"
            if not any(z is x for z in y.previous_layer):
                return f"{x.original_name} is followed by {y.original_name}, which does not read it"
    r = graphs.topological(out, out)
    if r:
        return r
    if not set(dict_cst) <= set(ids):
        return f"kept tensors {dict_cst} name identifiers that no longer exist ({ids})"
    for x in out:
        if len({id(y) for y in x.next_layer}) > 1 and x.idx not in dict_cst:
            return f"{x.original_name} has several consumers but is not kept in a constant buffer"
    return None


def one(net, ids, seed, names, share=False):
    ref = build(net, ids, seed, share)
    by = sorted(ref, key=lambda x: x.idx)
    out, mp, cst = tri_topo(by)
    x0 = np.random.default_rng(seed + 1).uniform(-2, 2, (C, H, W))
    want = dataflow(out, x0)
    ls = build(net, ids, seed, share)
    out, mp, cst = tri_topo(sorted(ls, key=lambda x: x.idx))
    for x in out:
        x.find_output_str(cst)
    m = PatternMatcher()
    for p in pattern_matcher.patterns:
        if type(p).__name__ in names:
            m.register_pattern(p)
    try:
        new, _ = m.match(out, cst)
    except Exception as e:  # noqa: BLE001
        return f"the passes failed: {type(e).__name__}: {e}"
    r = well_formed(new, cst)
    if r:
        return r
    got = dataflow(new, x0)
    if not np.allclose(got, want, rtol=1e-9, atol=1e-9):
        return "the network computes another function"
    try:
        got = buffered(new, cst, mp, x0)
    except (AssertionError, KeyError) as e:
        return f"the generated program's buffers: {type(e).__name__} {e}"
    if not np.allclose(got, want, rtol=1e-9, atol=1e-9):
        return (f"a tensor is overwritten before its last use: paths {[(x.original_name, x.path, x.output_str) for x in new]}, "
                f"kept {cst}")
    return None


PASSES = [type(p).__name__ for p in pattern_matcher.patterns]


def used(net):
    u = {o for _, ops in net for o in ops}
    return all(k in u for k in range(len(net) - 1))


def small(n):
    """Every network of n operations over UNARY and BINARY, every numbering compatible with nothing but distinctness."""
    def rec(net):
        if len(net) == n + 1:
            if used(net):
                yield list(net)
            return
        k = len(net)
        for u in UNARY:
            for a in range(k):
                yield from rec([*net, (u, (a,))])
        for b in BINARY:
            for a in range(k):
                for c in range(k):
                    yield from rec([*net, (b, (a, c))])
    yield from rec([("input", ())])


def random_net(rnd, nmax):
    net = [("input", ())]
    n = rnd.randint(2, nmax)
    while len(net) <= n:
        k = len(net)
        a = k - 1 if rnd.random() < 0.5 else rnd.randrange(k)
        r = rnd.random()
        if r < 0.15:
            net.append(("conv", (a,)))
            net.append(("bn", (k,)))
        elif r < 0.35:
            net.append(("Sigmoid", (a,)))
            if rnd.random() < 0.4:
                net.append((rnd.choice(UNARY + MORE), (rnd.randrange(k),)))
            net.append((rnd.choice(["mul", "mul", "mul", "mulc", "mulrelu", "add"]), rnd.choice([(a, k), (k, a)])))
        elif r < 0.4:
            net.append(("const", ()))
            net.append((rnd.choice(BINARY), rnd.choice([(a, k), (k, a)])))
        elif r < 0.75:
            net.append((rnd.choice(UNARY + MORE), (a,)))
        else:
            net.append((rnd.choice(BINARY + MORE2), (a, rnd.randrange(k))))
    # close the network: unused results are added together
    while True:
        u = {o for _, ops in net for o in ops}
        loose = [k for k in range(len(net) - 1) if k not in u]
        if not loose:
            return net
        net.append((rnd.choice(["add", "mul"]), (loose[0], len(net) - 1)))


def numberings(net, rnd, count):
    """Identifier assignments: as listed, and other orders of listing."""
    n = len(net)
    yield list(range(n))
    for _ in range(count):
        if rnd.random() < 0.5:
            # another topological listing
            left, ids, k = set(range(n)), [0] * n, 0
            while left:
                ready = [x for x in left if not any(o in left for o in net[x][1])]
                x = rnd.choice(ready)
                ids[x] = k
                k += 1
                left.remove(x)
            yield ids
        else:
            yield rnd.sample(range(n), n)


def run(name, cases, limit=None):
    def fn():
        bad, k = None, 0
        for c in cases():
            k += 1
            try:
                r = one(*c)
            except Exception as e:  # noqa: BLE001
                r = f"{type(e).__name__}: {e}"
            if r:
                bad = f"network {c[0]} numbered {c[1]} seed {c[2]} passes {c[3]}: {r}"
                break
        return dict(obligations=[("enumerated", name, bad is None, bad or "")], paths=k,
                    functions=["PatternMatcher.match", "Pattern.update_indices", "Pattern.update_next_layers",
                               "Pattern.update_previous_layers", "Pattern.update_dict_cst", *[f"{p}.is_pattern" for p in PASSES],
                               *[f"{p}.apply_pattern" for p in PASSES]])
    return fn


def small_cases(n, part, parts, seed):
    rnd = random.Random(seed)
    for k, net in enumerate(small(n)):
        if k % parts == part:
            for ids in numberings(net, rnd, 1):
                yield net, ids, k, PASSES
            yield net, list(range(len(net))), k, [p for p in PASSES if rnd.random() < 0.6]


def random_cases(seed, count, nmax):
    rnd = random.Random(seed)
    for k in range(count):
        net = random_net(rnd, nmax)
        for ids in numberings(net, rnd, 1):
            names = PASSES if rnd.random() < 0.6 else [p for p in PASSES if rnd.random() < 0.6]
            yield net, ids, k, names, rnd.random() < 0.3


def tasks(tier, seed):
    q = tier == "quick"
    cs = fusion.cases()
    if q:       # the operators that share the code of another one: some of their shapes
        cs = [c for c in cs if c.name.split()[2] not in elementwise.OPS or c.name.split()[2] == "Add" or
              any(c.name.endswith(f) for f in elementwise.FEW) or "constant" in c.name]
    out = case_tasks(cs, ["python"], tier, seed)
    for n in (1, 2, 3):
        parts = 1 if n < 3 else 3
        for p in range(parts):
            out.append(Task(f"enumerated/every network of {n} operations/{p}",
                            run(f"every network of {n} operations", lambda n=n, p=p, parts=parts: small_cases(n, p, parts, seed)),
                            400, label="bounded", weight=2))
    for p in range(5):
        out.append(Task(f"enumerated/random networks/{p}",
                        run("random networks", lambda p=p: random_cases(f"{seed}/{p}", 400 if q else 8000, 9)), 400, label="bounded", weight=3))
    return out
