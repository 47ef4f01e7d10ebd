"""A21: PyTorch programs are imported with the meaning of their operations.

Operation contracts (proved): vc/layers/torch_ops.py.
Programs (bounded): exported by torch, imported, and the reference inference of the network compared with torch; programs with
settings or operations outside the supported ones have to be refused, or to be right.
"""
import random

import numpy as np
import pyfront
import torch
import torch.nn.functional as F
from acetone_nnet.importers.PYTORCH_importer.parse_pytorch import load_pytorch
from casetasks import case_tasks
from check import Task
from layers import torch_ops
from torch import nn
from torch.export import export

ASSUMPTIONS = ["symbolic nodes are objects with the fields of torch.fx.Node (op, name, target, args, kwargs, users, meta) and torch.rsqrt, "
               "torch.from_numpy and Tensor.numpy have their documented meaning",
               "the batch dimension of tensors of rank 4 is 1; inputs are channels-first; dropout and batch normalisation have their meaning in inference",
               "exact real arithmetic"]
BOUNDED = ["whole programs: enumerated and random modules, exported by torch, on one input each"]


def infer(layers, xs):
    vals, k = {}, 0
    for ly in layers:
        if not ly.previous_layer:
            if type(ly).__name__ != "InputLayer":
                return None
            vals[ly.idx] = xs[ly.original_name]
            continue
        ins = [vals[q.idx] for q in ly.previous_layer]
        vals[ly.idx] = ly.forward_path_layer(ins if len(ins) > 1 else ins[0])
    return np.asarray(vals[layers[-1].idx])


def wired(layers):
    bad = []
    if len({x.idx for x in layers}) != len(layers):
        bad.append("identifiers are not unique")
    pos = {id(x): k for k, x in enumerate(layers)}
    for x in layers:
        for y in x.next_layer:
            if id(y) not in pos or sum(z is y for z in x.next_layer) != sum(z is x for z in y.previous_layer) or pos[id(y)] <= pos[id(x)]:
                bad.append(f"links of {x.name}_{x.idx} and {y.name}_{y.idx}")
        if any(id(y) not in pos for y in x.previous_layer):
            bad.append(f"{x.name}_{x.idx} reads a layer outside the network")
    if sum(not x.next_layer for x in layers) != 1 or layers[-1].next_layer:
        bad.append("the last layer is not the only result")
    return bad


class Fn(nn.Module):
    """A module made of a function of its input and of its parameters."""

    def __init__(self, f, **mods):
        super().__init__()
        self.f = f
        for k, m in mods.items():
            setattr(self, k, m)

    def forward(self, *x):
        return self.f(self, *x)


def compare(module, shapes, seed, must):
    """None, or what is wrong with the imported program; must: refusing it is wrong."""
    pyfront.uninstall()
    torch.manual_seed(seed)
    for m in module.modules():
        if isinstance(m, nn.BatchNorm2d):
            m.running_mean.normal_()
            m.running_var.uniform_(0.25, 4)
            if m.affine:
                nn.init.normal_(m.weight)
                nn.init.normal_(m.bias)
    module.eval()
    xs = [torch.randn(*s) for s in shapes]
    with torch.no_grad():
        want = module(*xs).numpy()
        p = export(module, tuple(xs))
    try:
        layers, ctype, pytype, fmt, *_ = load_pytorch(p)
        if (ctype, np.dtype(pytype), fmt) != ("float", np.dtype(np.float32), "channels_first"):
            return f"imported as {ctype}, {pytype}, {fmt}"
        names = [n.name for n in p.module().graph.nodes if n.op == "placeholder"]
        got = infer(layers, {n: x.numpy()[0] if x.dim() == 4 else x.numpy().reshape(-1) for n, x in zip(names, xs)})
    except Exception as e:  # noqa: BLE001
        return f"refused with {type(e).__name__}: {e}"[:300] if must else None
    bad = wired(layers)
    if bad:
        return "; ".join(bad)[:300]
    if got is None or got.size != want.size or not np.allclose(got.reshape(-1), want.reshape(-1), rtol=1e-4, atol=1e-4):
        return f"the network gives {np.asarray(got).reshape(-1)[:6]}, torch {want.reshape(-1)[:6]}"
    return None


def conv(*a, **k):
    return nn.Conv2d(*a, **k)


S4 = (1, 3, 6, 6)
#: name, function, modules, input shapes, whether it has to be accepted
PROGRAMS = [
    ("conv bn relu", lambda m, x: F.relu(m.b(m.c(x))), dict(c=conv(3, 4, (3, 2)), b=nn.BatchNorm2d(4)), [S4], True),
    ("conv without bias, bn, clamp", lambda m, x: torch.clamp(m.b(m.c(x)), -0.5, 0.25), dict(c=conv(3, 4, 3, 2, 1, bias=False), b=nn.BatchNorm2d(4)), [S4], True),
    ("relu of the input", lambda m, x: F.relu(x), {}, [S4], True),
    ("relu of a shared sum", lambda m, x, y: torch.cat([F.relu(x + y), x + y], 1), {}, [S4, S4], True),
    ("relu of a shared convolution", lambda m, x: (lambda y: F.relu(y) + y)(m.c(x)), dict(c=conv(3, 3, 1)), [S4], True),
    ("clamp of relu", lambda m, x: torch.clamp(F.relu(m.c(x)), -1.0, 0.5), dict(c=conv(3, 3, 1)), [S4], True),
    ("relu of clamp", lambda m, x: F.relu(torch.clamp(m.c(x), -1.0, 0.5)), dict(c=conv(3, 3, 1)), [S4], True),
    ("residual", lambda m, x: F.relu(m.c(x) + x), dict(c=conv(3, 3, 3, padding=1)), [S4], True),
    ("shared behind a dropout", lambda m, x: (lambda y: F.relu(F.dropout(y, 0.5, m.training)) + y)(m.c(x)), dict(c=conv(3, 3, 1)), [S4], True),
    ("pool, flatten, linear", lambda m, x: m.l(torch.flatten(F.max_pool2d(m.c(x), 2), 1)), dict(c=conv(3, 2, 3, padding=1), l=nn.Linear(18, 5)), [S4], True),
    ("pool with stride", lambda m, x: F.max_pool2d(x, 3, 1, 1), {}, [(1, 2, 5, 7)], True),
    ("mean, linear without bias", lambda m, x: m.l(torch.flatten(F.adaptive_avg_pool2d(x, 1), 1)), dict(l=nn.Linear(3, 4, bias=False)), [S4], True),
    ("cat of three, negative axis", lambda m, x, y: torch.cat([x, y, x], -1), {}, [(1, 2, 3, 4), (1, 2, 3, 5)], True),
    ("linear chain", lambda m, x: m.b(F.relu(m.a(x))), dict(a=nn.Linear(4, 6), b=nn.Linear(6, 2)), [(1, 4)], True),
    ("dilated convolution", lambda m, x: m.c(x), dict(c=conv(3, 2, (2, 3), 2, (1, 2), 2)), [(1, 3, 8, 9)], True),
    ("a sum with itself", lambda m, x: (lambda y: y + y)(m.c(x)), dict(c=conv(3, 2, 1)), [S4], True),
    # settings and operations that have no layer: refused, or right
    ("conv strides differ", lambda m, x: m.c(x), dict(c=conv(3, 2, 2, (1, 2))), [S4], False),
    ("conv dilations differ", lambda m, x: m.c(x), dict(c=conv(3, 2, 2, 1, 0, (1, 2))), [S4], False),
    ("conv padding same", lambda m, x: m.c(x), dict(c=conv(3, 2, 2, padding="same")), [S4], False),
    ("pool kernels differ", lambda m, x: F.max_pool2d(x, (2, 3)), {}, [S4], False),
    ("pool strides differ", lambda m, x: F.max_pool2d(x, 2, (1, 2)), {}, [S4], False),
    ("pool dilated", lambda m, x: F.max_pool2d(x, 2, 1, 0, 2), {}, [S4], False),
    ("pool ceil mode", lambda m, x: F.max_pool2d(x, 2, 2, 0, 1, True), {}, [(1, 2, 5, 5)], False),
    ("pool ceil mode that fits", lambda m, x: F.max_pool2d(x, 3, 2, 0, 1, True), {}, [(1, 2, 5, 7)], True),
    ("adaptive maximum", lambda m, x: F.adaptive_max_pool2d(x, 2), {}, [S4], False),
    ("adaptive mean of 2x2", lambda m, x: F.adaptive_avg_pool2d(x, 2), {}, [S4], False),
    ("adaptive mean, not square", lambda m, x: F.adaptive_avg_pool2d(x, 1), {}, [(1, 2, 3, 6)], False),
    ("bn of relu", lambda m, x: m.b(F.relu(m.c(x))), dict(c=conv(3, 4, 1), b=nn.BatchNorm2d(4)), [S4], False),
    ("bn of the input", lambda m, x: m.b(x), dict(b=nn.BatchNorm2d(3)), [S4], False),
    ("bn of a shared convolution", lambda m, x: (lambda y: m.b(y) + y)(m.c(x)), dict(c=conv(3, 3, 1), b=nn.BatchNorm2d(3)), [S4], False),
    ("bn twice", lambda m, x: m.d(m.b(m.c(x))), dict(c=conv(3, 3, 1), b=nn.BatchNorm2d(3), d=nn.BatchNorm2d(3)), [S4], False),
    ("leaky relu", lambda m, x: F.leaky_relu(m.c(x)), dict(c=conv(3, 3, 1)), [S4], False),
    ("relu6", lambda m, x: F.relu6(4 * m.c(x)), dict(c=conv(3, 3, 1)), [S4], False),
    ("relu6 alone", lambda m, x: F.relu6(m.c(x) + x), dict(c=conv(3, 3, 1)), [S4], False),
    ("sigmoid at the end", lambda m, x: torch.sigmoid(m.c(x)), dict(c=conv(3, 3, 1)), [S4], False),
    ("two results wanted as one", lambda m, x: F.relu(m.c(x)) * 2, dict(c=conv(3, 3, 1)), [S4], False),
    ("scaled sum", lambda m, x, y: torch.add(x, y, alpha=2), {}, [S4, S4], False),
    ("sum with a number", lambda m, x: m.c(x) + 1.5, dict(c=conv(3, 3, 1)), [S4], False),
    ("clamp without maximum", lambda m, x: torch.clamp(m.c(x), min=0.25), dict(c=conv(3, 3, 1)), [S4], False),
    ("clamp without minimum", lambda m, x: torch.clamp(m.c(x), max=0.25), dict(c=conv(3, 3, 1)), [S4], False),
    ("linear of rows", lambda m, x: m.l(x), dict(l=nn.Linear(6, 4)), [(1, 3, 6)], False),
    ("linear of two rows", lambda m, x: m.l(x), dict(l=nn.Linear(6, 4)), [(2, 6)], False),
    ("sum of vectors", lambda m, x: m.l(x) + x, dict(l=nn.Linear(6, 6)), [(1, 6)], False),
    ("cat of vectors", lambda m, x: torch.cat([m.l(x), x], 1), dict(l=nn.Linear(6, 6)), [(1, 6)], False),
    ("bilinear resize", lambda m, x: F.interpolate(m.c(x), scale_factor=2, mode="bilinear"), dict(c=conv(3, 2, 1)), [S4], False),
    ("transposed convolution", lambda m, x: m.c(x), dict(c=nn.ConvTranspose2d(3, 2, 2)), [S4], False),
    ("dead code", lambda m, x: (m.c(x), F.relu(x))[0], dict(c=conv(3, 3, 1)), [S4], True),
]


def enumerated(part, parts, seed):
    def fn():
        obs = []
        for name, f, mods, shapes, must in PROGRAMS[part::parts]:
            bad = compare(Fn(f, **mods), shapes, seed, must)
            obs.append(("run", f"program {name}", bad is None, bad or ""))
        return dict(obligations=obs)
    return fn


def layout():
    """The memory format of the input is the network's data format."""
    pyfront.uninstall()
    obs = []
    for last in (False, True):
        x = torch.randn(1, 3, 4, 5)
        m = Fn(lambda m, x: F.max_pool2d(m.c(x), 2), c=conv(3, 2, 1)).eval()
        if last:
            m, x = m.to(memory_format=torch.channels_last), x.to(memory_format=torch.channels_last)
        layers, _, _, fmt, *_ = load_pytorch(export(m, (x,)))
        want = "channels_last" if last else "channels_first"
        seen = {fmt, *(getattr(q, "data_format") for q in layers if hasattr(q, "data_format"))}
        obs.append(("run", f"an input stored {want}", seen == {want}, str(seen)))
    return dict(obligations=obs)


class Net(nn.Module):
    """A random network of supported operations."""

    def __init__(self, rnd):
        super().__init__()
        self.plan, self.mods = [], nn.ModuleList()
        c, h = rnd.randint(1, 3), rnd.randint(4, 8)
        self.shape = (1, c, h, h)
        live = [(c, h)]
        for _ in range(rnd.randint(3, 7)):
            i = rnd.randrange(len(live)) if rnd.random() < 0.3 else len(live) - 1
            c, h = live[i]
            op = rnd.choice(["conv", "conv", "convbn", "relu", "clamp", "pool", "add", "cat", "dropout"])
            if op in ("conv", "convbn"):
                k = rnd.randint(1, min(3, h))
                s, p, f = rnd.randint(1, 2), rnd.randint(0, 1), rnd.randint(1, 4)
                self.mods.append(nn.Conv2d(c, f, k, s, p, bias=rnd.random() < 0.7))
                if op == "convbn":
                    self.mods.append(nn.BatchNorm2d(f))
                self.plan.append((op, i, len(self.mods) - 1 - (op == "convbn")))
                live.append((f, (h + 2 * p - k) // s + 1))
            elif op == "pool":
                k = rnd.randint(1, min(3, h))
                s, p = rnd.randint(1, 2), rnd.randint(0, k // 2)
                self.plan.append((op, i, (k, s, p)))
                live.append((c, (h + 2 * p - k) // s + 1))
            elif op in ("add", "cat"):
                js = [j for j, (a, b) in enumerate(live) if b == h and (op == "cat" or a == c)]
                j = rnd.choice(js)
                self.plan.append((op, i, j))
                live.append((c + live[j][0], h) if op == "cat" else (c, h))
            else:
                self.plan.append((op, i, None))
                live.append((c, h))
        c, h = live[-1]
        self.last = nn.Linear(c * h * h, rnd.randint(1, 4))

    def forward(self, x):
        t = {0: x}

        def step(k):
            # only what the result depends on: torch keeps a dead dropout, and what it reads, in the program
            if k in t:
                return t[k]
            op, i, a = self.plan[k - 1]
            y = step(i)
            t[k] = (self.mods[a](y) if op == "conv" else self.mods[a + 1](self.mods[a](y)) if op == "convbn" else
                    F.relu(y) if op == "relu" else torch.clamp(y, -0.5, 0.75) if op == "clamp" else F.max_pool2d(y, *a) if op == "pool" else
                    y + step(a) if op == "add" else torch.cat([y, step(a)], 1) if op == "cat" else F.dropout(y, 0.5, self.training))
            return t[k]
        return self.last(torch.flatten(step(len(self.plan)), 1))


def programs(seed, n):
    def fn():
        obs = []
        for k in range(n):
            rnd = random.Random(f"{seed}/{k}")
            torch.manual_seed(k)
            net = Net(rnd)
            bad = compare(net, [net.shape], k, True)
            obs.append(("run", f"random program {seed}/{k}: {[p[:2] for p in net.plan]}", bad is None, bad or ""))
        return dict(obligations=obs)
    return fn


def tasks(tier, seed):
    out = case_tasks(torch_ops.CASES, ["python"], tier, seed)
    out.append(Task("layout", layout, 120, label="bounded"))
    for k in range(6):
        out.append(Task(f"enumerated programs/{k}", enumerated(k, 6, seed), 300, label="bounded"))
        out.append(Task(f"random programs/{k}", programs(seed * 10 + k, 6 if tier == "quick" else 60), 600, label="bounded"))
    return out
