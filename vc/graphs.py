"""Small networks for the graph functions: every DAG up to a size, and random larger ones, built from real layer objects."""
from __future__ import annotations

import itertools
import random

import numpy as np

from acetone_nnet.generator.layers import ConstantLayer, InputLayer
from acetone_nnet.ir import Layer


class Node(Layer):
    """A layer with no behaviour of its own (only the graph attributes are exercised)."""

    def __init__(self, idx, size=1):
        super().__init__()
        self.idx, self.size, self.name, self.original_name = idx, size, "Node", f"n{idx}"

    def generate_inference_code_layer(self):
        return ""

    def forward_path_layer(self, inputs):
        return inputs


def const(idx):
    c = ConstantLayer(original_name=f"n{idx}", idx=idx, size=1, constant=np.ones((1, 1, 1, 1)))
    return c


def network(n, edges, ids=None, kinds=None):
    """Layers 0..n-1 with the listed (src, dst) edges; duplicates in edges are duplicated links."""
    ids = ids or list(range(n))
    kinds = kinds or {}
    ls = []
    for k in range(n):
        kind = kinds.get(k)
        if kind == "const":
            ls.append(const(ids[k]))
        elif kind == "input":
            ls.append(InputLayer(f"n{ids[k]}", ids[k], 1, [1, 1, 1, 1], "channels_first"))
        else:
            ls.append(Node(ids[k]))
    prev, nxt = {k: [] for k in range(n)}, {k: [] for k in range(n)}
    for a, b in edges:
        nxt[a].append(ls[b])
        prev[b].append(ls[a])
    for k in range(n):
        ls[k].previous_layer, ls[k].next_layer = prev[k], nxt[k]
    return ls


def describe(n, edges, order, kinds=None, ids=None):
    return f"{n} layers{' ids ' + str(ids) if ids else ''}, links {list(edges)}, listed in order {list(order)}" + \
        (f", {kinds}" if kinds else "")


def rooted(n, edges, kinds):
    """Every layer but the inputs and constants has a predecessor."""
    have = {b for _, b in edges}
    return all(k in have or kinds.get(k) in ("input", "const") for k in range(n)) and \
        all(kinds.get(b) not in ("input", "const") for _, b in edges)


def small(nmax):
    """(n, edges, order, kinds): every connected-from-one-input DAG over at most nmax layers, every listing order."""
    for n in range(1, nmax + 1):
        pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
        for m in range(1 << len(pairs)):
            edges = [p for i, p in enumerate(pairs) if m >> i & 1]
            kinds = {0: "input"}
            for k in range(1, n):
                if not any(b == k for _, b in edges):
                    kinds[k] = "const"
            variants = [edges]
            if edges and n <= 4:
                variants += [edges + [e] for e in edges]
            for es in variants:
                orders = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n)), tuple(reversed(range(n)))]
                for o in orders:
                    yield n, es, o, kinds


def random_graphs(seed, count, nmax=10):
    rnd = random.Random(seed)
    for _ in range(count):
        n = rnd.randint(2, nmax)
        p = rnd.choice([0.15, 0.3, 0.5])
        edges = [(a, b) for a in range(n) for b in range(a + 1, n) if rnd.random() < p]
        kinds = {0: "input"}
        for k in range(1, n):
            if not any(b == k for _, b in edges):
                if rnd.random() < 0.3 and any(a == k for a, _ in edges):
                    kinds[k] = "const"
                else:
                    edges.append((rnd.randrange(k), k)) if not any(kinds.get(a) == "const" and False for a in range(k)) else None
        edges = [(a, b) for a, b in edges if kinds.get(b) is None]
        if rnd.random() < 0.3 and edges:
            edges.append(rnd.choice(edges))
        rnd.shuffle(edges)
        order = list(range(n))
        rnd.shuffle(order)
        ids = rnd.sample(range(3 * n), n) if rnd.random() < 0.5 else None
        yield n, edges, order, kinds, ids


def topological(layers, out):
    """None, or what is wrong with the execution order `out` of `layers`."""
    if sorted(x.idx for x in out) != sorted(x.idx for x in layers) or {id(x) for x in out} != {id(x) for x in layers}:
        return f"execution order {[x.idx for x in out]} is not a permutation of the layers"
    pos = {id(x): k for k, x in enumerate(out)}
    for x in out:
        for p in x.previous_layer:
            if pos[id(p)] >= pos[id(x)]:
                return f"execution order {[y.idx for y in out]} runs layer {x.idx} before its input {p.idx}"
    return None


def buffers(out, maxpath, dict_cst):
    """Execute the generated program's buffer traffic: None, or the first wrong read."""
    mem = {}
    for x in out:
        if x.path is None or not 0 <= x.path < maxpath:
            return f"layer {x.idx} writes output_{x.path}, of which {maxpath} are declared"
    for x in out:
        x.find_output_str(dict_cst)
    for x in out:
        for p in x.previous_layer:
            if mem.get(p.output_str) is not p:
                h = mem.get(p.output_str)
                return (f"layer {x.idx} reads {p.output_str} expecting the output of layer {p.idx}, which then holds that of "
                        f"{'no layer' if h is None else 'layer %d' % h.idx}; paths {[(y.idx, y.path) for y in out]}, cst {dict_cst}")
        mem[f"output_{x.path}"] = x
        if x.idx in dict_cst:
            mem[f"cst_{dict_cst[x.idx]}"] = x
    if mem[f"output_{out[-1].path}"] is not out[-1]:
        return "the last layer's output is not where it was written"
    return None
