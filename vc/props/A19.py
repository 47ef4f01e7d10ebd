"""A19: conversions between channels-first and channels-last."""
import itertools
import os
import random
import tempfile
from fractions import Fraction
from types import SimpleNamespace

import numpy as np

import core
import prog
import pyfront
from acetone_nnet.generator import layers as L
from acetone_nnet.generator.activation_functions import Linear, ReLu
from case import Access
from casetasks import Covered, case_tasks, relevant
from check import Task
from core import Facts, fresh, poly, sym
from layers import elementwise, layout
from prove import Builder, equal

ASSUMPTIONS = ["exact real arithmetic", "a channels-last network is given its input, and gives its output, with channels last",
               "layers other than input, flatten, pooling, convolution and output ignore the data format: their "
               "implementations are generated for channels-first storage"]
TRUSTED = ["numpy's transpose and reshape are given their documented meaning"]
BOUNDED = ["networks input/pooling/flatten/dense of random small sizes generated in all four combinations of formats, compiled and run"]
CF, CL = layout.CF, layout.CL


def net(kind, dims, T):
    """A network whose last tensor has channels, or is a vector."""
    C, H, W = dims
    n = C * H * W
    i = L.InputLayer(original_name="i", idx=0, size=n, input_shape=[1, C, H, W], data_format=CF)
    if kind == "flatten":
        y = L.Flatten(original_name="f", idx=1, size=n, input_shape=[1, C, H, W], data_format=CF)
    else:
        y = L.BatchNormalization(original_name="n", idx=1, size=n, input_shape=[1, C, H, W], epsilon=0.5,
                                 scale=T("scale", C), biases=T("b", C), mean=T("mean", C), var=T("var", C),
                                 activation_function=Linear())
    i.next_layer, y.previous_layer = [y], [i]
    i.path = y.path = 0
    return [i, y]


def inference(kind, fmt, debug):
    """compute_inference on a symbolic input: layout of what the layers receive and of what is returned."""
    def fn():
        pyfront.install()
        d = {n: poly(sym(n)) for n in "CHW"}
        F = Facts()
        for n in "CHW":
            F.lower(d[n], 1)
        dd = [pyfront.undim(d[n]) for n in "CHW"]
        bases = {}
        tensor = Builder(SimpleNamespace(act=False), bases, 5).T

        def run():
            layers = net(kind, dd, tensor)
            for ly in layers:
                if hasattr(ly, "data_format"):
                    ly.data_format = fmt
            g = prog.codegen(layers, {}, data_format=fmt)
            g.read_ext_input = False
            g.data2c = lambda v: "x"
            x = tensor("x", dd[0] * dd[1] * dd[2])
            g.test_dataset = [x]
            g.debug_mode = "keras" if debug else None
            g.debug_target = [1] if debug else []
            with tempfile.TemporaryDirectory(prefix="vc_") as t:
                r = g.compute_inference(t)
            return r[0][0] if debug else r
        obs = []
        with Covered() as cov:
            paths = pyfront.explore(run, F)
        for pf, val, exc, ctx in paths:
            pyfront.CTX = ctx
            if exc is not None:
                obs.append(("accept", f"inference of a {fmt} network", False, f"{type(exc).__name__}: {exc}"))
                continue
            out = pyfront.to_tensor(val)
            C, H, W = (d[n] for n in "CHW")
            shape = (H, W, C) if fmt == CL else (C, H, W)
            os_ = [poly(fresh(f"o{k}")) for k in range(3)]
            G = pf
            for o, s in zip(os_, shape):
                G = G.bind(o, s)
            x = Access(bases["x"], shape)(*os_)
            c = os_[2] if fmt == CL else os_[0]
            if kind != "flatten":
                v = lambda n: Access(bases[n], (C,))(c)
                x = v("scale") * pyfront.rdiv(x - v("mean"), elementwise.sqrt(v("var") + poly(Fraction(1, 2)))) + v("b")
            k = core.ZERO
            for o, s in zip(os_, shape):
                k = k * s + o
            obs.append(("shape", "the returned output is flat", len(out._shape) == 1 and
                        core.proves(core.c_eq(out._shape[0] - C * H * W), pf), str(out._shape)))
            ok, a, b = equal(out.at(k), x, G)
            obs.append(("post", f"inference of a {fmt} network returns its {'intermediate ' * debug}tensor in {fmt} order", ok,
                        "" if ok else f"code: {a}\nspec: {b}"))
        return dict(obligations=obs, paths=len(paths), functions=sorted(n for n in cov.names if relevant(n)))
    return fn


# -- whole programs, run ---------------------------------------------------------------------------


def pooled(x, k, s):
    C, H, W = x.shape
    oh, ow = (H - k) // s + 1, (W - k) // s + 1
    y = np.zeros((C, oh, ow), dtype=np.float32)
    for i, j in itertools.product(range(oh), range(ow)):
        y[:, i, j] = x[:, i * s:i * s + k, j * s:j * s + k].max(axis=(1, 2))
    return y


def network(rng, dims, k, s, tail, fmt, w, bias):
    C, H, W = dims
    oh, ow = (H - k) // s + 1, (W - k) // s + 1
    ls = [L.InputLayer(original_name="i", idx=0, size=C * H * W, input_shape=[1, C, H, W], data_format=fmt),
          L.MaxPooling2D(original_name="p", idx=1, size=C * oh * ow, padding="valid", strides=s, pool_size=k,
                         input_shape=[1, C, H, W], output_shape=[1, C, oh, ow], activation_function=Linear())]
    if tail:
        ls += [L.Flatten(original_name="f", idx=2, size=C * oh * ow, input_shape=[1, C, oh, ow], data_format=fmt),
               L.Dense(original_name="d", idx=3, size=w.shape[1], weights=w, biases=bias, activation_function=Linear())]
    for k, (a, b) in enumerate(zip(ls, ls[1:])):
        a.next_layer, b.previous_layer = [b], [a]
    for k, ly in enumerate(ls):
        ly.path = k % 2
    return ls


def run_program(g, x, n):
    import conc
    d = tempfile.mkdtemp(prefix="vca_", dir=prog.scratch())
    try:
        for f, t in g.files.items():
            if f != "Makefile":
                with open(os.path.join(d, f), "w") as fh:
                    fh.write(t)
        with open(os.path.join(d, "replay.c"), "w") as fh:
            fh.write('#include <stdio.h>\n#include <string.h>\n#include <math.h>\n#include "parameters.c"\n#include "global_vars.c"\n'
                     '#include "inference.c"\nstatic inference_t C;\nint main(void){ static float in[]={'
                     + ",".join(repr(float(v)) for v in x) + f"}}, out[{n}]; int i; inference(&C,out,in);"
                     f'for(i=0;i<{n};++i) printf("%.9g\\n",(double)out[i]); return 0; }}\n')
        r = conc.compile_run(d, ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], "memory")
        return r.detail if isinstance(r, conc.Result) else [float(v) for v in r.split()]
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def programs(seed, n):
    def fn():
        pyfront.uninstall()
        rng = random.Random(seed)
        obs = []
        for _ in range(n):
            C, H, W = rng.randint(1, 4), rng.randint(2, 5), rng.randint(2, 5)
            k, s = rng.randint(1, 2), rng.randint(1, 2)
            tail = rng.random() < 0.6
            x = np.array([rng.randint(-9, 9) for _ in range(C * H * W)], dtype=np.float32).reshape(C, H, W)
            y = pooled(x, k, s)
            w = np.array([rng.randint(-3, 3) for _ in range(y.size * 3)], dtype=np.float32).reshape(y.size, 3)
            b = np.array([1, -2, 3], dtype=np.float32)
            for fmt, gen in itertools.product((CF, CL), (CF, CL)):
                name = f"C={C} H={H} W={W} pool {k} stride {s} {'flatten dense ' * tail}{fmt} generated {gen}"
                hwc = (lambda t: t.transpose(1, 2, 0)) if fmt == CL else (lambda t: t)
                want = hwc(y).flatten()
                if tail:
                    want = want @ w + b
                try:
                    ls = network(rng, (C, H, W), k, s, tail, fmt, w, b)
                    vers = {1: "channels_last"} if gen == CL else None
                    g = prog.program(ls, {}, everything=True, versions=vers, data_format=fmt, gen_data_format=gen,
                                     test_dataset=hwc(x).flatten()[None].copy())
                    got = run_program(g, hwc(x).flatten(), want.size)
                    with tempfile.TemporaryDirectory(prefix="vc_") as t:
                        py = list(map(float, g.gen.compute_inference(t)))
                except Exception as e:  # noqa: BLE001
                    obs.append(("run", name, False, f"{type(e).__name__}: {e}"))
                    continue
                ok = got == list(map(float, want)) and py == list(map(float, want))
                obs.append(("run", name, ok, "" if ok else f"input {x.tolist()} (channels first): program {got}, "
                            f"reference inference {py}, expected {want.tolist()}"))
        return dict(obligations=obs)
    return fn


def activation_last():
    """A stand-alone activation at the end of a channels-last network."""
    pyfront.uninstall()
    C, H, W = 2, 2, 3
    x = np.arange(-5, C * H * W - 5, dtype=np.float32).reshape(C, H, W)
    ls = [L.InputLayer(original_name="i", idx=0, size=x.size, input_shape=[1, C, H, W], data_format=CL),
          L.ActivationLayer(original_name="a", idx=1, size=x.size, activation_function=ReLu())]
    ls[0].next_layer, ls[1].previous_layer = [ls[1]], [ls[0]]
    ls[0].path, ls[1].path = 0, 1
    hwc = x.transpose(1, 2, 0).flatten()
    want = [max(float(v), 0.0) for v in hwc]
    g = prog.program(ls, {}, everything=True, data_format=CL, test_dataset=hwc[None].copy())
    got = run_program(g, hwc, x.size)
    return dict(obligations=[("run", "the output of an activation layer ending a channels-last network is in channels-last order",
                              got == want, f"input {hwc.tolist()}: program {got}, expected {want}")])


def tasks(tier, seed):
    out = case_tasks(layout.CASES, ["code"], tier, seed)
    out += case_tasks([c for c in layout.CASES if c.name.startswith("flatten")], ["python"], tier, seed)
    srch = lambda: dict(obligations=[], found=next((dict(detail=o[3], name=o[1], mode="run") for o in programs(seed, 12)()["obligations"]
                                                    if not o[2]), None))
    for kind in ("normalization", "flatten"):
        for fmt in (CF, CL):
            for debug in (False, True):
                out.append(Task(f"compute_inference/{kind}/{fmt}{'/debug' * debug}", inference(kind, fmt, debug), 200, srch))
    for k in range(4):
        out.append(Task(f"programs/{k}", programs(seed * 10 + k, 3 if tier == "quick" else 30), 600, label="bounded"))
    out.append(Task("programs/activation", activation_last, 200, label="bounded"))
    return out
