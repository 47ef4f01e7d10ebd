"""A20: activation functions."""
import ctypes
import math
import os
import random
import subprocess
import tempfile
from types import SimpleNamespace

import numpy as np

import core
import pyfront
import scalar
from acetone_nnet.generator import activation_functions as af
from cexec import Exec
from check import Task
from core import ZERO, Facts, app, c_ge, c_gt, fresh, ite, poly, rmax, rmin, sym
from cparse import Parser

ASSUMPTIONS = ["exact real arithmetic: rounding, overflow of exp, and the difference between exp and expf, are not modelled",
               "exp is characterised by exp > 0, its functional equation and exp(x) > 1 exactly when x > 0; log is an uninterpreted function"]
TRUSTED = ["numpy's exp, log, where, clip, maximum and broadcasting are given their documented elementwise meaning"]


def ex(x):
    return app("exp", x)


#: class: (parameters, precondition on them, definition over the reals, definition over floats)
DEFS = {
    "Sigmoid": ((), lambda p: [], lambda x, p: core.inv(1 + ex(-x)), lambda x: 1 / (1 + math.exp(-x))),
    "Silu": ((), lambda p: [], lambda x, p: x * core.inv(1 + ex(-x)), lambda x: x / (1 + math.exp(-x))),
    "ReLu": ((), lambda p: [], lambda x, p: rmax(x, ZERO), lambda x: max(x, 0.0)),
    "LeakyReLu": (("alpha",), lambda p: [c_ge(p["alpha"])], lambda x, p: ite(c_gt(x), x, p["alpha"] * x),
                  lambda x, alpha: x if x > 0 else alpha * x),
    "TanH": ((), lambda p: [], lambda x, p: (ex(x) - ex(-x)) * core.inv(ex(x) + ex(-x)), math.tanh),
    "Linear": ((), lambda p: [], lambda x, p: x, lambda x: x),
    "Exponential": ((), lambda p: [], lambda x, p: ex(x), math.exp),
    "Logarithm": ((), lambda p: [], lambda x, p: app("log", x), math.log),
    "Clip": (("max_value", "min_value"), lambda p: [c_ge(p["max_value"] - p["min_value"])],
             lambda x, p: rmin(rmax(x, p["min_value"]), p["max_value"]),
             lambda x, max_value, min_value: min(max(x, min_value), max_value)),
}
LOCALS = ["sum", "reduced", "out_ptr[c]", "ctx->output_0[k]", "ctx->tensor_temp[j + 7*(i + 5*f)]", "ctx->cst_3[f*(k - 1)]"]


def symbolic(name):
    ps, pre, spec, _ = DEFS[name]
    p = {n: poly(sym(n, False)) for n in ps}
    return p, pre(p), spec


def explored(fn, pre):
    F = Facts()
    for c in pre:
        F = F.assume(c)
    return pyfront.explore(fn, F)


def c_text(name):
    def fn():
        pyfront.install()
        p, pre, spec = symbolic(name)
        obs = []
        for local in LOCALS:
            def run():
                return getattr(af, name)(**{k: pyfront.SymReal(v) for k, v in p.items()}).write_activation_str(local)
            for F, text, exc, ctx in explored(run, pre):
                pyfront.CTX = ctx
                if exc is not None:
                    obs.append(("accept", f"{name}: valid parameters are accepted", False, f"{type(exc).__name__}: {exc}"))
                    continue
                x = poly(sym("x", False))
                try:
                    # the text stands on the right of an assignment, and the variable inside it is a whole operand
                    stmt = Parser(f"y = {text.replace(local, ' XVAR ')};").stmt()
                    e = Exec(F, {**pyfront.TOKENS, "XVAR": x})
                    e.declare_scalar("y", "r")
                    e.st(stmt)
                    got = e.vars["y"][1]
                    bad = [o.text for o in e.obl if not o.ok]
                except Exception as err:  # noqa: BLE001
                    obs.append(("syntax", f"{name}({local}) is a C expression of that operand", False,
                                f"{type(err).__name__}: {err} in {text}"))
                    continue
                want = spec(x, p)
                ok, cx = scalar.prove_equal(got, want, [*pre, *F.other])
                if name == "Logarithm" and not ok:
                    ok, cx = scalar.prove_equal(got, want, [*pre, c_gt(x)])
                obs.append(("post", f"{name}: C expression on {local} = definition, for every value and parameter",
                            ok and not bad, "" if ok and not bad else f"{text}: {bad} counterexample {cx}"))
        return dict(obligations=obs, functions=[f"{name}.write_activation_str"])
    return fn


def py_compute(name):
    def fn():
        pyfront.install()
        p, pre, spec = symbolic(name)
        obs = []
        for nd in (1, 2, 3, 4):
            dims = [poly(sym(f"D{i}")) for i in range(nd)]
            F0, bases = Facts(), {}
            for c in pre:
                F0 = F0.assume(c)
            for v in dims:
                F0 = F0.assume(c_ge(v - 1))

            def go():
                from prove import Builder
                b = Builder(SimpleNamespace(act=False), bases, 5)
                t = b.T("x", *[pyfront.undim(v) for v in dims])
                t.memory()
                v0 = t.ver
                a = getattr(af, name)(**{k: pyfront.SymReal(v) for k, v in p.items()})
                return a.compute(t), t, v0
            for F, val, exc, ctx in pyfront.explore(go, F0):
                pyfront.CTX = ctx
                if exc is not None:
                    obs.append(("accept", f"{name}: a tensor of {nd} dimensions is accepted", False,
                                f"{type(exc).__name__}: {exc}"))
                    continue
                out, t, v0 = val
                out = pyfront.to_tensor(out)
                same = len(out._shape) == nd and all(core.proves(core.c_eq(a - b), F) for a, b in zip(out._shape, dims))
                obs.append(("shape", f"{name}: the result has the shape of its input ({nd} dimensions)", same, str(out._shape)))
                idx = [poly(fresh("o")) for _ in dims]
                for o, s in zip(idx, dims):
                    F = F.bind(o, s)
                want = spec(t.at(*idx), p)
                got = core.normal(out.at(*idx), F)
                want = core.normal(want, F)
                ok, cx = scalar.prove_equal(got, want, pre)
                if name == "Logarithm" and not ok:
                    ok, cx = scalar.prove_equal(got, want, [*pre, c_gt(t.at(*idx))])
                obs.append(("post", f"{name}: every element of compute ({nd} dimensions) = definition", ok,
                            "" if ok else f"{got} / {want}: {cx}"))
                obs.append(("frame", f"{name}: compute leaves its argument unchanged", t.ver is v0, ""))
        return dict(obligations=obs, functions=[f"{name}.compute"])
    return fn


#: classes computing with no library function, so that a double result is exact to a rounding or two
EXACT = ("ReLu", "LeakyReLu", "Linear", "Clip")
XS = [0.0, 1e-3, -1e-3, 0.5, -0.5, 1.0, -1.0, 2.75, -2.75, 9.0, -9.0, 40.0, -40.0]


def params(name, rnd):
    if name == "LeakyReLu":
        return dict(alpha=rnd.choice([0.0, 0.01, 0.3, 1.0, 2.5, 1e-7, 1, 0, rnd.random(), rnd.random() / 3]))
    if name == "Clip":
        a, b = sorted(rnd.choice([-6.5, -1.0, -1e-7, 0.0, 0.25, 6.0, 1e20, -1e20, 3, -2, rnd.uniform(-3, 3)]) for _ in range(2))
        return dict(max_value=b, min_value=a)
    return {}


def run_real(name, seed, n=6):
    """The generated expression compiled and run, and compute, on concrete inputs: [(what, ok, detail)]."""
    pyfront.uninstall()
    rnd = random.Random(f"{seed}/{name}")
    _, _, _, ref = DEFS[name]
    xs = [abs(x) + 0.25 for x in XS] if name == "Logarithm" else XS + [rnd.uniform(-6, 6) for _ in range(12)]
    out = []
    for k in range(n if DEFS[name][0] else 1):
        pa = params(name, rnd)
        a = getattr(af, name)(**pa)
        src = ["#include <math.h>", "typedef struct { double output_0[4]; double tensor_temp[4]; } T;"]
        for i, t in enumerate(("double", "float")):
            src.append(f"double f{i}({t} sum) {{ {t} y = {a.write_activation_str('sum')}; return y; }}")
            src.append(f"double g{i}({t} v) {{ {t} arr[4] = {{0, 0, v, 0}}; int i = 1; {t} y; "
                       f"y = {a.write_activation_str('arr[i + 1]')}; return y; }}")
        with tempfile.TemporaryDirectory() as d:
            with open(os.path.join(d, "a.c"), "w") as f:
                f.write("\n".join(src))
            r = subprocess.run(["gcc", "-w", "-shared", "-fPIC", "-O0", "a.c", "-o", "a.so", "-lm"], cwd=d,
                               capture_output=True, text=True)
            if r.returncode:
                out.append((f"{name}{pa}: the expression compiles", False, r.stderr[-400:]))
                continue
            lib = ctypes.CDLL(os.path.join(d, "a.so"))
            for fn, ct in (("f0", ctypes.c_double), ("g0", ctypes.c_double), ("f1", ctypes.c_float), ("g1", ctypes.c_float)):
                f = getattr(lib, fn)
                f.restype, f.argtypes = ctypes.c_double, [ct]
                for x in xs:
                    want = ref(x, **pa)
                    got = f(x)
                    ok = abs(got - want) <= (1e-9 * abs(want) if ct is ctypes.c_double and name in EXACT else 1e-5 * max(1, abs(want)))
                    if not ok:
                        out.append((f"{name}{pa} at {x} ({fn})", False, f"C {got!r}, definition {want!r}"))
                        break
        for shape in ((len(xs),), (1, len(xs)), (len(xs), 1, 1), (1, 1, 1, len(xs))):
            x = np.array(xs, np.float64).reshape(shape)
            with np.errstate(all="ignore"):
                y = a.compute(x.copy())
            want = np.array([ref(v, **pa) for v in xs]).reshape(shape)
            ok = y.shape == want.shape and np.allclose(y, want, rtol=1e-6, atol=1e-9)
            if not ok:
                out.append((f"{name}{pa}.compute on shape {shape}", False, f"{y} / {want}"))
    return out


def search(name):
    def fn():
        bad = run_real(name, 1, 20)
        return dict(obligations=[], found=dict(status="mismatch", detail=bad[0][2], input=bad[0][0]) if bad else None)
    return fn


def samples(name, seed, n):
    def fn():
        bad = run_real(name, seed, n)
        return dict(obligations=[("run", w, ok, d) for w, ok, d in bad] or [("run", f"{name} on sampled values", True, "")])
    return fn


def tasks(tier, seed):
    out = []
    for name in DEFS:
        out.append(Task(f"{name}/C", c_text(name), 200, search(name)))
        out.append(Task(f"{name}/python", py_compute(name), 200, search(name)))
        out.append(Task(f"{name}/samples", samples(name, seed, 6 if tier == "quick" else 60), 200, label="bounded"))
    return out
