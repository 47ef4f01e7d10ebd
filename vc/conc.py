"""The concrete side of a Case: the real generator and the real C compiler on actual numbers.

Used to turn a failed obligation into an input that makes the real code misbehave, to replay it,
and to cross-check the contracts themselves on sampled inputs.
"""
from __future__ import annotations

import json
import math
import os
import random
import resource
import shutil
import subprocess
import tempfile

import boot  # noqa: F401
import ceval
import core
import numpy as np
from case import D, Tensors
from core import fresh, poly
from prog import ACT_C, ActStub, act_value

SENT = 4096.5


class ConcBuilder:
    symbolic = False

    def __init__(self, case, idx, rnd, arrays):
        self.case, self.idx, self.rnd, self.arrays = case, idx, rnd, arrays
        if case.act:
            self.act = ActStub()
        else:
            from acetone_nnet.generator.activation_functions import Linear
            self.act = Linear()

    def values(self, name, n, isint=False):
        if name not in self.arrays:
            r = self.case.values.get(name)
            if r:
                self.arrays[name] = [float(r(self.rnd)) for _ in range(n)]
            elif isint:
                self.arrays[name] = [self.rnd.randint(0, 50) for _ in range(n)]
            else:
                self.arrays[name] = [float(self.rnd.randint(-4, 4)) for _ in range(n)]
        a = self.arrays[name]
        if len(a) != n:
            raise ValueError(f"size of {name}")
        return a

    def T(self, name, *shape):
        n = math.prod(int(s) for s in shape)
        return np.array(self.values(name, n), dtype=np.float32).reshape([int(s) for s in shape])

    def I(self, name, lo, hi, *shape):
        n = math.prod(int(s) for s in shape)
        lo, hi = int(lo), int(hi)
        a = self.values(name, n, True)
        a[:] = vals = [int(x) if lo <= x < hi else lo + int(x) % (hi - lo) for x in a]
        return np.array(vals, dtype=np.int64).reshape([int(s) for s in shape])


class Result:
    def __init__(self, status, detail="", **kw):
        self.status, self.detail = status, detail
        self.info = kw

    @property
    def bad(self):
        return self.status != "ok"


def env_of(case, v, arrays):
    syms = case.symbols()
    env = {syms[n].single_atom(): x for n, x in v.items()}
    env["arrays"] = arrays
    env["apps"] = {"ACT": act_value}
    return env


def concrete_shapes(case, v):
    syms = case.symbols()
    env = env_of(case, v, {})
    ev = lambda p: int(ceval.poly_value(poly(p), env))
    return ([[ev(s) for s in sh] for sh in case.in_shapes(D(syms))],
            [ev(s) for s in case.out_shape(D(syms))],
            [[ev(s) for s in sh] for sh in (case.py_in or case.in_shapes)(D(syms))])


def expected(case, v, arrays, oshape, io=None):
    syms = case.symbols()
    from arrays import Base
    shapes = case.in_shapes(D(syms))
    bases = {}
    W = Tensors(bases)
    X = [W("in0" if io is not None and io.same else f"in{k}", *sh) for k, sh in enumerate(shapes)]
    os_ = [poly(fresh(f"q{k}")) for k in range(len(oshape))]
    term = case.spec(D(syms), X, W, tuple(os_))
    return ceval.tensor_values(term, [o.single_atom() for o in os_], oshape, env_of(case, v, arrays))


def close(a, b, tol=2e-4):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def fill_inputs(case, shapes, b, io=None):
    for k, sh in enumerate(shapes):
        if io is not None and io.same and k:
            continue
        b.values(f"in{k}", math.prod(sh))


def run_code(case, io, v, rnd=None, arrays=None, sanitize=True, keep=None):
    """Generate, compile and run the real program for one concrete configuration."""
    import prog
    import prove
    arrays = {} if arrays is None else arrays
    rnd = rnd or random.Random(0)
    import pyfront
    pyfront.uninstall()
    shapes, oshape, _ = concrete_shapes(case, v)
    b = ConcBuilder(case, 5, rnd, arrays)
    base = dict(case=case.name, io=io.name, sizes=v)
    try:
        stubs, layer, dict_cst = prove.make_layers(case, b, v, shapes, io)
        top = max([*io.paths, io.path]) + 2
        g = prog.program([*stubs, layer], dict_cst, everything=True,
                         versions={5: case.versions} if case.versions else None, maxpath=top,
                         data_format=case.data_format, gen_data_format=case.gen_data_format)
    except Exception as e:  # noqa: BLE001
        return Result("refused", f"{type(e).__name__}: {e} @ {prove.where(e)}", **base, arrays=arrays)
    fill_inputs(case, shapes, b, io)
    if case.nn_input:
        b.values("nn_input", math.prod(int(x) for x in case.nn_input(D(v))))
    try:
        want = expected(case, v, arrays, oshape, io)
    except (ceval.Undefined, OverflowError):
        return Result("ok", "specification undefined on this input")
    base["arrays"] = arrays
    return compare_run(g, stubs, dict_cst, io, arrays, want, base, sanitize, prediction(case, v, oshape), keep)


def prediction(case, v, oshape):
    """For each element of the program's output, the element of the layer's output it is."""
    if case.pred is None:
        return list(range(math.prod(oshape))) if case.data_format == case.gen_data_format else None
    psh, src = case.pred
    psh = [int(x) for x in psh(D(v))]
    if src is None:
        return list(range(math.prod(psh)))
    return [int(np.ravel_multi_index(src(*p), oshape)) for p in np.ndindex(*psh)]


def compare_run(g, stubs, dict_cst, io, arrays, want, base, sanitize, same, keep=None):
    import prog
    fields, _ = prog.split_header(g.header)
    d = keep or tempfile.mkdtemp(prefix="vcr_", dir=prog.scratch())
    try:
        for n, t in g.files.items():
            if n != "Makefile":
                with open(os.path.join(d, n), "w") as f:
                    f.write(t)
        main = ['#include <stdio.h>', '#include <string.h>', '#include <math.h>', ACT_C,
                '#include "parameters.c"', '#include "global_vars.c"', '#include "inference.c"',
                'static inference_t C;', 'int main(void){ int i;']
        for ty, n, _ in fields:
            main.append(f'for(i=0;i<(int)(sizeof(C.{n})/sizeof(C.{n}[0]));++i) C.{n}[i]={SENT};')
        load = {}
        for k, s in enumerate(stubs):
            vals = arrays.get(f"in{k}", [])
            if vals:
                main.append(f"{{static const double L[]={{{','.join(repr(x) for x in vals)}}};"
                            f"for(i=0;i<{len(vals)};++i) C.output_{s.path}[i]=L[i];}}")
            load[s.path] = k
        npred = len(want)
        main.append(f"static float pred[{npred}]; static float inp[{max(1, len(arrays.get('nn_input', arrays.get('in0', [0]))))}];"
                    .replace("float", g.gen.data_type))
        if arrays.get("nn_input"):
            vals = arrays["nn_input"]
            main.append(f"{{static const double L[]={{{','.join(repr(x) for x in vals)}}};"
                        f"for(i=0;i<{len(vals)};++i) inp[i]=L[i];}}")
        main.append("inference(&C, pred, inp);")
        for ty, n, _ in fields:
            main.append(f'printf("{n}"); for(i=0;i<(int)(sizeof(C.{n})/sizeof(C.{n}[0]));++i) '
                        f'printf(" %.9g",(double)C.{n}[i]); printf("\\n");')
        main.append(f'printf("prediction"); for(i=0;i<{npred};++i) printf(" %.9g",(double)pred[i]); printf("\\n");')
        main.append("return 0;}")
        with open(os.path.join(d, "replay.c"), "w") as f:
            f.write("\n".join(main) + "\n")
        r = compile_run(d, ["-O0"])
        if isinstance(r, Result):
            r.info.update(base)
            return r
        vals = {}
        for ln in r.splitlines():
            p = ln.split()
            if p:
                vals[p[0]] = [float(x) for x in p[1:]]
        targets = [f"output_{io.path}"] + (["cst_7"] if io.own_cst else []) + (["prediction"] if same else [])
        layer_out = want
        for t in targets:
            want = [layer_out[k] for k in same] if t == "prediction" else layer_out
            got = vals.get(t, [])[:len(want)]
            if len(got) < len(want):
                return Result("mismatch", f"{t} has {len(got)} elements, {len(want)} expected", **base)
            for i, (x, y) in enumerate(zip(got, want)):
                if not close(x, y):
                    return Result("mismatch", f"{t}[{i}] = {x!r}, the specification gives {y!r}",
                                  **base, got=got, want=want, target=t)
        may = {f"output_{io.path}", "tensor_temp", "prediction"} | {f"output_{s.path}" for s in stubs}
        may |= {f"cst_{x}" for x in dict_cst.values()}
        for n, xs in vals.items():
            if n not in may and any(x != SENT for x in xs):
                return Result("frame", f"{n} was modified", **base)
        for k, s in enumerate(stubs):
            if s.idx in dict_cst and f"in{k}" in arrays:
                xs, ys = vals[f"cst_{dict_cst[s.idx]}"], arrays[f"in{k}"]
                if any(not close(x, y) for x, y in zip(xs, ys)):
                    return Result("frame", f"cst_{dict_cst[s.idx]} no longer holds input {k}", **base)
        if sanitize:
            r = compile_run(d, ["-O0", "-g", "-fsanitize=undefined,address", "-fno-sanitize-recover=all"], "memory")
            if isinstance(r, Result):
                r.info.update(base)
                return r
        return Result("ok")
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


def no_limit():
    # AddressSanitizer reserves a large range of addresses
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


def compile_run(d, flags, label="crash"):
    r = subprocess.run(["gcc", "-w", *flags, "replay.c", "-o", "replay", "-lm"], cwd=d, capture_output=True, text=True,
                       timeout=120)
    if r.returncode:
        err = [ln for ln in r.stderr.splitlines() if "error" in ln][:3]
        return Result("compile", "the generated program does not compile: " + " | ".join(err))
    try:
        r = subprocess.run(["./replay"], cwd=d, capture_output=True, text=True, timeout=30, preexec_fn=no_limit,
                           env={**os.environ, "ASAN_OPTIONS": "detect_leaks=0"})
    except subprocess.TimeoutExpired:
        return Result(label, "the generated program does not terminate")
    if r.returncode:
        err = [ln for ln in r.stderr.splitlines() if "error" in ln.lower()][:3]
        return Result(label, f"exit code {r.returncode}: " + " | ".join(err))
    return r.stdout


def run_python(case, variant, v, rnd=None, arrays=None):
    """The real reference inference on one concrete configuration."""
    import prog
    import prove
    import pyfront
    pyfront.uninstall()
    arrays = {} if arrays is None else arrays
    rnd = rnd or random.Random(0)
    shapes, oshape, pshapes = concrete_shapes(case, v)
    b = ConcBuilder(case, 5, rnd, arrays)
    base = dict(case=case.name, variant=variant, sizes=v, arrays=arrays)
    io = prove.ios_for(len(shapes))[0]
    try:
        stubs, layer, dict_cst = prove.make_layers(case, b, v, shapes, io)
        g = prog.codegen([*stubs, layer], dict_cst, versions={5: case.versions} if case.versions else None,
                         maxpath=4, data_format=case.data_format, gen_data_format=case.gen_data_format)
        layer = g.layers[-1]
        fill_inputs(case, shapes, b)
        ins = []
        for k, sh in enumerate(pshapes):
            t = np.array(arrays[f"in{k}"], dtype=np.float32)
            ins.append(t if variant == "flat" else t.reshape(sh))
        before = [t.copy() for t in ins]
        with np.errstate(all="ignore"):
            out = layer.forward_path_layer(ins if len(ins) > 1 else ins[0] if ins else None)
    except Exception as e:  # noqa: BLE001
        if case.may_refuse:
            return Result("ok", "refused")
        return Result("refused", f"{type(e).__name__}: {e} @ {prove.where(e)}", **base)
    try:
        want = expected(case, v, arrays, oshape)
    except (ceval.Undefined, OverflowError):
        return Result("ok", "specification undefined on this input")
    got = [float(x) for x in np.asarray(out).ravel()]
    if len(got) != len(want):
        return Result("shape", f"{len(got)} elements, {len(want)} expected", **base)
    for i, (x, y) in enumerate(zip(got, want)):
        if not close(x, y):
            return Result("mismatch", f"element {i} is {x!r}, the specification gives {y!r}", **base, got=got, want=want)
    for k, (t, u) in enumerate(zip(ins, before)):
        if not np.array_equal(t, u):
            return Result("frame", f"input {k} is modified", **base)
    return Result("ok")


def run(case, mode, io_or_variant, v, seed=0, arrays=None):
    rnd = random.Random(seed)
    if mode == "code":
        return run_code(case, io_or_variant, v, rnd, arrays)
    return run_python(case, io_or_variant, v, rnd, arrays)


def search(case, mode, io, seconds=25, tries=60, seed=1, want=None):
    """Look for a concrete configuration on which the real code violates the contract."""
    import time
    t0 = time.time()
    rnd = random.Random(seed)
    n = 0
    for t in range(tries):
        if time.time() - t0 > seconds:
            break
        v = case.draw(rnd, scale=3 + t // 10)
        if v is None:
            continue
        n += 1
        r = run(case, mode, io, v, seed=seed * 1000 + t)
        if r.bad and (want is None or r.status in want):
            r.info["tried"] = n
            r.info["seed"] = seed * 1000 + t
            return r
    return None
