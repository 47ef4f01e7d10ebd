"""A15: fixed-point formats, quantised parameters and the shift after a matrix product."""
import itertools
import json
import os
import random
import shutil
import tempfile

import numpy as np
import z3

import bits
import prog
from acetone_nnet.generator import activation_functions as af
from acetone_nnet.generator import layers as L
from acetone_nnet.generator import neural_network as nn
from acetone_nnet.quantize import qform
from acetone_nnet.quantize.activation import QuantizeShiftActivation
from bits import IntT, RealT
from check import Task
from core import Unsupported

ASSUMPTIONS = [
    "a value is inside the representable range of the storage type (the code only logs when it is not)",
    "the accumulator type (temp_dtype) does not overflow and is wider than the shift",
    "scaling by a power of two is exact in binary floating point (no overflow, no subnormal result)",
    "C: >> of a negative integer is arithmetic and narrowing conversions keep the low bits, as gcc and clang define them",
    "formats whose result has more fractional bits than the accumulator are logged as invalid by the code and are not covered",
]
TRUSTED = ["numpy's rint, right_shift, astype and comparisons are given their documented elementwise meaning (vc/bits.py)"]
BOUNDED = ["quantised matrix-product networks of random small sizes and formats, generated, compiled and run, against integer arithmetic"]
Z = (("short", "int16", "int", "int32"), ("char", "int8", "int", "int32"), ("int8_t", "int8", "int16_t", "int16"),
     ("int", "int32", "long", "int64"), ("short", "int16", "long", "int64"))
CODES = ["ctx->tensor_temp[k]", "dotproduct", "sum", "ctx->output_0[k]", "ctx->tensor_temp[j + 7*(i + 5*f)]"]


def valid(c, side=()):
    s = z3.Solver()
    s.set("timeout", 60000)
    s.add(*side, z3.Not(c))
    r = s.check()
    return r == z3.unsat, s.model() if r == z3.sat else None


# -- formats ---------------------------------------------------------------------------------------------------


def formats():
    """Every format whose numbers of bits have at most two digits, and what is no format."""
    obs, bad = [], None
    for x, y in itertools.product(range(-64, 65), range(65)):
        if qform.parse_q_format(f"Q{x}.{y}") != (x, y):
            bad = bad or f"Q{x}.{y} is read as {qform.parse_q_format(f'Q{x}.{y}')}"
    obs.append(("enumerated", "every format Qx.y, x in -64..64, y in 0..64, is read as (x, y)", bad is None, bad or ""))
    wrong = ["", "Q", "Q.", "Q1", "Q1.", "Q.1", "1.2", "q1.2", "QQ1.2", "Q1,2", "Q1.-2", "Q1.2.3", "Q1.2 ", " Q1.2", "Q 1.2",
             "Q1. 2", "Q1.2a", "xQ1.2", "Q--1.2", "Q+1.2", "Q1x2", "Q0x1.2", "Qa.b", "Q1_2"]
    b = [w for w in wrong if qform.parse_q_format(w) is not None]
    obs.append(("enumerated", "what is no format is refused", not b, str(b)))
    return dict(obligations=obs, functions=["acetone_nnet.quantize.qform.parse_q_format"])


# -- the shift -------------------------------------------------------------------------------------------------


class Act(af.ActivationFunctions):
    """An arbitrary activation function."""

    def __init__(self):
        super().__init__()
        self.name, self.comment = "act", ""

    def compute(self, z):
        if not isinstance(z, IntT):
            raise Unsupported("activation applied to something else")
        return IntT(ACT(z.e), z.dtype)

    def write_activation_str(self, v):
        return f"1 ? ACT(2*{v} - {v}) : 0"


ACT = z3.Function("ACT", z3.BitVecSort(64), z3.BitVecSort(64))


def fits(e, n):
    return z3.And(e >= z3.BitVecVal(-(1 << n - 1), 64), e <= z3.BitVecVal((1 << n - 1) - 1, 64))


def triples(width):
    """(fraction bits of the parameters, of the input, of the output), with a shift inside the accumulator's width."""
    return [(p, i, o) for p in range(width) for i in range(width) for o in range(width) if 0 <= p + i - o < width]


def shift(ctype, pytype, acc, formats_):
    """compute() and the C text of the activation put after a matrix product, for all accumulator values."""
    cacc, pacc = acc

    def fn():
        n, m = bits.bits(pytype), bits.bits(pacc)
        v = z3.BitVec("acc", 64)
        seen, obs, count = {}, [], 0
        for p, i, o in formats_:
            if not 0 <= p + i - o < m:
                continue
            count += 1
            mk = lambda: QuantizeShiftActivation(ctype, pytype, f"Q0.{p}", f"Q1.{i}", f"Q2.{o}", Act())  # noqa: B023
            z = IntT(bits.wrap(v, pacc), pacc)
            want = z3.BitVecVal(0, 64) + (z.e >> (p + i - o))       # floor(acc * 2^o / 2^(p+i))
            pre = z3.And(fits(want, n), fits(ACT(want), n))
            for conds, r, exc in bits.paths(lambda: mk().compute(z)):  # noqa: B023
                if exc is not None:
                    obs.append(("accept", f"params .{p} in .{i} out .{o}", False, f"{type(exc).__name__}: {exc}"))
                    continue
                if not isinstance(r, IntT):
                    raise Unsupported(f"result {type(r).__name__}")
                if r.dtype != np.dtype(pytype):
                    obs.append(("post", f"params .{p} in .{i} out .{o}: type of the result", False, f"{r.dtype} instead of {pytype}"))
                c = z3.Implies(z3.And(pre, *conds), r.e == ACT(want))
                key = (z3.simplify(c).sexpr(), 0)
                if key not in seen:
                    seen[key] = valid(c)
                ok, model = seen[key]
                if not ok:
                    obs.append(("post", f"params .{p} in .{i} out .{o}: reference result", False, str(model)))
            for text in CODES:
                cc = bits.CInt(z.e, m, {"ACT": ACT})
                try:
                    got = cc.text(mk().write_activation_str(text), text)
                except Exception as e:  # noqa: BLE001
                    obs.append(("code", f"params .{p} in .{i} out .{o}: text on {text}", False, f"{type(e).__name__}: {e}"))
                    continue
                c = z3.Implies(pre, got == ACT(want))
                for kind, q in (("code", c), ("shift amount", z3.Not(z3.Or(z3.BoolVal(False), *cc.undefined)))):
                    key = (z3.simplify(q).sexpr(), 1)
                    if key not in seen:
                        seen[key] = valid(q)
                    ok, model = seen[key]
                    if not ok:
                        obs.append((kind, f"params .{p} in .{i} out .{o}: C text on {text}", False,
                                    f"{mk().write_activation_str(text)}\n{model}"))
            if len(obs) > 10:
                break
        obs.append(("post", f"{ctype}, accumulator {cacc}: for {count} triples of formats and all accumulators, the result is the "
                    "accumulator's value rounded down to the announced format", not obs and count > 0, ""))
        return dict(obligations=obs, paths=count, functions=["QuantizeShiftActivation.compute", "QuantizeShiftActivation.write_activation_str",
                                                             "QuantizeShiftActivation.__init__", "acetone_nnet.quantize.qform.parse_q_format"])
    return fn


def shift_search(ctype, pytype, acc, formats_):
    def fn():
        n, m = bits.bits(pytype), bits.bits(acc[1])
        for p, i, o in formats_:
            s = p + i - o
            if not 0 <= s < m:
                continue
            a = QuantizeShiftActivation(ctype, pytype, f"Q0.{p}", f"Q1.{i}", f"Q2.{o}", af.Linear())
            vals = [v for v in (-3, -1, 0, 1, 5, (1 << s) - 1, 1 << s, -(1 << s) - 1, (1 << s + 2) + 1, -(1 << m - 1), (1 << m - 1) - 1)
                    if -(1 << m - 1) <= v < 1 << m - 1 and -(1 << n - 1) <= v >> s < 1 << n - 1]
            z = np.array(vals, dtype=acc[1])
            got = np.asarray(a.compute(z.copy()))
            want = [v >> s for v in vals]
            if [int(v) for v in got] != want:
                return dict(obligations=[], found=dict(params=p, inp=i, out=o, accumulators=vals, result=got.tolist(), expected=want))
        return dict(obligations=[], found=None)
    return fn


# -- parameters ------------------------------------------------------------------------------------------------

KINDS = {
    "matmul": (lambda: L.MatMul(original_name="x", idx=3, size=4, input_shapes=[[1, 1, 2, 2], [1, 1, 2, 2]], activation_function=Act()),
               {"in": 0, "params": 1, "out": 2}, ()),
    "constant": (lambda: L.ConstantLayer(original_name="x", idx=3, size=2, constant=np.zeros((1, 1, 1, 2), np.float32)),
                 {"out": 1}, ("constant",)),
    "add": (lambda: L.Add(original_name="x", idx=3, size=2, input_shapes=[[1, 1, 1, 2], [1, 1, 1, 2]], output_shape=[1, 1, 1, 2],
                          activation_function=af.Linear()), {"in": 0, "params": 1, "out": 2}, ()),
    "dense": (lambda: L.Dense(original_name="x", idx=3, size=2, weights=np.zeros((2, 2), np.float32), biases=np.zeros(2, np.float32),
                              activation_function=af.Linear()), {"in": 0, "params": 1, "out": 2}, ("weights", "biases")),
    "multiply": (lambda: L.Multiply(original_name="x", idx=3, size=2, input_shapes=np.array([[1, 1, 1, 2]]), output_shape=[1, 1, 1, 2],
                                    activation_function=af.Linear(), constant=np.zeros((1, 1, 1, 2), np.float32)),
                 {"in": 0, "params": 1, "out": 2}, ("constant",)),
}


def generator(layers, conf, ctype, pytype, ctemp, ptemp):
    g = object.__new__(nn.CodeGenerator)
    g.target_cfg = {"name": "T", "cflags": "", "quantization": {"dtype": ctype, "pydtype": pytype, "temp_dtype": ctemp,
                                                                 "temp_pydtype": ptemp, "layers": conf}}
    g.layers, g.data_type, g.data_type_py = layers, ctype, np.dtype(pytype)
    return g


def parameters(kind, types, ms):
    """quantize_layers: parameters rounded to the format, accumulation type and shift of a product."""
    mk, conf, attrs = KINDS[kind]
    ctype, pytype, ctemp, ptemp = types

    def fn():
        n = bits.bits(pytype)
        obs, count = [], 0
        for m in ms:
            if any(not o[2] for o in obs):
                break                                      # the format before this one already fails
            names = {k: f"Q{3 - j}.{[m // 2 + 1, m, 2][j]}" for k, j in conf.items()}
            real = {a: (z3.Real(a), []) for a in attrs}

            def run():
                other = L.InputLayer(original_name="other", idx=0, size=2, input_shape=[1, 1, 1, 2], data_format="channels_first")
                ly = mk()
                for a in attrs:
                    real[a] = (real[a][0], [])  # noqa: B023
                    setattr(ly, a, RealT(real[a][0], np.float32, real[a][1]))  # noqa: B023
                g = generator([other, ly], {"x": names}, ctype, pytype, ctemp, ptemp)  # noqa: B023
                g.quantize_layers()
                return g.layers, {a: list(real[a][1]) for a in attrs}  # noqa: B023
            for conds, val, exc in bits.paths(run):
                count += 1
                if exc is not None:
                    obs.append(("accept", f"{kind} with {names}", False, f"{type(exc).__name__}: {exc}"))
                    continue
                (other, ly), sides = val
                for a in attrs:
                    x, side = real[a][0], sides[a]
                    q = getattr(ly, a)
                    if not isinstance(q, RealT) or q.dtype != np.dtype(pytype):
                        obs.append(("post", f"{a} of {kind} stored as {pytype}", False, str(getattr(q, "dtype", type(q)))))
                        continue
                    s = z3.RealVal(2 ** m)
                    inside = z3.And(x * s >= -(1 << n - 1), x * s <= (1 << n - 1) - 1)
                    ok, model = valid(z3.Implies(z3.And(inside, *conds), z3.And(q.e / s - x <= z3.RealVal("1/2") / s,
                                                                                x - q.e / s <= z3.RealVal("1/2") / s)), side)
                    obs.append(("post", f"{a} of {kind} in a format with {m} fractional bits: stored value within half a unit", ok, str(model or "")))
                if kind in ("matmul", "add"):
                    obs.append(("post", f"{kind} accumulates in {ptemp}", np.dtype(getattr(ly, "temp_pydtype", "O")) == np.dtype(ptemp),
                                str(getattr(ly, "temp_pydtype", None))))
                if kind == "matmul":
                    v = z3.BitVec("acc", 64)
                    z = IntT(bits.wrap(v, ptemp), ptemp)
                    sh = m // 2 + 1 + m - 2
                    want = z.e >> sh
                    if 0 <= sh < bits.bits(ptemp):
                        for c2, r, e2 in bits.paths(lambda: ly.activation_function.compute(z)):  # noqa: B023
                            if e2 is not None:
                                obs.append(("accept", f"{kind} with {names}", False, f"{type(e2).__name__}: {e2}"))
                                continue
                            ok, model = valid(z3.Implies(z3.And(fits(want, n), fits(ACT(want), n), *c2), r.e == ACT(want)))
                            obs.append(("post", f"product with {names}: reference result", ok and r.dtype == np.dtype(pytype), str(model or r.dtype)))
                        t = ly.activation_function.write_activation_str(CODES[0])
                        cc = bits.CInt(z.e, bits.bits(ptemp), {"ACT": ACT})
                        ok, model = valid(z3.Implies(z3.And(fits(want, n), fits(ACT(want), n)), cc.text(t, CODES[0]) == ACT(want)))
                        obs.append(("post", f"product with {names}: C text", ok, f"{t} {model or ''}"))
                bad = [a for a in ("qin", "qout", "activation_function") if hasattr(other, a) and a != "activation_function"]
                obs.append(("frame", "a layer without configuration is left alone", not bad and not hasattr(other, "temp_pydtype"), str(bad)))
        return dict(obligations=obs, paths=count, functions=["CodeGenerator.quantize_layers"])
    return fn


def parameters_search(kind, types, ms):
    mk, conf, attrs = KINDS[kind]
    ctype, pytype, ctemp, ptemp = types

    def fn():
        n = bits.bits(pytype)
        rng = random.Random(3)
        for m in ms:
            names = {k: f"Q{3 - j}.{[m // 2 + 1, m, 2][j]}" for k, j in conf.items()}
            ly = mk()
            old = {}
            for a in attrs:
                vals = [k / 2 ** m for k in [0, 1, -1, (1 << n - 2) - 1, -(1 << n - 2)]]
                vals += [(rng.randint(-(1 << min(n, 22) - 2), 1 << min(n, 22) - 2) + rng.choice([0.25, 0.5, 0.75])) / 2 ** m for _ in range(20)]
                old[a] = np.array(vals, dtype=np.float64)
                setattr(ly, a, old[a].copy())
            generator([ly], {"x": names}, ctype, pytype, ctemp, ptemp).quantize_layers()
            for a in attrs:
                q = np.asarray(getattr(ly, a))
                if q.dtype != np.dtype(pytype):
                    return dict(obligations=[], found=dict(kind=kind, attribute=a, type=str(q.dtype), expected=pytype))
                err = np.abs(q.astype(np.float64) / 2 ** m - old[a])
                if (err > 0.5 / 2 ** m).any():
                    j = int(np.argmax(err))
                    return dict(obligations=[], found=dict(kind=kind, attribute=a, fractional_bits=m, value=float(old[a][j]),
                                                           stored=int(q[j]), stored_value=float(q[j]) / 2 ** m))
            if kind == "matmul":
                sh = m // 2 + 1 + m - 2
                if not 0 <= sh < bits.bits(ptemp) - 1:
                    continue
                ly.activation_function.activation = af.Linear()
                vals = [v for v in (-3, 0, 7, (1 << sh) * 3 + 1, -(1 << sh) - 1) if -(1 << n - 1) <= v >> sh < 1 << n - 1]
                got = [int(v) for v in ly.activation_function.compute(np.array(vals, dtype=ptemp))]
                if got != [v >> sh for v in vals]:
                    return dict(obligations=[], found=dict(kind=kind, formats=names, accumulators=vals, result=got))
        return dict(obligations=[], found=None)
    return fn


# -- whole programs, run ---------------------------------------------------------------------------------------


def network(rng, dims, w, relu):
    M, K, N = dims
    i = L.InputLayer(original_name="i", idx=0, size=M * K, input_shape=[1, 1, M, K], data_format="channels_first")
    c = L.ConstantLayer(original_name="w", idx=1, size=K * N, constant=w.reshape(1, 1, K, N).copy())
    m = L.MatMul(original_name="m", idx=2, size=M * N, input_shapes=[[1, 1, M, K], [1, 1, K, N]],
                 activation_function=af.ReLu() if relu else af.Linear())
    i.next_layer, c.next_layer, m.previous_layer = [m], [m], [i, c]
    i.path, c.path, m.path = 1, 0, 0
    return [i, c, m]


def execute(g, x, n, ctype):
    import conc
    d = tempfile.mkdtemp(prefix="vcq_", dir=prog.scratch())
    try:
        for f, t in g.files.items():
            if f != "Makefile":
                with open(os.path.join(d, f), "w") as fh:
                    fh.write(t)
        with open(os.path.join(d, "replay.c"), "w") as fh:
            fh.write('#include <stdio.h>\n#include <string.h>\n#include <math.h>\n#include "parameters.c"\n#include "global_vars.c"\n'
                     f'#include "inference.c"\nstatic inference_t C;\nint main(void){{ static {ctype} in[]={{'
                     + ",".join(str(int(v)) for v in x) + f"}}, out[{n}]; int i; inference(&C,out,in);"
                     f'for(i=0;i<{n};++i) printf("%ld\\n",(long)out[i]); return 0; }}\n')
        r = conc.compile_run(d, ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], "memory")
        return r.detail if isinstance(r, conc.Result) else [int(v) for v in r.split()]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def programs(seed, n):
    def fn():
        rng = random.Random(seed)
        obs = []
        cwd = tempfile.mkdtemp(prefix="vcq_", dir=prog.scratch())
        os.chdir(cwd)
        try:
            for _ in range(n):
                ctype, pytype, ctemp, ptemp = rng.choice(Z[:2])
                b = bits.bits(pytype)
                M, K, N = rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 3)
                small = min(b, 20)
                fp, fi = rng.randint(max(1, small - 5), small - 1), rng.randint(max(1, small - 5), small - 1)
                fo = rng.randint(0, small - 5)
                conf = {"w": {"out": f"Q{small - 1 - fp}.{fp}"},
                        "m": {"in": f"Q0.{fi}", "params": f"Q0.{fp}", "out": f"Q2.{fo}"}}
                lim = 1 << small - 1
                wq = [rng.randint(-lim, lim - 1) for _ in range(K * N)]
                w = np.array([(v + rng.choice([-0.25, 0, 0.25])) / 2 ** fp if -lim < v < lim - 1 else v / 2 ** fp for v in wq], dtype=np.float64)
                x = [rng.randint(-lim, lim - 1) for _ in range(M * K)]
                relu = rng.random() < 0.5
                sh = fp + fi - fo
                acc = [sum(x[r * K + k] * wq[k * N + c] for k in range(K)) for r in range(M) for c in range(N)]
                want = [v >> sh for v in acc]
                name = f"{ctype}/{ctemp} {M}x{K}x{N} {conf} relu={relu}"
                if any(not -(1 << b - 1) <= v < 1 << b - 1 for v in want) or any(abs(v) >= 1 << bits.bits(ptemp) - 2 for v in acc):
                    continue
                want = [max(v, 0) for v in want] if relu else want
                try:
                    with open("AVX512VNNI.json", "w") as f:
                        json.dump({"name": "T", "cflags": "-O1", "quantization": {"dtype": ctype, "temp_dtype": ctemp, "pydtype": pytype,
                                                                                  "temp_pydtype": ptemp, "layers": conf}}, f)
                    g = prog.program(network(rng, (M, K, N), w, relu), {}, everything=True, target="AVX512VNNI",
                                     test_dataset=np.array([x], dtype=pytype))
                    got = execute(g, x, M * N, ctype)
                    with tempfile.TemporaryDirectory(prefix="vc_") as t:
                        py = [int(v) for v in g.gen.compute_inference(t)]
                except Exception as e:  # noqa: BLE001
                    obs.append(("run", name, False, f"{type(e).__name__}: {e}"))
                    continue
                ok = got == want and py == want
                obs.append(("run", name, ok, "" if ok else f"input {x}, weights {w.tolist()}: program {got}, reference inference {py}, expected {want}"))
        finally:
            os.chdir("/")
        return dict(obligations=obs)
    return fn


def wide():
    """Values as wide as int: their product needs the accumulator's type."""
    cwd = tempfile.mkdtemp(prefix="vcq_", dir=prog.scratch())
    os.chdir(cwd)
    try:
        conf = {"w": {"out": "Q0.19"}, "m": {"in": "Q0.15", "params": "Q0.19", "out": "Q2.6"}}
        with open("AVX512VNNI.json", "w") as f:
            json.dump({"name": "T", "cflags": "-O1", "quantization": {"dtype": "int", "temp_dtype": "long", "pydtype": "int32",
                                                                      "temp_pydtype": "int64", "layers": conf}}, f)
        w, x = np.array([0.75, -0.5]), [275997, 359166]
        g = prog.program(network(None, (1, 1, 2), w, False), {}, everything=True, target="AVX512VNNI",
                         test_dataset=np.array([x[:1]], dtype="int32"))
        got = execute(g, x[:1], 2, "int")
        want = [(x[0] * int(v * (1 << 19))) >> 28 for v in w]
    finally:
        os.chdir("/")
    return dict(obligations=[("run", "product of 32-bit values accumulated in long", got == want, f"input {x[:1]} weights {w.tolist()}: {got}, expected {want}")])


def tasks(tier, seed):
    out = [Task("formats", formats, 120)]
    for ctype, pytype, ctemp, ptemp in Z:
        fs = triples(16 if tier == "quick" else 31)
        if tier == "quick":
            rng = random.Random(seed)
            fs = rng.sample(fs, 700) + [t for t in triples(8)][::3]
        out.append(Task(f"shift/{ctype}/{ctemp}", shift(ctype, pytype, (ctemp, ptemp), fs), 400 if tier == "quick" else 1500,
                        shift_search(ctype, pytype, (ctemp, ptemp), fs), weight=4))
    for kind in KINDS:
        for t in (Z[0], Z[1], Z[3]):
            ms = range(bits.bits(t[1])) if bits.bits(t[1]) < 32 else range(0, 31)
            out.append(Task(f"quantize_layers/{kind}/{t[0]}", parameters(kind, t, ms), 300, parameters_search(kind, t, ms)))
    for k in range(3):
        out.append(Task(f"programs/{k}", programs(seed * 10 + k, 6 if tier == "quick" else 40), 600, label="bounded"))
    out.append(Task("programs/wide", wide, 200, label="bounded"))
    return out
