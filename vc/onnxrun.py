"""ONNX models through the repository's importer, compared with their evaluation by onnxruntime.

The oracle for imported models: loading is refused, or the imported network computes the model."""
import math
import tempfile
from pathlib import Path

import numpy as np
import onnx
import onnxruntime
import prog
from acetone_nnet.generator import neural_network as nn
from onnx import helper as H
from onnx import numpy_helper

F = onnx.TensorProto.FLOAT
REFUSED = "refused"


def model(nodes, inputs, outputs, inits=None, opset=18, infos=None):
    """inputs, outputs: {name: shape}; inits: {name: array}; infos: shapes of inner tensors (inferred when absent)."""
    vi = lambda d: [H.make_tensor_value_info(n, F, s) for n, s in d.items()]
    g = H.make_graph(nodes, "g", vi(inputs), vi(outputs), [numpy_helper.from_array(np.asarray(a), n) for n, a in (inits or {}).items()],
                     value_info=vi(infos or {}))
    m = H.make_model(g, opset_imports=[H.make_opsetid("", opset)])
    m.ir_version = 8
    return m


def one(op, ins, out, inits=None, opset=18, names=None, **attrs):
    """A model of one node: ins: shapes of its inputs x0, x1, ...; out: shape of its output; names: order of its operands."""
    inputs = {f"x{k}": s for k, s in enumerate(ins)}
    n = H.make_node(op, names if names is not None else [*inputs, *(inits or {})], ["y"], **attrs)
    return model([n], inputs, {"y": out}, inits, opset)


class Failure(Exception):
    pass


def reference(m, feeds):
    # (the evaluator of the onnx package is wrong on padding "VALID", "SAME_UPPER" and "SAME_LOWER")
    o = onnxruntime.SessionOptions()
    o.graph_optimization_level = onnxruntime.GraphOptimizationLevel.ORT_DISABLE_ALL
    o.log_severity_level = 3
    o.intra_op_num_threads = o.inter_op_num_threads = 1
    return onnxruntime.InferenceSession(m.SerializeToString(), o, providers=["CPUExecutionProvider"]).run(["y"], feeds)[0]


def imported(m, feeds, program=False):
    """What the imported network computes: (reference inference, generated program or None); REFUSED when it is not imported."""
    with tempfile.TemporaryDirectory(prefix="vco_", dir=prog.scratch()) as d:
        d = Path(d)
        onnx.save(m, d / "m.onnx")
        x = next(iter(feeds.values()))
        try:
            g = nn.CodeGenerator(file=d / "m.onnx", function_name="inference", nb_tests=1, test_dataset=x.reshape(1, -1).copy(),
                                 normalize=False)
        except Exception as e:  # noqa: BLE001
            return REFUSED, f"{type(e).__name__}: {e}"
        py = forward(g, feeds)
        c = None
        if program:
            (d / "out").mkdir()
            try:
                g.generate_c_files(d / "out")
            except Exception as e:  # noqa: BLE001
                return REFUSED, f"{type(e).__name__}: {e}"
            c = execute(d / "out", x, py.size)
        return py, c


def forward(g, feeds):
    """The layers of the imported network, in its order, on named inputs."""
    values = {}
    out = None
    for ly in g.layers:
        ins = [values[p.idx] for p in ly.previous_layer] if ly.previous_layer else [feeds[ly.original_name]] \
            if ly.original_name in feeds else [None]
        out = ly.forward_path_layer(ins[0] if len(ins) == 1 else ins)
        values[ly.idx] = out
    return np.asarray(out)


def execute(d, x, n):
    import conc
    vals = ",".join(repr(float(v)) for v in np.asarray(x).flatten())
    (d / "replay.c").write_text(f"""#include <stdio.h>
#include <string.h>
#include <math.h>
#include "parameters.c"
#include "global_vars.c"
#include "inference.c"
static inference_t C;
int main(void) {{
    static float in[] = {{{vals}}};
    static float out[{n} + 8];
    memset(&C, 0x7f, sizeof C);
    inference(&C, out, in);
    for (int i = 0; i < {n}; ++i) printf("%.9g\\n", (double)out[i]);
    return 0;
}}
""")
    r = conc.compile_run(d, ["-std=gnu99", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
    if not isinstance(r, str):
        raise Failure(f"{r.status}: {r.detail}")
    return np.array([float(v) for v in r.split()])


def close(a, b):
    a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    if a.size != b.size:
        return f"{a.size} values instead of {b.size}"
    for k, (x, y) in enumerate(zip(a, b)):
        if not (math.isclose(x, y, rel_tol=1e-4, abs_tol=1e-4) or (math.isnan(x) and math.isnan(y))):
            return f"element {k} is {x!r} instead of {y!r}"
    return None


def feeds_of(m, rng):
    inits = {i.name for i in m.graph.initializer}
    shape = lambda i: [max(d.dim_value, 1) for d in i.type.tensor_type.shape.dim]
    return {i.name: np.array([rng.randint(-6, 6) / 2 for _ in range(int(np.prod(shape(i))))], dtype=np.float32).reshape(shape(i))
            for i in m.graph.input if i.name not in inits}


def obligation(name, m, rng, must, program=False, refuse=False):
    """("run", name, ok, detail) for one model. must: it has to be imported; refuse: it has to be refused."""
    onnx.checker.check_model(m)
    feeds = feeds_of(m, rng)
    try:
        py, c = imported(m, feeds, program)
    except Exception as e:  # noqa: BLE001
        return ("run", name, False, f"imported, but inference fails: {type(e).__name__}: {e} (inputs {show(feeds)})")
    if isinstance(py, str):
        return ("run", name, not must, f"refused: {c}" if must else "")
    if refuse:
        return ("run", name, False, "imported instead of refused")
    want = reference(m, feeds)
    for what, got in (("reference inference", py), ("generated program", c)):
        if got is None:
            continue
        bad = close(got, want)
        if bad:
            return ("run", name, False, f"{what}: {bad} (inputs {show(feeds)})")
    return ("run", name, True, "")


def show(feeds):
    return {k: v.tolist() for k, v in feeds.items()}
