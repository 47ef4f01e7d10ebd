"""Build a network from layer objects, generate its C code with the repository's generator and run it."""
import subprocess
import sys
import tempfile
from pathlib import Path

import numpy as np

sys.path.insert(0, str(Path.cwd() / "src"))
import acetone_nnet.generator.neural_network as nn  # noqa: E402


def chain(*layers):
    for a, b in zip(layers, layers[1:]):
        a.next_layer = [b]
        b.previous_layer = [a]
    return list(layers)


def generate(layers, out, cst=None, paths=1, versions=None, fmt="channels_first", gen="channels_first", dtype="float",
             **kw):
    cst = cst or {}
    for ly in layers:
        if ly.path is None:
            ly.path = 0
    for ly in layers:
        ly.find_output_str(cst)
    py = {"float": np.float32, "double": np.float64}[dtype]
    saved = nn.parser
    nn.parser = lambda *a, **k: (layers, dtype, py, fmt, paths, cst)
    try:
        g = nn.CodeGenerator(file=Path("model"), versions=versions, gen_data_format=gen, normalize=False,
                             test_dataset=np.zeros((1, 1, 1), dtype=py), **kw)
    finally:
        nn.parser = saved
    g.generate_c_files(out)
    return g


def run(layers, x, nout, dtype="float", flags=(), **kw):
    with tempfile.TemporaryDirectory() as d:
        d = Path(d)
        g = generate(layers, d, dtype=dtype, **kw)
        vals = ",".join(repr(float(v)) for v in np.asarray(x).flatten())
        (d / "drive.c").write_text(f"""#include <stdio.h>
#include <string.h>
#include <math.h>
#include "parameters.c"
#include "global_vars.c"
#include "inference.c"
static inference_t C;
int main(void) {{
    static {dtype} in[] = {{{vals}}};
    static {dtype} out[{nout}];
    memset(&C, 0x7f, sizeof C);
    inference(&C, out, in);
    for (int i = 0; i < {nout}; ++i) printf("%.9g\\n", (double)out[i]);
    return 0;
}}
""")
        subprocess.run(["gcc", "-w", "-O1", *flags, "drive.c", "-o", "drive", "-lm"], cwd=d, check=True)
        r = subprocess.run(["./drive"], cwd=d, capture_output=True, text=True, timeout=60)
        if r.returncode:
            print(r.stderr[-2000:])
            return g, None
        return g, np.array([float(v) for v in r.stdout.split()])
