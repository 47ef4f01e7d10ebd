"""From a list of layers to the C program the repository generates for it.

`program()` runs the real CodeGenerator (constructor, versioning, source and header generation)
on a given list of layers: only the model parser is replaced, by a function that returns the
list.  With symbolic layers the text contains tokens for the symbolic sizes; with concrete ones
it is ordinary C.
"""
from __future__ import annotations

import os
import re
import shutil
import tempfile
from pathlib import Path

import numpy as np

from acetone_nnet.generator import neural_network as nn
from acetone_nnet.generator.activation_functions import ActivationFunctions
from acetone_nnet.ir import Layer
from acetone_nnet.versioning.layer_factories import implemented


class Stub(Layer):
    """A predecessor: its output tensor is already in its buffer when its turn comes."""

    def __init__(self, idx, size, path, input_shape=None):
        super().__init__()
        self.idx = idx
        self.name = "Stub"
        self.size = size
        self.path = path
        self.input_shape = input_shape

    def generate_inference_code_layer(self):
        return ""

    def forward_path_layer(self, inputs):
        return inputs


implemented["Stub"] = lambda layer, version: layer


class ActStub(ActivationFunctions):
    """An arbitrary activation function ACT, written with the weakest-binding C expression.

    `1 ? ACT(2*v - v) : 0` equals ACT(v) exactly when the argument text is a self-contained
    operand and the expression is used where a conditional expression may stand.
    """

    def __init__(self):
        super().__init__()
        self.name = "stub"
        self.comment = " and apply ACT"

    def compute(self, z):
        import pyfront
        if isinstance(z, (pyfront.SymTensor, pyfront.Sym)):
            return pyfront.elementwise(lambda x: pyfront.app("ACT", x), z)
        return np.where(z > 0, 2 * z + 1, z / 2 - 3)

    def write_activation_str(self, local_var):
        return f"1 ? ACT(2*{local_var} - {local_var}) : 0"


ACT_C = "static double ACT(double x) { return x > 0 ? 2 * x + 1 : x / 2 - 3; }\n"


def act_value(x):
    return 2 * x + 1 if x > 0 else x / 2 - 3


class Generated:
    def __init__(self, inference, header, layers, gen, files):
        self.inference, self.header, self.layers, self.gen, self.files = inference, header, layers, gen, files


def codegen(layers, dict_cst, versions=None, data_format="channels_first", gen_data_format="channels_first",
            data_type="float", dtype_py=np.float32, maxpath=None, normalizer=None, **kw):
    """The real CodeGenerator on these layers."""
    for ly in layers:
        ly.find_output_str(dict_cst)
    if maxpath is None:
        maxpath = max(ly.path for ly in layers) + 1
    saved = nn.parser

    def parsed(file_to_parse=None, normalize=False, **_):
        r = (layers, data_type, dtype_py, data_format, maxpath, dict_cst)
        return (*r, normalizer) if normalize else r
    nn.parser = parsed
    try:
        kw.setdefault("test_dataset", np.zeros((1, 1, 1), dtype=dtype_py))
        return nn.CodeGenerator(file=Path("model"), versions=versions, gen_data_format=gen_data_format,
                                normalize=normalizer is not None, **kw)
    finally:
        nn.parser = saved


def program(layers, dict_cst, everything=False, symbolic=False, **kw):
    g = codegen(layers, dict_cst, **kw)
    d = Path(tempfile.mkdtemp(prefix="vc_", dir=scratch()))
    try:
        if everything:
            g.generate_c_files(d)
        elif symbolic:
            import pyfront
            # contract of flatten_array_order_c (decided under A14): the elements of the array in C order
            g.flatten_array_order_c = lambda a: "{@" + pyfront.tensor_token(a) + "@}"
            g.generate_function_source_file(d)
            g.generate_function_header_file(d)
            g.generate_parameter_file(d)
        else:
            g.generate_function_source_file(d)
            g.generate_function_header_file(d)
        files = {p.name: p.read_text() for p in d.iterdir() if p.suffix in (".c", ".h", ".txt", "")}
    finally:
        shutil.rmtree(d)
    return Generated(files["inference.c"], files["inference.h"], g.layers, g, files)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = os.environ.get("VC_SCRATCH") or tempfile.gettempdir()
    return _scratch


# --------------------------------------------------------------------------
# Reading the generated text
# --------------------------------------------------------------------------

_SIG = re.compile(r"int\s+inference\s*\(\s*inference_t\s*\*\s*(\w+)\s*,\s*(\w+)\s+(\w+)\s*\[(.*?)\]\s*,"
                  r"\s*(\w+)\s+(\w+)\s*\[(.*?)\]\s*\)\s*\{")


class BadText(Exception):
    """The generated text does not have the expected outer shape."""


def split_inference(src):
    """(ctx name, [(type, name, size) x2], body text)."""
    text = "\n".join(ln for ln in src.split("\n") if not ln.lstrip().startswith("#"))
    m = _SIG.search(text)
    if not m:
        raise BadText("signature of inference()")
    body = text[m.end():].rstrip()
    if not body.endswith("}"):
        raise BadText("end of inference()")
    return m.group(1), [m.group(2, 3, 4), m.group(5, 6, 7)], body[:-1]


_FIELD = re.compile(r"^\s*(\w+)\s+(\w+)\s*\[(.*?)\]\s*__attribute__\s*\(\(.*\)\)\s*;\s*$")
_EXTERN = re.compile(r"^\s*extern\s+(const\s+)?(\w+)\s*(\*?)\s*(\w+)\s*\[(.*?)\]\s*;\s*$")


def split_header(hdr):
    """(struct fields, extern arrays): (type, name, size) and (type, name, size, pointer)."""
    fields, externs = [], []
    inside = False
    for ln in hdr.split("\n"):
        if "typedef struct inference_t" in ln:
            inside = True
            continue
        if inside and ln.lstrip().startswith("}"):
            inside = False
            continue
        if inside and ln.strip() and not ln.lstrip().startswith("//"):
            m = _FIELD.match(ln)
            if not m:
                raise BadText(f"field {ln.strip()!r}")
            fields.append(m.group(1, 2, 3))
            continue
        m = _EXTERN.match(ln)
        if m and m.group(2) != "inference_t":
            externs.append((m.group(2), m.group(4), m.group(5), bool(m.group(3))))
    return fields, externs


_PARAM = re.compile(r"^\s*(?:const\s+)?(\w+)\s+(\w+)\s*\[(.*?)\]\s*(?:__attribute__\s*\(\(.*?\)\)\)?)?\s*=\s*"
                    r"\{@TENSOR_(\d+)@\};\s*$")


def split_params(text):
    """Parameter arrays of the generated parameter file: name -> (type, size text, tensor number)."""
    out = {}
    for ln in text.split("\n"):
        if "{@TENSOR_" not in ln:
            continue
        m = _PARAM.match(ln)
        if not m:
            raise BadText(f"parameter {ln.strip()!r}")
        if m.group(2) in out:
            raise BadText(f"parameter array {m.group(2)} defined twice")
        out[m.group(2)] = (m.group(1), m.group(3), int(m.group(4)))
    return out
