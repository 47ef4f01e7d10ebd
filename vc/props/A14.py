"""A14: trained parameters reach the generated program bit-exactly."""
import builtins
import math
import os
import random
import re
import shutil
import struct
import subprocess
import tempfile
from pathlib import Path
from types import SimpleNamespace

import numpy as np

import core
import prog
import prove
import pyfront
from acetone_nnet.generator import layers as L
from acetone_nnet.generator import neural_network as nn
from acetone_nnet.generator.activation_functions import Linear
from arrays import Base
from case import D
from casetasks import Covered, case_tasks, relevant
from check import Task
from core import Facts, Unsupported, c_eq, c_ge, fresh, poly, read, sym
from layers import conv, dense, elementwise, movement

ASSUMPTIONS = ["the C compiler converts a hexadecimal or shortest decimal constant to the value it denotes",
               "parameters are finite values of the network's data type", "page sizes are powers of two",
               "objcopy places a symbol at the offset it is given"]
TRUSTED = ["float.hex and float.fromhex of the Python library: exact, 13 hexadecimal digits", "str(float) is the shortest text that reads "
           "back as the same value", "numpy.ndarray.tofile writes the elements in C order"]
BOUNDED = ["arrays of special and random bit patterns written, compiled and read back, as C text and as a binary file",
           "the binary parameter file: one layer of each parametrised kind, of every size"]
CG = nn.CodeGenerator

# -- one value -> one C constant -------------------------------------------------------------------


class HexText:
    """The text float.hex gives for an arbitrary non-zero value: sign 0x d . thirteen digits p exponent.

    The sign, the digits and the exponent are arbitrary; `end` is what the end of the digits was replaced by,
    when it was (`was`, `now`): one entry for each of the cases a replacement distinguishes.
    """

    def __init__(self, cases=(("", ""),)):
        self.cases = cases

    def replace(self, a, b, count=-1):
        if self.cases != (("", ""),) or count == 0:
            raise Unsupported("several replacements in a hexadecimal constant")
        # the letter p occurs once, so that a text ending with it occurs at most once, at the end of the digits
        if a[-1:] != "p" or "p" in a[:-1] or b[-1:] != "p" or not re.fullmatch("[0-9a-f]{0,13}", a[:-1]) \
                or not re.fullmatch("[0-9a-f]*", b[:-1]):
            raise Unsupported(f"replacement of {a!r} in a hexadecimal constant")
        return HexText((("", ""), (a[:-1], b[:-1])))

    def same_value(self):
        """The digits before and after are equal up to zeros at their end, in every case."""
        return all(was.rstrip("0") == now.rstrip("0") for was, now in self.cases)

    def __getattr__(self, n):
        raise Unsupported(f"str.{n} of a hexadecimal constant")


class FloatName:
    """`float` as the name the code uses."""

    def __init__(self, text):
        self.text = text

    def __call__(self, x):
        return x

    def hex(self, x):
        if not isinstance(x, Value):
            raise Unsupported("the hexadecimal constant of another value than the parameter")
        return self.text

    fromhex = staticmethod(float.fromhex)


class Value(float):
    pass


def generator(dtype="float", py=np.float32, to_hex=True):
    g = object.__new__(CG)
    g.data_type, g.data_type_py, g.to_hex = dtype, py, to_hex
    return g


def hex_constant():
    """data2c(d), hexadecimal: a C constant of exactly the value d, for every finite d."""
    pyfront.uninstall()
    obs = []
    with Covered() as cov:
        for py in (np.float32, np.float64):
            nn.float = FloatName(HexText())
            builtins.vc_float__ = lambda x: x
            try:
                r = generator(py=py).data2c(Value(1.5))
            finally:
                del nn.float
                builtins.vc_float__ = float
            if not isinstance(r, HexText):
                raise Unsupported("data2c does not return what float.hex gives")
            obs.append(("post", f"the constant of a non-zero value ({py.__name__}) has the value of the parameter", r.same_value(),
                        f"digits {r.cases}"))
            for z in ("0.0", "-0.0"):
                t = generator(py=py).data2c(py(z))
                obs.append(("post", f"the constant of {z} ({py.__name__}) has that value and sign",
                            re.fullmatch(r"-?0x0(\.0*)?p\+0", t) is not None and str(float.fromhex(t)) == z, t))
    return dict(obligations=obs, functions=sorted(n for n in cov.names if relevant(n)))


def guarded(fn, bounded):
    """Code that no longer consists of the string operations the proof knows is only run on samples."""
    def run():
        try:
            return fn()
        except Unsupported as e:
            r = bounded()
            r["note"] = f"not proved, only run: {e}"
            return r
    return run


def special(py):
    if np.issubdtype(py, np.integer):
        i = np.iinfo(py)
        return [0, 1, -1 if i.min < 0 else 1, i.min, i.max, i.max // 3]
    f = np.finfo(py)
    return [0.0, -0.0, 1.0, -1.0, float(f.max), float(f.min), float(f.tiny), float(f.smallest_subnormal),
            -float(f.smallest_subnormal), float(f.tiny) - float(f.smallest_subnormal), float(f.eps), 1 + float(f.eps), 0.1, 1 / 3,
            16.0, 1.0625, 255.9375, 2.0 ** -20, 1e10, 1e22]


def pattern(rng, py):
    py = np.dtype(py)
    if py.kind in "iu":
        return int(rng.randrange(int(np.iinfo(py).min), int(np.iinfo(py).max) + 1))
    while True:
        n = py.itemsize
        v = rng.getrandbits(8 * n)
        if rng.random() < 0.4:
            v &= ~((1 << rng.randint(1, 20 if n == 4 else 50)) - 1)
        x = struct.unpack("<f" if n == 4 else "<d", v.to_bytes(n, "little"))[0]
        if math.isfinite(x):
            return x


def constants(seed, n):
    """data2c on many values, read back by Python."""
    def fn():
        pyfront.uninstall()
        rng = random.Random(seed)
        bad = None
        count = 0
        for py in (np.float32, np.float64, np.int8, np.int16, np.int32):
            isint = np.issubdtype(py, np.integer)
            for to_hex in (True, False):
                g = generator(py=py, to_hex=to_hex)
                for v in special(py) + [pattern(rng, py) for _ in range(n)]:
                    count += 1
                    x = py(v)
                    try:
                        t = g.data2c(x)
                        ok = re.fullmatch(r"-?(\d+(\.\d+)?(e[+-]?\d+)?|0x[01](\.[0-9a-f]*)?p[+-]\d+)", t) is not None
                        y = py(int(t)) if isint else py(float.fromhex(t) if "x" in t else float(t))
                        ok = ok and x.tobytes() == y.tobytes()
                    except Exception as e:  # noqa: BLE001
                        t, ok = f"{type(e).__name__}: {e}", False
                    if not ok:
                        bad = bad or f"data2c({py.__name__}({v!r})), to_hex={to_hex}: {t!r} is not a C constant of that value"
        return dict(obligations=[("enumerated", "every constant denotes its parameter", bad is None, bad or "")], paths=count)
    return fn


# -- one array -> one initialiser ------------------------------------------------------------------


def initialiser(rank):
    def fn():
        pyfront.install()
        ds = [poly(sym(f"n{k}")) for k in range(rank)]
        F = Facts()
        for d in ds:
            F.lower(d, 1)
        b = Base("a")

        def flat_at(i):
            k = core.ZERO
            for x, n in zip(i, ds):
                k = k * n + poly(x)
            return k
        with Covered() as cov:
            def run():
                g = generator()
                g.data2c = lambda v: str(v) if isinstance(v, pyfront.Elems) else 1 / 0
                return g.flatten_array_order_c(pyfront.SymTensor([pyfront.undim(d) for d in ds],
                                                                 lambda *i: read(b, (flat_at(i),))))
            paths = pyfront.explore(run, F)
        obs = []
        for pf, text, exc, ctx in paths:
            pyfront.CTX = ctx
            if exc is not None:
                obs.append(("accept", "an array is accepted", False, f"{type(exc).__name__}: {exc}"))
                continue
            m = re.fullmatch(r"\s*\{\s*TENSOR_(\d+)\s*\}\s*", text)
            obs.append(("post", "the initialiser lists the elements between braces", m is not None, text))
            if not m:
                continue
            t = pyfront.TENSORS[int(m.group(1))]
            k = [poly(fresh("k")) for _ in ds]
            G = pf
            for x, n in zip(k, ds):
                G = G.bind(x, n)
            lam, n = prove.flat_version(t)
            ok, x, y = prove.equal(read(lam, (flat_at(k),)), read(b, (flat_at(k),)), G)
            obs.append(("post", "the elements are listed in C order", ok, "" if ok else f"{x} / {y}"))
        return dict(obligations=obs, paths=len(paths), functions=sorted(n for n in cov.names if relevant(n)))
    return fn


def orders(seed):
    def fn():
        pyfront.uninstall()
        rng = np.random.default_rng(seed)
        bad = None
        for _ in range(60):
            sh = tuple(int(x) for x in rng.integers(1, 4, size=rng.integers(1, 5)))
            a = np.arange(math.prod(sh), dtype=np.float32).reshape(sh)
            for name, v in (("C", a), ("F", np.asfortranarray(a)), ("strided", a.transpose()[::-1].copy().transpose()[..., ::-1])):
                text = generator(to_hex=False).flatten_array_order_c(v)
                got = [float(x) for x in text.strip().strip("{}").split(",")]
                want = [float(v[i]) for i in np.ndindex(*v.shape)]
                if got != want:
                    bad = bad or f"flatten_array_order_c of the {name} array {v.tolist()} lists {got}"
        return dict(obligations=[("enumerated", "arrays of any memory layout are listed in C order", bad is None, bad or "")])
    return fn


# -- the binary parameter file ---------------------------------------------------------------------


class SymFile:
    def __init__(self):
        self.pos, self.log = pyfront.wrap(poly(0)), []

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        if whence != 0:
            raise Unsupported("relative seek")
        self.pos = pyfront.wrap(pyfront.dim(off))
        return self.pos

    def put(self, t):
        t = pyfront.to_tensor(t)
        self.log.append((pyfront.dim(self.pos), t))
        self.pos = self.pos + pyfront.wrap(pyfront.prod_of(t._shape)) * t.dtype.itemsize

    def write(self, x):
        if isinstance(x, pyfront.TensorBytes):
            self.put(x.tensor)
        elif isinstance(x, (bytes, str)):
            self.pos = self.pos + len(x)
        elif isinstance(x, pyfront.SymTensor):
            self.put(x)
        else:
            raise Unsupported("written value")

    def flush(self): pass
    def close(self): pass
    def fileno(self): raise Unsupported("file descriptor")
    def __enter__(self): return self
    def __exit__(self, *a): return False


class SymPath:
    """The output directory, or a file of it."""
    files = {}

    def __init__(self, name="."):
        self.name = name

    def __truediv__(self, n):
        return SymPath(str(n))

    def open(self, mode="r", *a, **k):
        if "w" not in mode and "a" not in mode and "x" not in mode:
            raise Unsupported("reading a generated file")
        return SymPath.files.setdefault(self.name, SymFile())


class PathName:
    open = staticmethod(lambda p, *a, **k: p.open(*a, **k))

    def __new__(cls, p):
        return p if isinstance(p, SymPath) else Path(p)


class Named(prove.Builder):
    """Parameters of several layers side by side."""

    def base(self, name, isint=False):
        n = f"{name}@{self.idx}"
        if n not in self.bases:
            self.bases[n] = Base(n, isint)
        return self.bases[n]


def kinds():
    by = {}
    for c in conv.CASES + dense.CASES + elementwise.CASES + movement.CASES:
        by.setdefault(c.name, c)
    want = ["conv 6loops", "conv std_gemm_nn", "dense", "gemm nn bias N", "gemm tt bias MN alpha beta", "batch normalization", "constant"]
    out = [by[n] for n in want]
    out += [next(c for c in elementwise.CASES if c.name == f"{op} [111] [1HW] constant" or c.name == f"{op} [CHW] [1HW] constant")
            for op in ("Multiply", "Subtract", "Divide")]
    return out


def binary(cases, page, dtype, py, arrays):
    """Every parameter symbol is placed where its values are, in the order and type of the C declaration."""
    def fn():
        pyfront.install()
        F = Facts()
        for c in cases:
            d, _ = prove.sym_dims(c)
            for n, lo in c.dims.items():
                F.lower(d[n], lo)
            pyfront.define(c.definitions(d))
        for c in cases:
            d, _ = prove.sym_dims(c)
            for k in c.pre(D(d)) + c.definition_facts(d):
                F = F.assume(k)
        io = prove.ios_for(1)[0]

        def run():
            SymPath.files = {}
            bases, ls, k = {}, [], 0
            for c in cases:
                d, dd = prove.sym_dims(c)
                shapes = [[poly(s) for s in sh] for sh in c.in_shapes(D(d))]
                b = Named(c, bases, 10 + k)
                stubs, layer, _ = prove.make_layers(c, b, dd, shapes, io)
                for s in stubs:
                    s.idx += 100 * (k + 1)
                ls += [*stubs, layer]
                k += 1
            for ly in ls:
                ly.path = 0
            g = prog.codegen(ls, {}, maxpath=1, data_type=dtype, dtype_py=py, bin_dataset=True, target_page_size=page,
                             versions={10 + i: c.versions for i, c in enumerate(cases) if c.versions} or None)
            for ly in g.layers:
                for a in ("weights", "biases", "mean", "var", "scale", "constant"):
                    t = getattr(ly, a, None)
                    if isinstance(t, pyfront.SymTensor):
                        t.dtype = np.dtype(arrays)
            g.flatten_array_order_c = lambda a: "{@" + pyfront.tensor_token(a) + "@}"
            d = Path(tempfile.mkdtemp(prefix="vc_", dir=prog.scratch()))
            try:
                g.l_size_max = 1
                g.generate_function_header_file(d)
                g.generate_parameter_file(d)
                hdr, par = (d / "inference.h").read_text(), (d / "parameters.c").read_text()
            finally:
                shutil.rmtree(d)
            nn.Path = PathName
            try:
                g.generate_bin_parameter_file(SymPath())
            finally:
                nn.Path = Path
            return hdr, par, g.symtab, list(SymPath.files.values())[0].log
        with Covered() as cov:
            paths = pyfront.explore(run, F, limit=400)
        obs = []
        size = {"float": 4, "double": 8}[dtype]
        for pf, val, exc, ctx in paths:
            pyfront.CTX = ctx
            if exc is not None:
                obs.append(("accept", "the parameters are written", False, f"{type(exc).__name__}: {exc} @ {prove.where(exc)}"))
                continue
            hdr, par, symtab, log = val
            _, externs = prog.split_header(hdr)
            known = prog.split_params(par)
            syms = {}
            for n, o in re.findall(r"--add-symbol (\S+)=\.rodata:(\S+)", symtab):
                obs.append(("post", f"{n} is placed once", n not in syms, symtab))
                syms[n] = prove.value_of(o, pyfront.TOKENS)
            end = core.ZERO
            for off, t in log:
                obs.append(("post", "a parameter array starts after the previous one ends", core.proves(c_ge(off - end), pf), f"{off} / {end}"))
                obs.append(("post", "a parameter array starts on a page", core.proves(c_eq(core.fmod(off, poly(page))), pf), f"{off}"))
                end = off + pyfront.prod_of(t._shape) * t.dtype.itemsize
            for ty, n, sz, ptr in externs:
                if ptr:
                    continue
                obs.append(("post", f"{n} has a place in the binary file", n in syms, symtab))
                if n not in syms:
                    continue
                t = next((t for o, t in log if core.proves(c_eq(o - syms[n]), pf)), None)
                obs.append(("post", f"the place of {n} is that of an array written to the file", t is not None, str(syms[n])))
                if t is None:
                    continue
                obs.append(("post", f"{n} is written in the declared type", ty == dtype and t.dtype.itemsize == size and t.dtype.kind == "f",
                            f"{ty} / {t.dtype}"))
                lam, cnt = prove.flat_version(t)
                obs.append(("post", f"{n} has its declared size", core.proves(c_eq(cnt - prove.value_of(sz, pyfront.TOKENS)), pf),
                            f"{cnt} / {sz}"))
                ref, _ = prove.flat_version(pyfront.TENSORS[known[n][2]])
                z = poly(fresh("z"))
                ok, a, b = prove.equal(read(lam, (z,)), read(ref, (z,)), pf.bind(z, cnt))
                obs.append(("post", f"{n} holds the values the C text declares", ok, f"{a} / {b}"))
        return dict(obligations=obs, paths=len(paths), functions=sorted(n for n in cov.names if relevant(n)))
    return fn


# -- written, compiled and read back ---------------------------------------------------------------


def chain(ls):
    for k, ly in enumerate(ls):
        ly.path = k % 2
    for a, b in zip(ls, ls[1:]):
        a.next_layer, b.previous_layer = [b], [a]
    return ls


def network(rng, py, adtype):
    A = lambda *s: np.array([pattern(rng, py) if rng.random() < 0.6 else rng.choice(special(py)) for _ in range(math.prod(s))],
                            dtype=adtype).reshape(s)
    C, H, W, F = rng.randint(1, 3), rng.randint(2, 4), rng.randint(2, 4), rng.randint(1, 4)
    algo = rng.choice(["6loops", "std_gemm_nn", "std_gemm_nt", "direct_block"])
    n = F * H * W
    lin = Linear()
    B = lambda cls, i, s: cls(original_name="b", idx=i, size=n, input_shapes=np.array([[1, F, H, W]]), output_shape=[1, F, H, W],
                              activation_function=lin, constant=A(1, *s))
    return chain([
        L.InputLayer("i", 0, C * H * W, [1, C, H, W], "channels_first"),
        L.Conv2D(original_name="c", idx=1, conv_algorithm=algo, size=n, padding=[1, 1, 1, 1], strides=1, kernel_h=3, kernel_w=3,
                 dilation_rate=1, nb_filters=F, input_shape=[1, C, H, W], output_shape=[1, F, H, W], weights=A(F, C, 3, 3), biases=A(F),
                 activation_function=lin),
        L.BatchNormalization(original_name="n", idx=2, size=n, input_shape=[1, F, H, W], epsilon=0.5, scale=A(F), biases=A(F),
                             mean=A(F), var=A(F), activation_function=lin),
        B(L.Multiply, 3, (F, H, W)), B(L.Subtract, 4, (F, 1, 1)), B(L.Divide, 5, (1, H, W)),
        L.Flatten(original_name="f", idx=6, size=n, input_shape=[1, F, H, W], data_format="channels_first"),
        L.Dense(original_name="d", idx=7, size=3, weights=A(n, 3), biases=A(3), activation_function=lin)]), algo


def arrays_of(g):
    """What each parameter array of the program must hold."""
    out = {}
    for ly in g.layers:
        s = f"{ly.name}_{ly.idx:02d}"
        for a in ("weights", "biases", "mean", "var", "scale", "constant"):
            v = getattr(ly, a, None)
            if a == "weights" and getattr(ly, "layout", None) is not None:
                v = ly.layout
            if isinstance(v, np.ndarray) and v.size:
                out[f"{a}_{s}"] = v
    return out


def read_back(seed, n, binary_file):
    def fn():
        pyfront.uninstall()
        rng = random.Random(seed)
        obs = []
        for _ in range(n):
            dtype, py = rng.choice([("float", np.float32), ("double", np.float64)])
            adtype = rng.choice([py, np.float64])
            hexa = rng.random() < 0.6
            ls, algo = network(rng, py, adtype)
            name = f"{dtype}, arrays of {np.dtype(adtype)}, {'binary' if binary_file else 'hexadecimal' if hexa else 'decimal'}, {algo}"
            d = Path(tempfile.mkdtemp(prefix="vcp_", dir=prog.scratch()))
            try:
                g = prog.codegen(ls, {}, data_type=dtype, dtype_py=py, to_hex=hexa, bin_dataset=binary_file,
                                 versions={1: algo}, **(dict(nb_tests=1, test_dataset=np.zeros((1, 1, ls[0].size), dtype=py))
                                                        if binary_file else {}))
                g.generate_c_files(d)
                want = arrays_of(g)
                main = ['#include <stdio.h>', '#include "inference.h"', "int main(void){ unsigned i;"]
                for a in want:
                    main.append(f'printf("{a}"); for(i=0;i<sizeof({a});++i) printf(" %02x",((const unsigned char*){a})[i]); printf("\\n");')
                (d / "read.c").write_text("\n".join(main) + "\nreturn 0;}\n")
                if binary_file:
                    r = subprocess.run(["make", "-s", "parameters.o"], cwd=d, capture_output=True, text=True)
                    src = ["parameters.o"]
                else:
                    src = ["parameters.c"]
                    r = SimpleNamespace(returncode=0, stderr="")
                if r.returncode == 0:
                    r = subprocess.run(["gcc", "-w", "read.c", *src, "-o", "read", "-no-pie"], cwd=d, capture_output=True, text=True)
                if r.returncode == 0:
                    r = subprocess.run(["./read"], cwd=d, capture_output=True, text=True, timeout=30)
                if r.returncode:
                    obs.append(("run", name, False, f"the program does not build: {r.stderr[-400:]}"))
                    continue
                got = {ln.split()[0]: bytes(int(x, 16) for x in ln.split()[1:]) for ln in r.stdout.splitlines() if ln.strip()}
                bad = ""
                for a, v in want.items():
                    w = np.array([py(v[i]) for i in np.ndindex(*v.shape)], dtype=py).tobytes()
                    if got.get(a) != w:
                        x = np.frombuffer(got.get(a, b"")[:len(w) // np.dtype(py).itemsize * np.dtype(py).itemsize], dtype=py)
                        y = np.frombuffer(w, dtype=py)
                        k = next((i for i in range(min(len(x), len(y))) if x[i].tobytes() != y[i].tobytes()), None)
                        bad = bad or (f"{a} holds {x[k]!r} at {k}, the network's parameter is {y[k]!r}" if k is not None else
                                      f"{a} holds {len(x)} values, the network's parameter {len(y)}")
                obs.append(("run", name, not bad, bad))
            except Exception as e:  # noqa: BLE001
                obs.append(("run", name, False, f"{type(e).__name__}: {e} @ {prove.where(e)}"))
            finally:
                shutil.rmtree(d, ignore_errors=True)
        return dict(obligations=obs)
    return fn


def searcher(*fns):
    def fn():
        for f in fns:
            for k, n, ok, d in f()["obligations"]:
                if not ok:
                    return dict(obligations=[], found=dict(mode=k, name=n, detail=d))
        return dict(obligations=[], found=None)
    return fn


def tasks(tier, seed):
    q = tier == "quick"
    srch = searcher(constants(seed + 7, 300), orders(seed), read_back(seed + 1, 4, False), read_back(seed + 2, 4, True))
    out = [Task("data2c/hexadecimal", guarded(hex_constant, constants(seed + 3, 3000)), 300, srch),
           Task("data2c/values", constants(seed, 2000 if q else 50000), 300, label="bounded"),
           Task("orders", orders(seed), 300, label="bounded")]
    out += [Task(f"initialiser/rank {r}", initialiser(r), 200, srch) for r in range(1, 5)]
    ks = kinds()
    for page in ((4096,) if q else (4096, 1, 64)):
        for dtype, py, arrays in (("float", np.float32, np.float32), ("double", np.float64, np.float64),
                                  ("float", np.float32, np.float64)):
            groups = [ks[:1] + ks[2:3], ks[1:2], ks[4:6], ks[7:8], ks[3:4] + ks[6:7] + ks[8:]]
            for i, cs in enumerate(groups):
                out.append(Task(f"binary file/{page}/{dtype}/{np.dtype(arrays)}/{i}", binary(cs, page, dtype, py, arrays), 300, srch))
    # the C text: the executor reads the initialiser of every parameter array the layer uses
    out += case_tasks(ks, ["code"], tier, seed, sample=False, few=True)
    for k in range(4):
        out.append(Task(f"read back/text/{k}", read_back(seed * 10 + k, 5 if q else 40, False), 400, label="bounded"))
        out.append(Task(f"read back/binary/{k}", read_back(seed * 20 + k, 5 if q else 40, True), 400, label="bounded"))
    return out
