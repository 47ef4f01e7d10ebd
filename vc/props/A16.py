"""A16: NNET networks."""
import builtins
import os
import random
import shutil
import tempfile
from fractions import Fraction
from types import SimpleNamespace

import numpy as np

import core
import prog
import prove
import pyfront
import scalar
from acetone_nnet.generator import activation_functions as af
from acetone_nnet.generator import layers as L
from acetone_nnet.generator import neural_network as nn
from acetone_nnet.importers.NNET_importer import nnet_normalize, parser_NNET
from arrays import Base
from case import Access
from casetasks import Covered, relevant
from check import Task
from core import Facts, Unsupported, fresh, poly, read, rmax, rmin, sym
from prove import Builder, equal

ASSUMPTIONS = [
    "exact real arithmetic in the normalisation and the layers",
    "a well-formed file ends every line of numbers with a comma, gives each layer's rows then its biases, and has minimum <= maximum "
    "and nonzero ranges",
    "the program normalises the caller's input buffer in place: a call consumes its input",
]
TRUSTED = ["str and float of Python convert doubles to decimal text and back exactly"]
BOUNDED = ["files with 1 to 4 layers of 1 to 4 values (opaque parameter values: every value at once)",
           "networks of random small files, generated, compiled and run, against exact arithmetic"]


def symbols(names):
    d = {n: poly(sym(n)) for n in names}
    F = Facts()
    for n in names:
        F.lower(d[n], 1)
    return d, {n: pyfront.undim(d[n]) for n in names}, F


def same(got, want, F):
    """Equality of two real terms: term normalisation, else Z3 over the reals."""
    try:
        ok, a, b = equal(got, want, F)
    except (Unsupported, RecursionError) as e:
        ok, a, b = False, str(e), want
    if ok:
        return True, ""
    r, model = scalar.prove_equal(core.normal(poly(got), F), core.normal(poly(want), F))
    return r, f"code: {a}\nspec: {b}\n{model or ''}"


def normalizer(dd, n, m, tensor):
    lo = tensor("mins", dd[n])
    top = tensor("gap", dd[n])
    hi = pyfront.elementwise(lambda a, b: rmax(a, b), lo, top)      # any maximum that is at least the minimum
    return nnet_normalize.Normalizer(input_size=dd[n], output_size=dd[m], mins=lo, maxes=hi, means=tensor("means", dd[n] + 1),
                                     ranges=tensor("ranges", dd[n] + 1))


def normalised(bases, i, n, x):
    g = lambda nm, k: Access(bases[nm], (k,))
    lo = g("mins", n)(i)
    hi = rmax(lo, g("gap", n)(i))
    return pyfront.rdiv(rmax(lo, rmin(hi, x)) - g("means", n + 1)(i), g("ranges", n + 1)(i))


def python_side():
    """pre_processing and post_processing for every number of inputs and outputs."""
    pyfront.install()
    d, dd, F = symbols("NM")
    bases = {}
    T = Builder(SimpleNamespace(act=False), bases, 5).T
    obs = []

    def run():
        nz = normalizer(dd, "N", "M", T)
        x, y = T("x", dd["N"]), T("y", dd["M"])
        for t in (x, y):
            t.memory()
        v = x.ver
        return nz.pre_processing(x), nz.post_processing(y), x.ver is v
    with Covered() as cov:
        paths = pyfront.explore(run, F)
    for pf, val, exc, ctx in paths:
        pyfront.CTX = ctx
        if exc is not None:
            obs.append(("accept", "normalisation accepts its input", False, f"{type(exc).__name__}: {exc}"))
            continue
        a, b, frame = pyfront.to_tensor(val[0]), pyfront.to_tensor(val[1]), val[2]
        i, j = poly(fresh("i")), poly(fresh("j"))
        G = pf.bind(i, d["N"]).bind(j, d["M"])
        ok, dt = same(a.at(i), normalised(bases, i, d["N"], Access(bases["x"], (d["N"],))(i)), G)
        obs.append(("post", "pre_processing clips then normalises every input", ok, dt))
        last = lambda nm: Access(bases[nm], (d["N"] + 1,))(d["N"])  # noqa: B023
        ok, dt = same(b.at(j), Access(bases["y"], (d["M"],))(j) * last("ranges") + last("means"), G)
        obs.append(("post", "post_processing denormalises every output", ok, dt))
        obs.append(("frame", "pre_processing leaves its input alone", frame, ""))
        obs.append(("shape", "as many values", core.proves(core.c_eq(a._shape[0] - d["N"]), pf) and core.proves(core.c_eq(b._shape[0] - d["M"]), pf), ""))
    return dict(obligations=obs, paths=len(paths), functions=sorted(n for n in cov.names if relevant(n)))


def network(dd, k, tensor):
    """generate_layers for k layers of symbolic sizes."""
    sizes = [dd[f"S{j}"] for j in range(k + 1)]
    ws = [tensor(f"w{j}", sizes[j], sizes[j + 1]) for j in range(k)]
    bs = [tensor(f"b{j}", sizes[j + 1]) for j in range(k)]
    return parser_NNET.generate_layers(k, ws, bs, sizes), sizes


def layers(k):
    """generate_layers: sizes, parameters, activations and links, for every layer size."""
    def fn():
        pyfront.install()
        d, dd, F = symbols([f"S{j}" for j in range(k + 1)])
        bases = {}
        T = Builder(SimpleNamespace(act=False), bases, 5).T
        with Covered() as cov:
            paths = pyfront.explore(lambda: network(dd, k, T)[0], F)
        obs = []
        for pf, val, exc, ctx in paths:
            pyfront.CTX = ctx
            if exc is not None:
                obs.append(("accept", f"{k} layers", False, f"{type(exc).__name__}: {exc}"))
                continue
            obs.append(("post", "one input layer and one dense layer per layer of the file",
                        [type(x).__name__ for x in val] == ["InputLayer"] + ["Dense"] * k, str([type(x).__name__ for x in val])))
            for j, ly in enumerate(val[:k + 1]):
                obs.append(("post", f"layer {j}: size", core.proves(core.c_eq(pyfront.dim(ly.size) - d[f"S{j}"]), pf), str(ly.size)))
                obs.append(("post", f"layer {j}: linked to its neighbours", list(ly.previous_layer) == val[max(j - 1, 0):j]
                            and list(ly.next_layer) == val[j + 1:j + 2] and ly.idx == j, ""))
                if not j or not isinstance(ly, L.Dense):
                    continue
                want = af.Linear if j == k else af.ReLu
                obs.append(("post", f"layer {j}: activation", type(ly.activation_function) is want, type(ly.activation_function).__name__))
                w, b = pyfront.to_tensor(ly.weights), pyfront.to_tensor(ly.biases)
                p, q = poly(fresh("p")), poly(fresh("q"))
                G = pf.bind(p, d[f"S{j - 1}"]).bind(q, d[f"S{j}"])
                ok, dt = same(w.at(*[core.ZERO] * (w.ndim - 2), p, q), Access(bases[f"w{j - 1}"], (d[f"S{j - 1}"], d[f"S{j}"]))(p, q), G)
                obs.append(("post", f"layer {j}: weights", ok and core.proves(core.c_eq(pyfront.prod_of(w._shape) - d[f"S{j - 1}"] * d[f"S{j}"]), pf), dt))
                ok, dt = same(b.at(q), Access(bases[f"b{j - 1}"], (d[f"S{j}"],))(q), G)
                obs.append(("post", f"layer {j}: biases", ok, dt))
        return dict(obligations=obs, paths=len(paths), functions=sorted(n for n in cov.names if relevant(n)))
    return fn


def code_side(k):
    """The generated program of a network with k layers: clipping, normalisation, layers, denormalisation."""
    def fn():
        pyfront.install()
        d, dd, F = symbols([f"S{j}" for j in range(k + 1)])
        bases = {}
        T = Builder(SimpleNamespace(act=False), bases, 5).T

        def run():
            ls, sizes = network(dd, k, T)
            nz = normalizer({**dd}, "S0", f"S{k}", T)
            return prog.program(ls, {}, symbolic=True, maxpath=1, normalizer=nz)
        with Covered() as cov:
            paths = pyfront.explore(run, F)
        obs = []
        for pf, g, exc, ctx in paths:
            pyfront.CTX = ctx
            if exc is not None:
                obs.append(("accept", f"{k} layers", False, f"{type(exc).__name__}: {exc}"))
                continue
            n = d["S0"]
            lo = Base("input_min")
            x = Base("nn_input")
            ex, c, pred, body = prove.setup_exec(pf, g, {"nn_input": x}, pyfront.TOKENS, n)
            # the constants, as the global variables file defines them (bounded check "files")
            i0 = fresh("i")
            lam = lambda b: pyfront.Lam((i0,), b(poly(i0)))  # noqa: B023
            acc = {nm: Access(bases[nm], (n + 1,) if nm in ("means", "ranges") else (n,)) for nm in ("mins", "gap", "means", "ranges")}
            vals = {"input_min": acc["mins"], "input_max": lambda i: rmax(acc["mins"](i), acc["gap"](i)),  # noqa: B023
                    "input_mean": acc["means"], "input_range": acc["ranges"]}
            for nm, f in vals.items():
                decl = ex.meta.get(nm)
                obs.append(("bounds", f"{nm} is declared with one element per input", decl is not None and
                            core.proves(core.c_eq(decl[0][0] - n), pf), str(decl)))
                ex.declare_array(nm, [n], const=True, version=lam(f))
            for nm in ("output_mean", "output_range"):
                obs.append(("bounds", f"{nm} is declared", f"extern float {nm};" in g.header, ""))
                ex.declare_scalar(nm, "r", acc["means" if nm == "output_mean" else "ranges"](n))
            name = next(a for a, v in ex.arr.items() if v is x)
            ex.declare_array(name, ex.meta[name][0], version=x)     # the input is normalised in place
            try:
                cut = run_with_cut(ex, body, name, bases, n, x, pf)
            except Exception as e:  # noqa: BLE001
                obs += [(o.kind, o.text, o.ok, o.detail) for o in ex.obl]
                obs.append(("post", "the program runs", False, f"{type(e).__name__}: {e}"))
                continue
            obs += [(o.kind, o.text, o.ok, o.detail) for o in ex.obl]
            # the layers' specification
            v = (lambda i: read(cut, (i,))) if cut else (lambda i: normalised(bases, i, n, read(x, (i,))))  # noqa: B023
            obs.append(("post", "the input is clipped and normalised in place", bool(cut), ""))
            for j in range(k):
                def nxt(o, v=v, j=j):
                    s = poly(fresh("s"))
                    t = core.Sum([(s, d[f"S{j}"])], v(s) * Access(bases[f"w{j}"], (d[f"S{j}"], d[f"S{j + 1}"]))(s, o))
                    t = t + Access(bases[f"b{j}"], (d[f"S{j + 1}"],))(o)
                    return t if j == k - 1 else core.ite(core.c_gt(t), t, core.ZERO)
                v = nxt
            o = poly(fresh("o"))
            G = pf.bind(o, d[f"S{k}"])
            want = v(o) * acc["ranges"](n) + acc["means"](n)
            ok, dt = same(read(ex.arr[pred], (o,)), want, G)
            obs.append(("post", "the program computes clipping, normalisation, layers and denormalisation", ok, dt))
        return dict(obligations=obs, paths=len(paths), functions=sorted(n for n in cov.names if relevant(n)))
    return fn


def run_with_cut(ex, body, name, bases, n, x, pf):
    """Run the body; once the input array is proved to hold the normalised input, it is replaced by an arbitrary array of
    that content (a cut: the rest is proved for whatever the normalised values are)."""
    cut = []
    last = [ex.arr[name]]
    i = poly(fresh("i"))
    G = pf.bind(i, n)

    def after():
        v = ex.arr[name]
        if v is not last[0] and not cut and same(read(v, (i,)), normalised(bases, i, n, read(x, (i,))), G)[0]:
            cut.append(Base("normalised"))
            ex.arr[name] = cut[0]
        last[0] = ex.arr[name]
    ex.run(body, after)
    return cut[0] if cut else None


# -- files -----------------------------------------------------------------------------------------------------


class Opaque:
    """A number of the file: only its identity is known."""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return f"#{self.k}"

    def __bool__(self):
        raise Unsupported("truth value of a parameter")


def write_file(path, sizes, num, comments=(), trailer=""):
    """num(what, ...) gives the text of each number."""
    n, m = sizes[0], sizes[-1]
    ls = [f"// {c}" for c in comments]
    ls += [f"{len(sizes) - 1},{n},{m},{max(sizes)},", "".join(f"{s}," for s in sizes), "0,"]
    ls += ["".join(num("min", i) + "," for i in range(n)), "".join(num("max", i) + "," for i in range(n)),
           "".join(num("mean", i) + "," for i in range(n + 1)), "".join(num("range", i) + "," for i in range(n + 1))]
    for k in range(len(sizes) - 1):
        for r in range(sizes[k + 1]):
            ls.append("".join(num("w", k, r, c) + "," for c in range(sizes[k])))
        for r in range(sizes[k + 1]):
            ls.append(num("b", k, r) + ",")
    with open(path, "w") as f:
        f.write("\n".join(ls) + "\n" + trailer)


def check_loaded(r, sizes, val, obs, what):
    ls, nz = r[0], r[6]
    N = len(sizes) - 1
    bad = []
    if [type(x).__name__ for x in ls] != ["InputLayer"] + ["Dense"] * N:
        bad.append("layers " + str([type(x).__name__ for x in ls]))
    elif [x.size for x in ls] != sizes:
        bad.append("sizes")
    else:
        for k in range(N):
            w = np.asarray(ls[k + 1].weights)
            if w.size != sizes[k] * sizes[k + 1] or w.shape[-2:] != (sizes[k], sizes[k + 1]):
                bad.append(f"shape of weights {w.shape}")
                continue
            w = w.reshape(sizes[k], sizes[k + 1])
            bad += [f"weight {k},{r_},{c}" for r_ in range(sizes[k + 1]) for c in range(sizes[k]) if not val(w[c, r_], "w", k, r_, c)]
            b = np.asarray(ls[k + 1].biases).reshape(-1)
            bad += [f"bias {k},{r_}" for r_ in range(sizes[k + 1]) if b.size != sizes[k + 1] or not val(b[r_], "b", k, r_)]
            if type(ls[k + 1].activation_function) is not (af.Linear if k == N - 1 else af.ReLu):
                bad.append(f"activation of layer {k + 1}")
        for nm, at, cnt in (("min", nz.mins, sizes[0]), ("max", nz.maxes, sizes[0]), ("mean", nz.means, sizes[0] + 1),
                            ("range", nz.ranges, sizes[0] + 1)):
            if len(at) != cnt or not all(val(at[i], nm, i) for i in range(cnt)):
                bad.append(nm)
        if nz.input_size != sizes[0] or nz.output_size != sizes[-1]:
            bad.append("sizes of the normaliser")
    obs.append(("run", what, not bad, "" if not bad else f"sizes {sizes}: wrong {', '.join(bad[:8])}"))


def plain_file(path, sizes, obs):
    """The same with a different number in every place."""
    num = {}
    write_file(path, sizes, lambda *k: repr(num.setdefault(k, 1.25 + len(num) / 7)), comments=["x"] * (len(sizes) % 3))
    builtins.vc_float__ = float
    try:
        r = parser_NNET.load_nnet(path, True)
    except Exception as e:  # noqa: BLE001
        obs.append(("run", f"file with layers {sizes}", False, f"{type(e).__name__}: {e}"))
        return
    check_loaded(r, sizes, lambda v, *k: float(v) == num[k], obs, f"file with layers {sizes}: every value in its place")


def opaque_files(all_sizes):
    """load_nnet on files whose numbers are opaque: every parameter value lands in its place, whatever the values."""
    def fn():
        pyfront.uninstall()
        obs = []
        d = tempfile.mkdtemp(prefix="vcn_", dir=prog.scratch())
        try:
            for sizes in all_sizes:
                path = os.path.join(d, "net.nnet")
                write_file(path, sizes, lambda *k: "$" + "_".join(map(str, k)), comments=["x"] * (len(sizes) % 3))
                table = {}

                def conv(s=0.0, *a):
                    s = s.strip() if isinstance(s, str) else s
                    if isinstance(s, str) and s.startswith("$"):
                        return table.setdefault(s, Opaque(s))  # noqa: B023
                    return s if isinstance(s, Opaque) else float(s, *a)
                builtins.vc_float__ = conv
                try:
                    r = parser_NNET.load_nnet(path, True)
                except Unsupported:
                    raise
                except (ValueError, TypeError) as e:
                    if "$" in str(e) or "Opaque" in str(e):
                        # its numbers are read by another function than float(text): read as numbers instead
                        plain_file(path, sizes, obs)
                        continue
                    obs.append(("run", f"file with layers {sizes}", False, f"{type(e).__name__}: {e}"))
                    continue
                except Exception as e:  # noqa: BLE001
                    obs.append(("run", f"file with layers {sizes}", False, f"{type(e).__name__}: {e}"))
                    continue
                finally:
                    builtins.vc_float__ = float
                check_loaded(r, sizes, lambda v, *k: isinstance(v, Opaque) and v.k == "$" + "_".join(map(str, k)), obs,
                             f"file with layers {sizes}: every value in its place")
        finally:
            shutil.rmtree(d)
        return dict(obligations=obs, functions=["parser_NNET.load_nnet", "parser_NNET.generate_layers"])
    return fn


NUMS = [0.0, -0.0, 1.0, -1.5, 1e-30, 123456789.123, 60261.0, -3.141593, 0.1, 5e-324, 1.7976931348623157e308, 1e22, 2.5e-7, 100.0]


def text_files(seed, n):
    """Numbers as text, and the constants written in the global variables file."""
    def fn():
        pyfront.uninstall()
        rng = random.Random(seed)
        obs = []
        d = tempfile.mkdtemp(prefix="vcn_", dir=prog.scratch())
        try:
            for _ in range(n):
                sizes = [rng.randint(1, 4) for _ in range(rng.randint(2, 5))]
                table = {}

                def num(*k):
                    v = rng.choice(NUMS) if rng.random() < 0.5 else rng.uniform(-100, 100)
                    table[k] = v  # noqa: B023
                    return rng.choice([repr(v), f"{v:.17e}", f" {v!r}"])
                path = os.path.join(d, "net.nnet")
                write_file(path, sizes, num)
                try:
                    r = parser_NNET.load_nnet(path, True)
                except (ValueError, TypeError) as e:
                    if "$" in str(e) or "Opaque" in str(e):
                        # its numbers are read by another function than float(text): read as numbers instead
                        plain_file(path, sizes, obs)
                        continue
                    obs.append(("run", f"file with layers {sizes}", False, f"{type(e).__name__}: {e}"))
                    continue
                except Exception as e:  # noqa: BLE001
                    obs.append(("run", f"file with layers {sizes}", False, f"{type(e).__name__}: {e}"))
                    continue
                eq = lambda v, *k: float(v) == table[k]  # noqa: B023
                check_loaded(r, sizes, eq, obs, f"file with layers {sizes}: values")
                text = r[6].write_normalization_cst_in_globalvars_file()
                try:
                    got = read_constants(text)
                    want = {"input_min": [table["min", i] for i in range(sizes[0])], "input_max": [table["max", i] for i in range(sizes[0])],
                            "input_mean": [table["mean", i] for i in range(sizes[0])], "input_range": [table["range", i] for i in range(sizes[0])],
                            "output_mean": table["mean", sizes[0]], "output_range": table["range", sizes[0]]}
                    ok, dt = got == want, f"{text}\nexpected {want}"
                except Exception as e:  # noqa: BLE001
                    ok, dt = False, f"{type(e).__name__}: {e}\n{text}"
                obs.append(("run", f"file with layers {sizes}: normalisation constants of the program", ok, "" if ok else dt))
        finally:
            shutil.rmtree(d)
        return dict(obligations=obs)
    return fn


def read_constants(text):
    import re
    out = {}
    for ln in text.split("\n"):
        m = re.match(r"^\s*(?:extern\s+)?float\s+(\w+)\s*(?:\[(\d+)\])?\s*=\s*(.*);\s*$", ln)
        if m:
            v = m.group(3).strip()
            if m.group(2):
                vs = [float(x) for x in v.strip("{}").split(",")]
                if len(vs) != int(m.group(2)):
                    raise ValueError(f"{m.group(1)}: {len(vs)} values in an array of {m.group(2)}")
                out[m.group(1)] = vs
            else:
                out[m.group(1)] = float(v)
        elif ln.strip() and not ln.strip().startswith("//"):
            raise ValueError(f"line {ln!r}")
    return out


# -- whole programs, run ---------------------------------------------------------------------------------------


def programs(seed, n):
    """Files with small dyadic numbers through the whole chain: exact in single precision."""
    def fn():
        pyfront.uninstall()
        rng = random.Random(seed)
        obs = []
        d = tempfile.mkdtemp(prefix="vcn_", dir=prog.scratch())
        try:
            for t in range(n):
                sizes = [rng.randint(1, 4) for _ in range(rng.randint(2, 4))]
                norm = t % 3 != 2
                T = {}

                def num(*k):
                    kind = k[0]
                    v = (rng.choice([0.5, 1, 2, 4]) if kind == "range" else rng.randint(-8, 0) if kind == "min" else
                         rng.randint(1, 8) if kind == "max" else rng.randint(-12, 12) / 4)
                    T[k] = Fraction(v)  # noqa: B023
                    return repr(float(v))
                path = os.path.join(d, "net.nnet")
                write_file(path, sizes, num)
                xs = [[Fraction(rng.randint(-40, 40), 4) for _ in range(sizes[0])] for _ in range(2)]
                want = [reference(sizes, T, x, norm) for x in xs]
                name = f"layers {sizes} normalize={norm} (seed {seed}, network {t})"
                try:
                    g = nn.CodeGenerator(file=path, normalize=norm, nb_tests=2, test_dataset=np.array([[float(v) for v in x] for x in xs], dtype=np.float32))
                    out = os.path.join(d, f"out{t}")
                    os.mkdir(out)
                    g.generate_c_files(out)
                    with tempfile.TemporaryDirectory(prefix="vc_") as td:
                        py = [float(v) for v in g.compute_inference(td)]
                    got = execute(out, xs, sizes[-1])
                except Exception as e:  # noqa: BLE001
                    obs.append(("run", name, False, f"{type(e).__name__}: {e}"))
                    continue
                want = [[float(v) for v in w] for w in want]
                ok = got == want and py == want[-1]
                obs.append(("run", name, ok, "" if ok else f"numbers {dict((str(k), float(v)) for k, v in T.items())} inputs "
                            f"{[[float(v) for v in x] for x in xs]}: program {got}, reference inference (last) {py}, expected {want}"))
        finally:
            shutil.rmtree(d)
        return dict(obligations=obs)
    return fn


def reference(sizes, T, x, norm):
    n = sizes[0]
    v = list(x)
    if norm:
        v = [(max(T["min", i], min(T["max", i], v[i])) - T["mean", i]) / T["range", i] for i in range(n)]
    for k in range(len(sizes) - 1):
        v = [sum(T["w", k, r, c] * v[c] for c in range(sizes[k])) + T["b", k, r] for r in range(sizes[k + 1])]
        if k < len(sizes) - 2:
            v = [max(a, Fraction(0)) for a in v]
    return [a * T["range", n] + T["mean", n] for a in v] if norm else v


def execute(d, xs, m):
    import conc
    with open(os.path.join(d, "replay.c"), "w") as fh:
        fh.write('#include <stdio.h>\n#include <string.h>\n#include <math.h>\n#include "parameters.c"\n#include "global_vars.c"\n'
                 '#include "inference.c"\nstatic inference_t C;\nint main(void){ static float in[]={'
                 + ",".join(repr(float(v)) for x in xs for v in x) + f"}}, out[{m}]; int i, s; for(s=0;s<{len(xs)};++s){{ inference(&C,out,in+s*{len(xs[0])});"
                 f'for(i=0;i<{m};++i) printf("%.17g\\n",(double)out[i]);}} return 0; }}\n')
    r = conc.compile_run(d, ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], "memory")
    if isinstance(r, conc.Result):
        return r.detail
    v = [float(t) for t in r.split()]
    return [v[k * m:(k + 1) * m] for k in range(len(xs))]


def tasks(tier, seed):
    quick = tier == "quick"

    def srch():
        for k in range(4):
            for o in programs(seed + k, 6)()["obligations"]:
                if not o[2]:
                    return dict(obligations=[], found=dict(name=o[1], detail=o[3]))
        return dict(obligations=[], found=None)
    out = [Task("normalisation", python_side, 300, srch)]
    for k in (1, 2, 3) if quick else (1, 2, 3, 4, 5):
        out.append(Task(f"generate_layers/{k}", layers(k), 300, srch))
    for k in (1, 2) if quick else (1, 2, 3):
        out.append(Task(f"program/{k}", code_side(k), 500, srch, weight=4))
    import itertools
    alls = [list(s) for n in (2, 3, 4) for s in itertools.product((1, 2, 3) if n < 4 else (1, 2), repeat=n)]
    alls += [[4, 1, 3, 2, 4], [2, 5, 1], [7, 4], [1, 6, 1, 2]]
    out.append(Task("files/opaque values", opaque_files(alls), 300, label="bounded"))
    out.append(Task("files/text", text_files(seed, 40 if quick else 400), 300, label="bounded"))
    for k in range(3):
        out.append(Task(f"programs/{k}", programs(seed * 10 + k, 5 if quick else 40), 600, label="bounded"))
    return out
