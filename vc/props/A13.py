"""A13: choice of the implementation of each layer."""
import itertools
import random
from types import SimpleNamespace

import numpy as np

import core
import graphs
import pyfront
from acetone_nnet.generator import layers as L
from acetone_nnet.generator.activation_functions import (Clip, Exponential, LeakyReLu, Logarithm, ReLu, Sigmoid, Silu, TanH)
from acetone_nnet.generator.neural_network import CodeGenerator
from acetone_nnet.versioning import versioning as vs
from acetone_nnet.versioning.layer_factories import LayerFactory, implemented
from case import Case, D
from casetasks import Covered, relevant
from check import Task
from core import c_eq, c_ge, poly
from layers import conv, dense, elementwise, movement, reduction
from pyfront import SymTensor
from prove import Builder, sym_dims

ASSUMPTIONS = ["identifiers are distinct", "grouped convolutions (group > 1) are outside the contract of the convolution "
               "factories other than direct_block: their constructors refuse them"]
TRUSTED = ["traits.HasTraits attribute storage"]

#: implementation name -> class, for every layer type; None is the default
DEFAULT = {n: f"{n}Default" for n in (
    "Add Average AveragePooling2D BatchNormalization Concatenate ConstantPad Dense Divide EdgePad Flatten Gather GatherElements "
    "Gemm MatMul MaxPooling2D Maximum Minimum Multiply ReduceMax ReduceMean ReduceMin ReduceProd ReduceSum ReflectPad "
    "ResizeCubic ResizeLinear ResizeNearest Softmax Subtract Tile Transpose WrapPad LSTM").split()}
DEFAULT |= {n: "ActivationLayerDefault" for n in "Clip Exponential Hyperb_tan Leakyrelu Logarithm Relu Sigmoid Silu".split()}
DEFAULT |= {"Constant": "ConstantLayerDefault", "Input_layer": "InputLayerDefault"}
EXPECT = {n: {None: c, "default": c} for n, c in DEFAULT.items()}
for n in ("AveragePooling2D", "MaxPooling2D"):
    EXPECT[n]["channels_last"] = DEFAULT[n]
EXPECT["Conv2D"] = {None: "Conv2D6loops", "6loops": "Conv2D6loops", "direct_block": "Conv2Ddirect_block",
                    **{f"std_gemm_{x}": "Conv2DStdGemm" for x in ("nn", "nt", "tn", "tt")},
                    **{f"indirect_gemm_{x}": "Conv2DIndirectGemm" for x in ("nn", "nt", "tn", "tt")}}

#: attributes that name the implementation itself, or that only the new instance is given
OWN = {"version", "conv_algorithm", "output_var", "local_var", "local_var_2"}


def resize(cls):
    def build(d, b):
        kw = dict(original_name="r", idx=b.idx, size=d.C * d.OH * d.OW, input_shape=[1, d.C, d.H, d.W], axes=[],
                  coordinate_transformation_mode="asymmetric", exclude_outside=0, keep_aspect_ratio_policy="stretch",
                  boolean_resize=None, target_size=[1, d.C, d.OH, d.OW], roi=[], extrapolation_value=1.5, nearest_mode="floor",
                  cubic_coeff_a=-0.5, activation_function=b.act)
        return cls(**kw)
    return Case(cls.__name__, ("A13",), dict(C=1, H=2, W=2, OH=2, OW=2), build, lambda d: [], lambda d: (d.C, d.OH, d.OW), None)


def acts():
    out = []
    for f in (lambda d: Clip(d.hi, d.lo), lambda d: Exponential(), lambda d: LeakyReLu(d.lo), lambda d: Logarithm(),
              lambda d: ReLu(), lambda d: Sigmoid(), lambda d: Silu(), lambda d: TanH()):
        def build(d, b, f=f):
            return L.ActivationLayer(original_name="a", idx=b.idx, size=d.N, activation_function=f(d))
        out.append(Case(f"activation layer {len(out)}", ("A13",), dict(N=1), build, lambda d: [(d.N,)], lambda d: (d.N,), None,
                        reals=("hi", "lo"), pre=lambda d: [c_ge(d.hi - d.lo), c_ge(d.lo)]))
    return out


def cases():
    out, seen = [], set()
    for m in (conv, dense, elementwise, movement, reduction):
        out += [c for c in m.CASES if "direct_block" not in c.name]
    out += [resize(c) for c in (L.ResizeNearest, L.ResizeLinear, L.ResizeCubic)] + acts()
    keep = []
    for c in out:
        if c.name not in seen:
            seen.add(c.name)
            keep.append(c)
    return keep


def same(a, b, F, depth=0):
    """None, or how the values differ."""
    if a is b:
        return None
    if isinstance(a, SymTensor) or isinstance(b, SymTensor):
        a, b = pyfront.to_tensor(a), pyfront.to_tensor(b)
        if len(a._shape) != len(b._shape):
            return f"shapes {a._shape} and {b._shape}"
        for x, y in zip(a._shape, b._shape):
            if not core.proves(c_eq(poly(x) - poly(y)), F):
                return f"shapes {a._shape} and {b._shape}"
        G, idx = F, []
        for s in a._shape:
            o = poly(core.fresh("o"))
            G = G.bind(o, s)
            idx.append(o)
        x, y = core.normal(a.at(*idx), G), core.normal(b.at(*idx), G)
        return None if core.equal(x, y, G) else f"{x} / {y}"
    if isinstance(a, pyfront.Sym) or isinstance(b, pyfront.Sym):
        if isinstance(a, pyfront.Sym | int | float) and isinstance(b, pyfront.Sym | int | float):
            x, y = poly(pyfront.dim(a)), poly(pyfront.dim(b))
            return None if core.equal(core.normal(x, F), core.normal(y, F), F) else f"{x} / {y}"
        return f"{a} / {b}"
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype != object and b.dtype != object:
        return None if a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes() else f"{a} / {b}"
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        if len(a) != len(b):
            return f"{a} / {b}"
        return next((r for r in (same(x, y, F, depth + 1) for x, y in zip(a, b)) if r), None)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{set(a)} / {set(b)}"
        return next((r for r in (same(a[k], b[k], F, depth + 1) for k in a) if r), None)
    if type(a) is type(b) and hasattr(a, "__dict__") and not isinstance(a, type) and depth < 4:
        if type(a).__eq__ is object.__eq__ or hasattr(a, "write_activation_str"):
            return next((f"{k}: {r}" for k in sorted(set(vars(a)) | set(vars(b)))
                         for r in [same(vars(a).get(k), vars(b).get(k), F, depth + 1)] if r), None)
    if callable(a) and callable(b) and hasattr(a, "__func__"):
        return None if a.__func__ is b.__func__ else f"{a} / {b}"
    try:
        return None if type(a) is type(b) and bool(a == b) else f"{a!r} / {b!r}"
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__} {e}"


def state(x):
    d = dict(vars(x))
    d.update({k: getattr(x, k) for k in ("idx", "size", "name", "original_name", "activation_function")})
    return {k: v for k, v in d.items() if not k.startswith("__")}


def factory(case):
    """Every implementation registered for the layer type, from arbitrary parameters."""
    def fn():
        pyfront.install()
        obs, fns = [], set()
        # which layer type this is
        d, dd = sym_dims(case)
        pyfront.define(case.definitions(d))
        facts = case.facts(d)
        probe = []

        def name():
            b = Builder(case, {}, 5)
            probe.append(case.build(D(dd), b).name)
        pyfront.explore(name, facts)
        if not probe:
            return dict(obligations=[("accept", f"{case.name}: the layer can be built", False, "")])
        lname = probe[0]
        if lname not in implemented:
            return dict(obligations=[("registered", f"{lname} has implementations", False, "")])
        for version in implemented[lname].implementations:
            if version == "direct_block" and case.name != "conv 6loops":
                continue  # many paths, and the same layer type: covered by that case
            bases = {}

            def go():
                b = Builder(case, bases, 5)
                try:
                    old = case.build(D(dd), b)
                except (ValueError, TypeError, AssertionError):
                    return None  # no such layer
                before = dict(state(old))
                return old, before, implemented[lname](old, version)
            with Covered() as c:
                paths = pyfront.explore(go, facts, 400)
            fns |= {n for n in c.names if relevant(n)}
            obs.append(("vacuity", f"{case.name} -> {lname} {version}: some instance exists",
                        any(exc is None and val is not None for _, val, exc, _ in paths), ""))
            for F, val, exc, ctx in paths:
                if exc is None and val is None:
                    continue
                pyfront.CTX = ctx
                what = f"{case.name} -> {lname} {version}"
                if version == "direct_block" and isinstance(exc, ValueError):
                    continue  # refuses the numbers of channels and filters that are no multiple of its blocks
                if exc is not None:
                    obs.append(("accept", f"{what}: the factory accepts every instance", False, f"{type(exc).__name__}: {exc}"))
                    continue
                old, before, new = val
                want = EXPECT.get(lname, {}).get(version)
                obs.append(("class", f"{what}: instance of the requested implementation",
                            isinstance(new, type(old)) and type(new).__name__ == want, f"{type(new).__name__}, expected {want}"))
                if hasattr(new, "version"):
                    obs.append(("class", f"{what}: the instance announces the version", new.version == version, str(new.version)))
                if lname == "Conv2D":
                    # the default implementation is 6loops, whatever the importer's placeholder is
                    v = new.conv_algorithm
                    obs.append(("class", f"{what}: the instance runs the algorithm", v == version or "_gemm_" in str(version) and v == version[-7:]
                                or version is None and type(new).__name__ == "Conv2D6loops", str(v)))
                st = state(new)
                for k, v in before.items():
                    if k in OWN or (k == "name" and case.name == "activation layer") or k in ("previous_layer", "next_layer", "path", "output_str"):
                        continue
                    if k == "axis" and lname == "Softmax" and before.get("one_dimension") is True and st.get("one_dimension") is True:
                        continue  # the whole vector is normalised: the axis has no meaning (A06 proves the function)
                    r = same(v, st.get(k, "absent"), F) if k in st else "absent"
                    obs.append(("post", f"{what}: {k} is kept", r is None, r or ""))
                after = state(old)
                for k, v in before.items():
                    r = same(v, after.get(k), F)
                    if r:
                        obs.append(("frame", f"{what}: the replaced layer is not modified", False, f"{k}: {r}"))
        return dict(obligations=obs, functions=sorted(fns))
    return fn


def registry():
    pyfront.uninstall()
    obs = []
    for n, vers in EXPECT.items():
        have = implemented[n].implementations if n in implemented else {}
        obs.append(("registered", f"{n}: implementations {sorted(map(str, vers))}", n in implemented and set(have) == set(vers),
                    f"{list(have)}"))
        if n in implemented:
            obs.append(("registered", f"{n}: listed implementations",
                        sorted(implemented[n].list_implementations) == sorted(v for v in vers if v is not None),
                        str(implemented[n].list_implementations)))
    listed = vs.list_all_implementations()
    obs.append(("registered", "list_all_implementations lists every layer type",
                {k: sorted(v) for k, v in listed.items()} == {k: sorted(f.list_implementations) for k, f in implemented.items()}, ""))
    for n, f in implemented.items():
        for bad in ("no such version", "", "Default", "6loop", 0):
            try:
                f(SimpleNamespace(), bad)
                r = "accepted"
            except KeyError:
                r = None
            except Exception as e:  # noqa: BLE001
                r = f"{type(e).__name__}: {e}"
            if r:
                obs.append(("run", f"{n}: unknown implementation {bad!r} is refused", False, r))
    obs.append(("run", "unknown implementations are refused", True, ""))
    return dict(obligations=obs + factories_contract(), functions=["LayerFactory.register_implementation", "LayerFactory.__call__",
                                                                   "versioning.register_factory", "versioning.list_all_implementations"])


def factories_contract():
    """LayerFactory on its own: any sequence of registrations keeps name -> variant, refuses duplicates and unknown names."""
    obs = []
    names = [None, "default", "a", "B", "zz", "6loops"]
    bad = None
    for k in range(1, 5):
        for order in itertools.permutations(names, k):
            f = LayerFactory("T")
            for n in order:
                f.register_implementation(n, lambda layer, v, n=n: (layer, v, n))
            for n in names:
                try:
                    r = f("layer", n)
                except KeyError:
                    r = "refused"
                want = ("layer", n, n) if n in order else "refused"
                if r != want:
                    bad = f"registered {order}, requested {n!r}: {r}"
                if n in order:
                    try:
                        f.register_implementation(n, None)
                        bad = f"registered {order}: {n!r} registered again"
                    except KeyError:
                        pass
            if sorted(f.list_implementations) != sorted(n for n in order if n is not None):
                bad = f"registered {order}, listed {f.list_implementations}"
    obs.append(("enumerated", "LayerFactory keeps every variant under its name", bad is None, bad or ""))
    saved = dict(implemented)
    try:
        f = LayerFactory("Fresh")
        vs.register_factory("Fresh layer", f)
        ok = implemented.get("Fresh layer") is f and all(implemented[k] is v for k, v in saved.items())
        obs.append(("run", "register_factory adds the factory and no other", ok, ""))
        for n in ("Fresh layer", "Conv2D"):
            try:
                vs.register_factory(n, LayerFactory("X"))
                obs.append(("run", f"register_factory refuses the existing {n}", False, "accepted"))
            except KeyError:
                pass
            obs.append(("run", f"register_factory keeps the existing {n}", implemented[n] is (f if n == "Fresh layer" else saved[n]), ""))
    finally:
        implemented.clear()
        implemented.update(saved)
    return obs


# ------------------------------------------------------------------------------------------- selection and replacement
KINDS = ["conv", "ReLu", "pool", "softmax", "add", "mul", "bn", "const"]
CONV = ["6loops", "std_gemm_nn", "std_gemm_tt", "direct_block", "std_gemm_nt", "std_gemm_tn"]


def network(rnd):
    from props import A12
    net = [("input", ())]
    for _ in range(rnd.randint(1, 6)):
        k = len(net)
        kind = rnd.choice(["conv", "conv", *KINDS])
        n = {"add": 2, "mul": 2, "const": 0}.get(kind, 1)
        net.append((kind, tuple(rnd.randrange(k) for _ in range(n))))
    ids = rnd.sample(range(2 * len(net)), len(net))
    return A12.build(net, ids, rnd.randrange(1000), False)


def choose(rnd, ls):
    names = sorted({x.name for x in ls})
    versions = {}
    for n in names:
        if rnd.random() < 0.5:
            versions[n] = rnd.choice(CONV) if n == "Conv2D" else rnd.choice(["default"])
    for x in ls:
        if rnd.random() < 0.4:
            versions[x.idx] = rnd.choice(CONV) if x.name == "Conv2D" else rnd.choice(["default"])
    items = list(versions.items())
    rnd.shuffle(items)
    versions = dict(items)
    if rnd.random() < 0.2:
        versions[1000] = "6loops"
    if rnd.random() < 0.2:
        versions["Nothing"] = "default"
    return versions if rnd.random() < 0.9 else None


def select(ls, versions, defaults):
    g = object.__new__(CodeGenerator)
    g.layers, g.default_implementations = ls, dict(defaults)
    before = None if versions is None else dict(versions)
    r = g.select_layers_implementation(versions)
    assert versions == before, "the request was modified"
    return r


def selection(seed, count):
    """Identifier first, then layer type, then the type's default; then each layer is replaced by that implementation."""
    def fn():
        pyfront.uninstall()
        rnd = random.Random(seed)
        bad = None
        F = core.Facts()
        for _ in range(count):
            ls = network(rnd)
            versions = choose(rnd, ls)
            defaults = rnd.choice([{"Conv2D": "6loops"}, {"Conv2D": "std_gemm_nn", "Softmax": "default"}])
            what = f"layers {[(x.idx, x.name) for x in ls]} versions {versions} defaults {defaults}"
            try:
                got = select(ls, versions, defaults)
                v = versions or {}
                want = {x.idx: v[x.idx] if x.idx in v else v[x.name] if x.name in v else defaults.get(x.name) for x in ls}
                if got != want:
                    bad = f"{what}: selected {got}, requested {want}"
                    break
                for x in ls:
                    x.path, x.output_str = rnd.randrange(4), f"output_{rnd.randrange(9)}"
                old = list(ls)
                states = [dict(state(x)) for x in old]
                links = [([p.idx for p in x.previous_layer], [p.idx for p in x.next_layer]) for x in old]
                part = {k: got[k] for k in rnd.sample(list(got), rnd.randint(0, len(got)))} if rnd.random() < 0.3 else got
                new = vs.versioning(ls, part)
                bad = replaced(old, states, links, new, part, F)
                if bad:
                    bad = f"{what}: {bad}"
                    break
            except Exception as e:  # noqa: BLE001
                bad = f"{what}: {type(e).__name__}: {e}"
                break
        obs = [("enumerated", "selection and replacement on sampled networks and requests", bad is None, bad or "")]
        # unknown implementations are refused
        r = None
        for key in ("Conv2D", "Relu", 0):
            ls = [graphs.network(1, [])[0]] if False else network(random.Random(3))
            for x in ls:
                x.path = 0
            k = next((x.idx for x in ls), 0) if key == 0 else key
            if key != 0 and not any(x.name == key for x in ls):
                continue
            try:
                vs.versioning(ls, select(ls, {k: "no such thing"}, {}))
                r = f"{key}: accepted"
            except KeyError:
                pass
            except Exception as e:  # noqa: BLE001
                r = f"{key}: {type(e).__name__} {e}"
        obs.append(("run", "an unknown implementation is refused", r is None, r or ""))
        return dict(obligations=obs, functions=["CodeGenerator.select_layers_implementation", "versioning.versioning"], paths=count)
    return fn


def replaced(old, states, links, new, part, F):
    if len(new) != len(old):
        return f"{len(old)} layers became {len(new)}"
    for x, st, (pv, nx), y in zip(old, states, links, new):
        if y.idx != x.idx:
            return f"layer {x.idx} is at the place of layer {y.idx}"
        if x.idx not in part:
            if y is not x:
                return f"layer {x.idx} was replaced although no implementation was requested"
            continue
        v = part[x.idx]
        want = EXPECT[x.name][v]
        if type(y).__name__ != want:
            return f"layer {x.idx} {x.name} requested {v}: is a {type(y).__name__}, expected {want}"
        if [p.idx for p in y.previous_layer] != pv or [p.idx for p in y.next_layer] != nx:
            return f"layer {x.idx}: neighbours changed"
        stn = state(y)
        for k, a in st.items():
            if k in OWN or k in ("previous_layer", "next_layer"):
                continue
            r = same(a, stn.get(k, "absent"), F)
            if r:
                return f"layer {x.idx} {x.name} {v}: {k} changed: {r}"
        if (y.path, y.output_str) != (st.get("path"), st.get("output_str")):
            return f"layer {x.idx}: buffers changed"
    return None


def tasks(tier, seed):
    q = tier == "quick"
    out = [Task(f"factory/{c.name}", factory(c), 300) for c in cases()]
    out.append(Task("registry", registry, 200))
    out.append(Task("enumerated/selection", selection(seed, 150 if q else 5000), 300, label="bounded"))
    return out
