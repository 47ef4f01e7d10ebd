"""A11: padding amounts and output sizes of convolutions and poolings."""
import random

import numpy as np

import arith
import pyfront
from acetone_nnet.generator.activation_functions import Linear
from acetone_nnet.generator.layers import AveragePooling2D, Conv2D, MaxPooling2D
from acetone_nnet.ir import Layer
from casetasks import Covered, relevant
from check import Task
from core import ONE, ZERO, Facts, c_and, c_eq, c_ge, c_gt, c_not, fdiv, ite, poly, rmax, sym

ASSUMPTIONS = ["sizes, window, stride and dilation are integers >= 1, explicit padding amounts are integers >= 0",
               "math.floor(a / b) is the integer quotient (exact for |a| < 2**53)"]
TRUSTED = ["traits.HasTraits attribute storage"]

STRINGS = {"VALID": "valid", "valid": "valid", "SAME_UPPER": "upper", "same": "upper", "SAME_LOWER": "lower"}


def same_total(n, k, s, d):
    """Total padding so that the output has ceil(n / s) elements, with n = s * quotient + remainder."""
    q, r = n
    return rmax(ZERO, (q + ite(c_gt(r), ONE, ZERO) - 1) * s + d * (k - 1) + 1 - (s * q + r))


def definition(mode, sizes, KH, KW, S, D, pads):
    """(top, left, bottom, right) by the operator's definition."""
    if mode == "list":
        return pads
    kind = STRINGS[mode]
    if kind == "valid":
        return [ZERO] * 4
    h, w = same_total(sizes[0], KH, S, D), same_total(sizes[1], KW, S, D)
    ht, wt = fdiv(h, 2), fdiv(w, 2)
    if kind == "upper":
        return [ht, wt, h - ht, w - wt]
    return [h - ht, w - wt, ht, wt]


def syms(*names):
    return [poly(sym(n)) for n in names]


def explored(fn, F):
    pyfront.install()
    with Covered() as c:
        r = pyfront.explore(fn, F)
    return r, sorted(n for n in c.names if relevant(n))


def base():
    KH, KW, S, D = v = syms("KH", "KW", "S", "D")
    pads = syms("PT", "PL", "PB", "PR")
    F = Facts()
    for x in v:
        F.lower(x, 1)
    for x in pads:
        F.lower(x, 0)
    # every size >= 1 is S * quotient + remainder in exactly one way
    sizes = []
    for n in "HW":
        q, r = syms(f"Q{n}", f"R{n}")
        F.lower(q, 0)
        F = F.bind(r, S).assume(c_ge(S * q + r - 1))
        sizes.append((q, r))
    return (*[S * q + r for q, r in sizes], KH, KW, S, D), sizes, pads, F


def amounts(mode, as_array=False, default_dilation=False):
    def fn():
        (H, W, KH, KW, S, D), sizes, pads, F = base()
        u = [pyfront.undim(x) for x in (H, W, KH, KW, S, D)]
        p = [pyfront.undim(x) for x in pads] if mode == "list" else mode

        def run():
            if default_dilation:
                return Layer.compute_padding(p, *u[:5])
            return Layer.compute_padding(p, *u)
        obs = []
        paths, fns = explored(run, F)
        want = definition(mode, sizes, KH, KW, S, poly(1) if default_dilation else D, pads)
        for Fp, val, exc, ctx in paths:
            pyfront.CTX = ctx
            if exc is not None:
                obs.append(("accept", f"{mode}: accepted", False, f"{type(exc).__name__}: {exc}"))
                continue
            r, l, b, t = [poly(pyfront.dim(x)) for x in val]
            for side, got, w in zip(("top", "left", "bottom", "right"), (t, l, b, r), want):
                ok, cx = arith.prove_split(c_eq(got - w), Fp)
                obs.append(("post", f"{mode}: {side} amount = definition", ok, "" if ok else f"{got} / {w}; counterexample {cx}"))
        return dict(obligations=obs, functions=fns, paths=len(paths))
    return fn


def construct(cls, mode):
    """The constructor accepts exactly the output size of the definition, and then every window lies in the padded input."""
    def fn():
        (H, W, KH, KW, S, D), sizes, pads, F = base()
        C, N, OH, OW = syms("C", "N", "OH", "OW")
        for x in (C, N):
            F.lower(x, 1)
        conv = cls is Conv2D
        for x in (OH, OW):
            F.lower(x, 1)
        if not conv:
            KW, D = KH, poly(1)
        u = pyfront.undim
        p = [u(x) for x in pads] if mode == "list" else mode
        want = definition(mode, sizes, KH, KW, S, D, pads)
        eh, ew = D * (KH - 1) + 1, D * (KW - 1) + 1
        hh, ww = H + want[0] + want[2], W + want[1] + want[3]
        right = c_and(c_ge(hh - (OH - 1) * S - eh), c_gt((OH * S) + eh - hh),
                      c_ge(ww - (OW - 1) * S - ew), c_gt((OW * S) + ew - ww))
        # (OH - 1) * S <= hh - eh < OH * S is the definition of the output height
        from types import SimpleNamespace

        from prove import Builder
        bases = {}

        def run():
            b = Builder(SimpleNamespace(act=False), bases, 5)
            if conv:
                return Conv2D(original_name="c", idx=1, conv_algorithm="specs", size=u(N) * u(OH) * u(OW), padding=p,
                              strides=u(S), kernel_h=u(KH), kernel_w=u(KW), dilation_rate=u(D), nb_filters=u(N),
                              input_shape=[1, u(C), u(H), u(W)], output_shape=[1, u(N), u(OH), u(OW)],
                              weights=b.T("w", u(N), u(C), u(KH), u(KW)), biases=b.T("b", u(N)), activation_function=Linear())
            return cls(original_name="p", idx=1, size=u(C) * u(OH) * u(OW), padding=p, strides=u(S), pool_size=u(KH),
                       input_shape=[1, u(C), u(H), u(W)], output_shape=[1, u(C), u(OH), u(OW)], activation_function=Linear())
        obs = []
        name = f"{cls.__name__} {mode}"
        paths, fns = explored(run, F)
        for Fp, layer, exc, ctx in paths:
            pyfront.CTX = ctx
            if exc is not None:
                ok, cx = arith.prove_split(c_not(right), Fp)
                obs.append(("accept", f"{name}: refused only when the output size is not the definition's", ok,
                            "" if ok else f"{type(exc).__name__}: {exc}; counterexample {cx}"))
                continue
            got = [poly(pyfront.dim(getattr(layer, a))) for a in ("pad_top", "pad_left", "pad_bottom", "pad_right")]
            for side, g, w in zip(("top", "left", "bottom", "right"), got, want):
                ok, cx = arith.prove_split(c_eq(g - w), Fp)
                obs.append(("post", f"{name}: stored {side} amount = definition", ok, "" if ok else f"{g} / {w}; {cx}"))
            for what, g, n, e, o in (("height", H + got[0] + got[2], H, eh, OH), ("width", W + got[1] + got[3], W, ew, OW)):
                ok, cx = arith.prove_split(c_ge(g - (o - 1) * S - e), Fp)
                obs.append(("bounds", f"{name}: the last window lies inside the padded {what}", ok, "" if ok else str(cx)))
                ok, cx = arith.prove_split(c_gt(o * S + e - g), Fp)
                obs.append(("post", f"{name}: no window of the definition is missing along the {what}", ok, "" if ok else str(cx)))
        if not any(exc is None for _, _, exc, _ in paths):
            obs.append(("vacuous", f"{name}: some instance is accepted", False, ""))
        return dict(obligations=obs, functions=fns, paths=len(paths))
    return fn


# ---------------------------------------------------------------------------------------------------------- concrete
def ref(mode, n, k, s, d, before, after):
    """(before, after) amounts for one axis."""
    if mode == "list":
        return before, after
    kind = STRINGS[mode]
    if kind == "valid":
        return 0, 0
    total = max((-(-n // s) - 1) * s + d * (k - 1) + 1 - n, 0)
    return (total // 2, total - total // 2) if kind == "upper" else (total - total // 2, total // 2)


def grid(limit):
    def fn():
        pyfront.uninstall()
        obs, n = [], 0
        for mode in [*STRINGS, "list"]:
            bad = None
            for h in range(1, limit + 1):
                for k in range(1, 6):
                    for s in range(1, 5):
                        for d in range(1, 4):
                            w, kw = (h * 5) % 9 + 1, (k * 3) % 5 + 1
                            pads = [h % 3, k % 4, s, d]
                            got = Layer.compute_padding(pads if mode == "list" else mode, h, w, k, kw, s, d)
                            t, b = ref(mode, h, k, s, d, pads[0], pads[2])
                            l, r = ref(mode, w, kw, s, d, pads[1], pads[3])
                            n += 1
                            if tuple(int(x) for x in got) != (r, l, b, t) and bad is None:
                                bad = (f"in {h}x{w} kernel {k}x{kw} stride {s} dilation {d}: "
                                       f"(right, left, bottom, top) = {tuple(got)}, definition {(r, l, b, t)}")
            obs.append(("enumerated", f"compute_padding {mode} on the grid", bad is None, bad or ""))
        return dict(obligations=obs, paths=n)
    return fn


def builds(seed, n):
    """Concrete constructor calls: right size accepted with the right amounts, sizes off by one refused."""
    def fn():
        pyfront.uninstall()
        rnd = random.Random(seed)
        obs = []
        bad = None
        for _ in range(n):
            cls = rnd.choice([Conv2D, AveragePooling2D, MaxPooling2D])
            mode = rnd.choice([*STRINGS, "list"])
            c, f, h, w, s = [rnd.randint(1, m) for m in (3, 3, 9, 9, 3)]
            kh, kw, d = rnd.randint(1, 4), rnd.randint(1, 4), rnd.randint(1, 3)
            if cls is not Conv2D:
                kw, d = kh, 1
            pads = [rnd.randint(0, 2) for _ in range(4)]
            t, b = ref(mode, h, kh, s, d, pads[0], pads[2])
            l, r = ref(mode, w, kw, s, d, pads[1], pads[3])
            oh, ow = (h + t + b - d * (kh - 1) - 1) // s + 1, (w + l + r - d * (kw - 1) - 1) // s + 1
            if oh < 1 or ow < 1:
                continue
            for dh, dw in ((0, 0), (1, 0), (0, -1), (-1, 0), (0, 1)):
                o, q = oh + dh, ow + dw
                if o < 1 or q < 1:
                    continue
                p = list(pads) if mode == "list" else mode
                try:
                    if cls is Conv2D:
                        x = Conv2D("c", 1, "specs", f * o * q, p, s, kh, kw, d, f, [1, c, h, w], [1, f, o, q],
                                   np.ones((f, c, kh, kw)), np.ones(f), Linear())
                    else:
                        x = cls(original_name="p", idx=1, size=c * o * q, padding=p, strides=s, pool_size=kh,
                                input_shape=[1, c, h, w], output_shape=[1, c, o, q], activation_function=Linear())
                    res = (x.pad_top, x.pad_left, x.pad_bottom, x.pad_right)
                except ValueError:
                    res = "refused"
                want = (t, l, b, r) if (dh, dw) == (0, 0) else "refused"
                if res != want and bad is None:
                    bad = (f"{cls.__name__} {mode} in {h}x{w} kernel {kh}x{kw} stride {s} dilation {d} pads {pads} output {o}x{q}:"
                           f" {res}, definition {want}")
        obs.append(("run", "constructors on sampled sizes", bad is None, bad or ""))
        return dict(obligations=obs)
    return fn


def search():
    for f in (grid(12), builds(7, 600)):
        for _, n, ok, d in f()["obligations"]:
            if not ok:
                return dict(obligations=[], found=dict(status="mismatch", input=d, detail=n))
    return dict(obligations=[], found=None)


def tasks(tier, seed):
    out = [Task(f"compute_padding/{m}", amounts(m), 200, search) for m in [*STRINGS, "list"]]
    out += [Task(f"compute_padding/{m}/no dilation given", amounts(m, default_dilation=True), 200, search) for m in ("same", "SAME_LOWER")]
    for cls in (Conv2D, AveragePooling2D, MaxPooling2D):
        out += [Task(f"{cls.__name__}/{m}", construct(cls, m), 400, search) for m in ("VALID", "SAME_UPPER", "SAME_LOWER", "list")]
    q = tier == "quick"
    out.append(Task("enumerated/compute_padding", grid(12 if q else 40), 300, label="bounded"))
    out.append(Task("enumerated/constructors", builds(seed, 400 if q else 8000), 300, label="bounded"))
    return out
