"""A18: the output comparison tool."""
import contextlib
import io
import itertools
import os
import random
import sys
import tempfile
from fractions import Fraction

import numpy as np
from acetone_nnet.cli import compare as cmp
from check import Task
from contracts import compare, proved

ASSUMPTIONS = ["float.fromhex and str.split cut a line into its numbers (run on samples)",
               "the file is read line by line, in order", "a line without numbers stands for a missing line",
               "compare_files looks at least at the lines of the tests it is asked for"]
TRUSTED = ["Z3's IEEE-754 theory and the Python verifier vc/pyvc.py"]
BOUNDED = ["small files of at most 3 lines of at most 3 numbers, and pairs of special and random values, compared by the real tool"]

EPS, MIN, MAX = 128 * sys.float_info.epsilon, sys.float_info.min, sys.float_info.max
SPECIAL = [0.0, -0.0, 5e-324, MIN, 1.0, -1.0, 1 + 2 ** -46, 1 + 2 ** -44, 1 + 2 ** -30, 3.4e38, -3.4e38, MAX, -MAX, float("inf"), float("-inf"),
           float("nan"), 1e-45, 2.0 ** -149, 2.0 ** 127]


def verdict(a, b):
    """True: must agree; False: must differ; None: at the edge of the tolerance."""
    if a != a or b != b:
        return False
    if a == b:
        return True
    if abs(a) == float("inf") or abs(b) == float("inf"):
        return False
    d, n = abs(Fraction(a) - Fraction(b)), abs(Fraction(a)) + abs(Fraction(b))
    lim = max(Fraction(MIN), Fraction(EPS) * n)
    return True if d < lim * Fraction(999, 1000) else False if d > lim * Fraction(1001, 1000) else None


def pairs(seed, n):
    def fn():
        rng = random.Random(seed)
        vals = list(itertools.product(SPECIAL, SPECIAL))
        for _ in range(n):
            a = rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)
            vals.append((a, a * (1 + rng.choice([0, 1, -1]) * 2.0 ** -rng.randint(40, 52))))
        bad = None
        for a, b in vals:
            for t in (float, np.float64, np.float32):
                with np.errstate(all="ignore"):
                    x, y = t(a), t(b)
                want = verdict(float(x), float(y))
                try:
                    with np.errstate(all="ignore"):
                        got = bool(cmp.compare_floats(x, y)[0])
                except Exception as e:  # noqa: BLE001
                    got = f"{type(e).__name__}: {e}"
                if want is not None and got != want or isinstance(got, str):
                    bad = bad or f"compare_floats({t.__name__}({a!r}), {t.__name__}({b!r})) answers {got}, expected {want}"
        return dict(obligations=[("enumerated", "pairs of values", bad is None, bad or "")], paths=len(vals),
                    functions=["compare_floats"])
    return fn


def text(v):
    return "nan" if v != v else float(v).hex() if abs(v) != float("inf") else ("inf" if v > 0 else "-inf")


def agree(f1, f2, n):
    """Whether the first n lines agree: None when a pair is at the edge."""
    out = True
    for a, b in itertools.islice(itertools.zip_longest(f1, f2, fillvalue=[]), n):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            v = verdict(x, y)
            if v is False:
                return False
            out = None if v is None else out
    return out


def files(seed, n):
    def fn():
        rng = random.Random(seed + 1)
        vals = [0.0, 1.0, 1 + 2 ** -48, 1 + 2 ** -20, -1.0, float("nan"), float("inf"), 2.0 ** 127]
        lines = [[], [1.0], [2.0], [1.0, 1.0], [float("nan")], [1.0, 2.0]]
        cases = [([*a], [*b], k, "double") for la in range(3) for lb in range(3) for a in itertools.product(lines[1:4], repeat=la)
                 for b in itertools.product(lines[1:4], repeat=lb) for k in range(3)]
        for _ in range(n):
            f1 = [[rng.choice(vals) for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(0, 4))]
            f2 = [list(x) for x in f1]
            if f2 and rng.random() < 0.7:
                i = rng.randrange(len(f2))
                w = rng.randrange(5)
                if w == 0:
                    f2[i].append(rng.choice(vals))
                elif w == 1 and f2[i]:
                    f2[i].pop(rng.randrange(len(f2[i])))
                elif w == 2 and f2[i]:
                    f2[i][rng.randrange(len(f2[i]))] = rng.choice(vals)
                elif w == 3:
                    f2.pop(i)
                else:
                    f2.insert(i, [rng.choice(vals)])
            cases.append((f1, f2, rng.randint(0, 4), rng.choice(["float", "double"])))
        bad = None
        d = tempfile.mkdtemp()
        p1, p2 = os.path.join(d, "a"), os.path.join(d, "b")
        for f1, f2, k, prec in cases:
            for p, f in ((p1, f1), (p2, f2)):
                with open(p, "w") as o:
                    o.write("".join(" ".join(text(v) for v in ln) + " \n" for ln in f))
            g1, g2 = f1, f2
            if prec == "float":
                g1, g2 = ([[float(np.float32(v)) for v in ln] for ln in f] for f in (f1, f2))
            tests, every = agree(g1, g2, k), agree(g1, g2, max(len(g1), len(g2)))
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    got = bool(cmp.compare_files(p1, p2, k, prec)[0])
            except Exception as e:  # noqa: BLE001
                got = f"{type(e).__name__}: {e}"
            if isinstance(got, str) or got is True and tests is False or got is False and every is True:
                bad = bad or f"compare_files of the lines {f1} and {f2}, nb_tests={k}, {prec}: {got}"
        return dict(obligations=[("enumerated", "small files", bad is None, bad or "")], paths=len(cases),
                    functions=["preprocess_line", "compare_lines", "compare_files"])
    return fn


def values():
    """preprocess_line: the numbers of the line, in order, rounded once to the precision asked for."""
    bad = None
    for seps in (" ", "  "):
        for ln in itertools.product(["0x1.8p+1", "-0x1p-149", "nan", "inf", "0x1.fffffffffffffp+3", "-0.0", "1.5"], repeat=2):
            for prec, t in (("double", np.float64), ("float", np.float32)):
                for end in ("", "\n", " \n"):
                    want = [t(float.fromhex(x)) for x in ln]
                    try:
                        got = cmp.preprocess_line(seps.join(ln) + end, prec)
                        ok = len(got) == 2 and all(type(a) is t and a.tobytes() == b.tobytes() for a, b in zip(got, want))
                    except Exception as e:  # noqa: BLE001
                        got, ok = f"{type(e).__name__}: {e}", False
                    if not ok:
                        bad = bad or f"preprocess_line({seps.join(ln) + end!r}, {prec}) = {got}"
    return dict(obligations=[("enumerated", "the numbers of a line", bad is None, bad or "")], functions=["preprocess_line"])


def tasks(tier, seed):
    q = tier == "quick"
    c = compare
    return [proved("contract/compare_floats", lambda: c.vc(), c.FLOATS),
            proved("contract/compare_lines", lambda: c.vc(c.FLOATS_REL, c.PRE), c.LINES),
            proved("contract/compare_files", lambda: c.vc(c.LINES_REL), c.FILES),
            Task("enumerated/values", pairs(seed, 500 if q else 50000), label="bounded"),
            Task("enumerated/lines", values, label="bounded"),
            Task("enumerated/files", files(seed, 2000 if q else 60000), label="bounded")]
