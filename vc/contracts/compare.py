"""Contracts of the output comparison tool (cli/compare.py).

Numbers are binary64 values (single precision values are widened exactly); CLOSE, the tolerance, is written in IEEE
arithmetic.  A line is an identifier; how its text is cut into numbers is left to float.fromhex and str.split.
"""
import sys
from pathlib import Path

import z3
from acetone_nnet.cli import compare
from pyvc import FP, VC, B, Contract, I, Seq

And, Or, Implies, Not, ForAll, Int, Ints, If = z3.And, z3.Or, z3.Implies, z3.Not, z3.ForAll, z3.Int, z3.Ints, z3.If
RM = z3.RNE()
F = lambda x: z3.FPVal(x, FP)   # noqa: E731
MAX, MIN, EPS = (F(x) for x in (sys.float_info.max, sys.float_info.min, 128 * sys.float_info.epsilon))


def tolerated(a, b, eps=EPS, th=MIN):
    """a and b agree: equal, or closer than th or than eps times the sum of their magnitudes."""
    total = z3.fpAdd(RM, z3.fpAbs(a), z3.fpAbs(b))
    total = If(z3.fpLT(MAX, total), MAX, total)
    near = z3.fpAbs(z3.fpSub(RM, a, b))
    return Or(z3.fpEQ(a, b), z3.fpLT(near, th), z3.fpLT(near, z3.fpMul(RM, eps, total)))


def triple(vc):
    return vc.fresh("agrees", B), vc.fresh("diff", FP), vc.fresh("rel", FP)


def floats_ensures(s):
    a, b = s.pre["a"], s.pre["b"]
    r = s.value[0]
    r = z3.BoolVal(r) if isinstance(r, bool) else r
    nan = Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    return [("success means that the values agree within the tolerance", Implies(r, tolerated(a, b))),
            ("values that agree are accepted", Implies(And(Not(nan), tolerated(a, b)), r)),
            ("no value agrees with NaN", Implies(nan, Not(r))),
            ("an infinite value only agrees with itself", Implies(And(r, Or(z3.fpIsInf(a), z3.fpIsInf(b))), z3.fpEQ(a, b))),
            ("equal values agree", Implies(z3.fpEQ(a, b), r))]


FLOATS = Contract(compare.compare_floats, {"a": FP, "b": FP}, ensures=floats_ensures, result=triple)

# The numbers of a line
COUNT = z3.Function("numbers_on_line", I, I, I)
VALUE = z3.Function("number_on_line", I, I, I, FP)
AGREE = z3.Function("lines_agree", I, I, I, B)
CLOSE = z3.Function("close", FP, FP, B)


def close_axioms():
    """CLOSE is the answer of compare_floats, as its contract gives it."""
    return []


def floats_as_relation(s):
    r = s.value[0]
    return [("the answer", (z3.BoolVal(r) if isinstance(r, bool) else r) == CLOSE(s.pre["a"], s.pre["b"]))]


FLOATS_REL = Contract(compare.compare_floats, {"a": FP, "b": FP}, ensures=floats_as_relation, result=triple)


def numbers(vc):
    return vc.seq("numbers", FP)


def numbers_ensures(s):
    o, line, prec = s.result, s["line"], s["precision"]
    i = Int("i")
    return [("as many numbers as on the line", And(o.hi - o.lo == COUNT(line, prec), COUNT(line, prec) >= 0)),
            ("the numbers of the line", ForAll([i], Implies(And(o.lo <= i, i < o.hi), o.arr[i] == VALUE(line, prec, i - o.lo)), patterns=[o.arr[i]]))]


PRE = Contract(compare.preprocess_line, {}, ensures=numbers_ensures, result=numbers)


def all_close(a, b, p, n):
    j = Int("j")
    return ForAll([j], Implies(And(0 <= j, j < n), CLOSE(VALUE(a, p, j), VALUE(b, p, j))))


def the_flag(s):
    vs = [v for v in s.st.loc.values() if isinstance(v, bool) or (z3.is_expr(v) and v.sort() == B)]
    # the running answer: the only truth value that exists before the loop
    names = [n for n, v in s.start.st.loc.items() if isinstance(v, bool) or (z3.is_expr(v) and v.sort() == B)]
    if len(names) != 1:
        raise z3.Z3Exception("one running answer expected")
    v = s.st.loc[names[0]]
    del vs
    return z3.BoolVal(v) if isinstance(v, bool) else v


def lines_loop(s):
    a, b, p = s.pre["line_f1"], s.pre["line_f2"], s.pre["precision"]
    return [("the answer so far", the_flag(s) == all_close(a, b, p, s.k - s.it.lo))]


def truth(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def lines_ensures(s):
    a, b, p = s.pre["line_f1"], s.pre["line_f2"], s.pre["precision"]
    return [("lines agree when they have as many numbers, pairwise close",
             truth(s.value[0]) == And(COUNT(a, p) == COUNT(b, p), all_close(a, b, p, COUNT(a, p))))]


LINES = Contract(compare.compare_lines, {"line_f1": I, "line_f2": I, "precision": I}, ensures=lines_ensures, loops=[lines_loop],
                 result=triple)


def lines_as_relation(s):
    return [("the answer", truth(s.value[0]) == AGREE(s["line_f1"], s["line_f2"], s["precision"]))]


LINES_REL = Contract(compare.compare_lines, {"line_f1": I, "line_f2": I, "precision": I}, ensures=lines_as_relation, result=triple)

FILE = z3.Function("file_line", I, I, I)
LENGTH = z3.Function("file_length", I, I)
BLANK = z3.IntVal(0)


def opened(vc, path, *mode, **kw):
    """A text file being read: its lines, in order."""
    o = vc.seq("lines", I, z3.IntVal(0))
    vc.files = {*getattr(vc, "files", ()), o.oid}
    c = vc.st.store[o.oid]
    i = Int("i")
    vc.assume(c.hi == LENGTH(path))
    vc.assume(ForAll([i], Implies(And(0 <= i, i < c.hi), c.arr[i] == FILE(path, i)), patterns=[c.arr[i]]))
    return o


def line(f, i):
    from pyvc import unwrap
    return If(i < LENGTH(f), FILE(f, i), unwrap("", I))


def upto(s, n):
    a, b, p = s.pre["file1"], s.pre["file2"], s.pre["precision"]
    i = Int("i")
    return ForAll([i], Implies(And(0 <= i, i < n), AGREE(line(a, i), line(b, i), p)))


def files_loop(s):
    return [("the answer so far", the_flag(s) == upto(s, s.k - s.it.lo))]


def longest(s):
    a, b = LENGTH(s.pre["file1"]), LENGTH(s.pre["file2"])
    return If(a < b, b, a)


def least(a, b):
    return If(a < b, a, b)


def files_ensures(s):
    n, m = s.pre["nb_tests"], longest(s)
    ok = truth(s.value[0])
    return [("success means that the lines of all the tests agree", Implies(ok, upto(s, least(n, m)))),
            ("files that agree are accepted", Implies(upto(s, m), ok))]


FILES = Contract(compare.compare_files, {"file1": I, "file2": I, "nb_tests": I, "precision": I},
                 requires=lambda s: [("a number of tests", s["nb_tests"] >= 0), ("files have a length", And(
                     LENGTH(s["file1"]) >= 0, LENGTH(s["file2"]) >= 0))],
                 ensures=files_ensures, loops=[files_loop], result=triple)


def vc(*contracts):
    return VC(contracts, {}, {}, floats="fp", models={Path.open: opened, open: opened, "method open": opened, Path: lambda vc, p: p, str: lambda vc, p: p})
