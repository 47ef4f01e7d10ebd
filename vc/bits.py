"""One representative element of a numpy array of machine integers or of reals, as a Z3 term.

numpy ufuncs and methods used on it act elementwise, so what is shown of the representative holds of every
element of an array of any shape.  An operation that is not elementwise, or not known here, is unsupported."""
from __future__ import annotations

import numpy as np
import z3

from core import Unsupported
from cparse import Parser

W = 64
_n = [0]


class Run:
    """One path: decisions taken on symbolic truth values."""

    def __init__(self, dec):
        self.dec, self.taken, self.conds = dec, [], []


RUN = None


def paths(fn, limit=200):
    """[(path conditions, value, exception)] over every decision on a symbolic truth value."""
    global RUN
    out, stack = [], [[]]
    while stack:
        dec = stack.pop()
        RUN = r = Run(dec)
        try:
            v, exc = fn(), None
        except Unsupported:
            raise
        except Exception as e:  # noqa: BLE001  the real code refused
            v, exc = None, e
        out.append((r.conds, v, exc))
        for i in range(len(dec), len(r.taken)):
            if r.taken[i]:
                stack.append(r.taken[:i] + [False])
        if len(out) + len(stack) > limit:
            raise Unsupported("too many paths")
    return out


class Truth:
    """A condition on the representative; `all`/`any` of it may be either, as the rest of the array decides."""

    def __init__(self, c):
        self.c = c

    def all(self, *a, **k):
        return Many()

    any = all

    def __bool__(self):
        i = len(RUN.taken)
        v = RUN.dec[i] if i < len(RUN.dec) else True
        RUN.taken.append(v)
        RUN.conds.append(self.c if v else z3.Not(self.c))
        return v


class Many(Truth):
    def __init__(self):
        super().__init__(z3.BoolVal(True))

    def __bool__(self):
        i = len(RUN.taken)
        v = RUN.dec[i] if i < len(RUN.dec) else True
        RUN.taken.append(v)
        return v


def bits(dtype):
    return np.dtype(dtype).itemsize * 8


def wrap(e, dtype):
    """The 64-bit sign extension of the value stored in a signed integer of this type."""
    dt = np.dtype(dtype)
    n = bits(dt)
    if dt.kind == "i":
        return e if n == W else z3.SignExt(W - n, z3.Extract(n - 1, 0, e))
    if dt.kind == "u" and n < W:
        return z3.ZeroExt(W - n, z3.Extract(n - 1, 0, e))
    raise Unsupported(f"integer type {dt}")


class Elem(np.ndarray):
    """An ndarray to isinstance; nothing reads the (empty) memory behind it."""
    dtype = property(lambda self: self._dt)
    shape = property(lambda self: (1,))
    ndim = property(lambda self: 1)
    size = property(lambda self: 1)
    __hash__ = None

    def __new__(cls, *a, **k):
        return np.ndarray.__new__(cls, (0,), dtype=np.int8)

    def __array_finalize__(self, obj):
        if obj is not None:
            raise Unsupported("view of a symbolic element")

    def __getattribute__(self, n):
        if not n.startswith("_") and n in ARRAY_METHODS and all(n not in c.__dict__ for c in type(self).__mro__ if c is not np.ndarray
                                                                and c is not object):
            raise Unsupported(f"method {n} on a symbolic element")
        return object.__getattribute__(self, n)

    def copy(self, *a, **k):
        return self

    def reshape(self, *a, **k):
        return self

    flatten = ravel = squeeze = reshape

    def _bin(uf, rev=False):  # noqa: N805
        def f(self, o):
            return self.__array_ufunc__(uf, "__call__", *((o, self) if rev else (self, o)))
        return f

    __add__, __radd__ = _bin(np.add), _bin(np.add, True)
    __sub__, __rsub__ = _bin(np.subtract), _bin(np.subtract, True)
    __mul__, __rmul__ = _bin(np.multiply), _bin(np.multiply, True)
    __truediv__, __rtruediv__ = _bin(np.true_divide), _bin(np.true_divide, True)
    __floordiv__ = _bin(np.floor_divide)
    __rshift__, __lshift__ = _bin(np.right_shift), _bin(np.left_shift)
    __and__, __or__, __xor__ = _bin(np.bitwise_and), _bin(np.bitwise_or), _bin(np.bitwise_xor)
    __eq__, __ne__ = _bin(np.equal), _bin(np.not_equal)
    __lt__, __le__, __gt__, __ge__ = _bin(np.less), _bin(np.less_equal), _bin(np.greater), _bin(np.greater_equal)

    def __array_function__(self, func, types, args, kwargs):
        nm = func.__name__
        if nm in ("array_equal", "allclose", "any", "all", "array_equiv"):
            return Many()
        if nm in ("copy", "ravel", "reshape", "asarray", "array", "ascontiguousarray"):
            return args[0]
        if nm in ("round", "around", "round_") and len(args) == 1 and isinstance(args[0], RealT):
            return args[0].rint()
        if nm == "clip" and len(args) == 3:
            return np.minimum(np.maximum(args[0], args[1]), args[2])
        raise Unsupported(f"numpy function {nm} on an element")

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a symbolic element to an array")

    def __index__(self):
        raise Unsupported("use of a symbolic element as an index")

    def __bool__(self):
        raise Unsupported("truth value of a symbolic element")

    def __str__(self):
        return "element"


ARRAY_METHODS = set(dir(np.ndarray))
CMP = {np.equal: lambda a, b: a == b, np.not_equal: lambda a, b: a != b, np.less: lambda a, b: a < b,
       np.less_equal: lambda a, b: a <= b, np.greater: lambda a, b: a > b, np.greater_equal: lambda a, b: a >= b}


class IntT(Elem):
    """A machine integer."""

    def __init__(self, e, dtype):
        self.e, self._dt = e, np.dtype(dtype)

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        if dt.kind not in "iu":
            raise Unsupported(f"conversion of an integer to {dt}")
        return IntT(wrap(self.e, dt), dt)

    def view(self, dtype):
        if bits(dtype) != bits(self.dtype):
            raise Unsupported("view of another width")
        return self.astype(dtype)

    def __array_ufunc__(self, uf, method, *args, **kw):
        if method != "__call__" or "out" in kw or kw.get("where", True) is not True:
            raise Unsupported(f"{uf.__name__}.{method}")
        vals, dts = [], []
        for a in args:
            if isinstance(a, IntT):
                vals.append(a.e)
                dts.append(a.dtype)
            elif isinstance(a, (int, np.integer)):
                vals.append(z3.BitVecVal(int(a), W))
                dts.append(a.dtype if isinstance(a, np.generic) else None)
            elif isinstance(a, np.ndarray) and a.ndim == 0 and a.dtype.kind in "iu":
                vals.append(z3.BitVecVal(int(a), W))
                dts.append(None)
            else:
                raise Unsupported(f"{uf.__name__} of {type(a).__name__}")
        if uf in CMP:
            return Truth(CMP[uf](*vals))
        dt = np.result_type(*[d for d in dts if d is not None])
        if "dtype" in kw and kw["dtype"] is not None:
            dt = np.dtype(kw["dtype"])
        if dt.kind != "i":
            raise Unsupported(f"{uf.__name__} on {dt}")
        a, b = (vals + [None])[:2]
        if uf is np.right_shift:
            n = bits(dt)
            r = z3.If(z3.Or(b < 0, b >= n), z3.If(a < 0, z3.BitVecVal(-1, W), z3.BitVecVal(0, W)), a >> b)
        elif uf is np.left_shift:
            n = bits(dt)
            r = z3.If(z3.Or(b < 0, b >= n), z3.BitVecVal(0, W), a << b)
        elif uf is np.floor_divide:
            q = a / b                                  # truncated
            r = z3.If(z3.And(z3.SRem(a, b) != 0, (a < 0) != (b < 0)), q - 1, q)
        else:
            ops = {np.add: lambda: a + b, np.subtract: lambda: a - b, np.multiply: lambda: a * b,
                   np.bitwise_and: lambda: a & b, np.bitwise_or: lambda: a | b, np.bitwise_xor: lambda: a ^ b,
                   np.negative: lambda: -a, np.invert: lambda: ~a, np.positive: lambda: a,
                   np.maximum: lambda: z3.If(a >= b, a, b), np.minimum: lambda: z3.If(a <= b, a, b)}
            if uf not in ops:
                raise Unsupported(f"{uf.__name__} on integers")
            r = ops[uf]()
        return IntT(wrap(r, dt), dt)


class RealT(Elem):
    """A real number (scaling by powers of two, rounding to an integer and comparisons are exact in binary floating
    point as long as nothing overflows or becomes subnormal)."""

    def __init__(self, e, dtype=np.float32, side=None):
        self.e, self._dt = e, np.dtype(dtype)
        self.side = side if side is not None else []

    def fresh(self, name):
        _n[0] += 1
        return z3.Int(f"{name}{_n[0]}")

    def rint(self):
        k = self.fresh("rint")
        r = z3.ToReal(k)
        d = r - self.e
        self.side += [d <= z3.RealVal("1/2"), d >= z3.RealVal("-1/2"),
                      z3.Implies(z3.Or(d == z3.RealVal("1/2"), d == z3.RealVal("-1/2")), k % 2 == 0)]
        return RealT(r, self.dtype, self.side)

    def floor(self):
        r = z3.ToReal(self.fresh("floor"))
        self.side += [r <= self.e, self.e < r + 1]
        return RealT(r, self.dtype, self.side)

    def ceil(self):
        r = z3.ToReal(self.fresh("ceil"))
        self.side += [r - 1 < self.e, self.e <= r]
        return RealT(r, self.dtype, self.side)

    def trunc(self):
        r = z3.ToReal(self.fresh("trunc"))
        self.side += [z3.Implies(self.e >= 0, z3.And(r <= self.e, self.e < r + 1)),
                      z3.Implies(self.e < 0, z3.And(r - 1 < self.e, self.e <= r))]
        return RealT(r, self.dtype, self.side)

    def round(self, *a):
        if a and a[0] != 0:
            raise Unsupported("rounding to decimals")
        return self.rint()

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        if dt.kind == "f":
            return RealT(self.e, dt, self.side)
        if dt.kind != "i":
            raise Unsupported(f"conversion of a real to {dt}")
        t = self.trunc().e
        n = bits(dt)
        lo, hi = -(1 << n - 1), (1 << n - 1) - 1
        j = self.fresh("out")
        # outside the type's range the result is unspecified
        self.side.append(z3.Implies(z3.And(t >= lo, t <= hi), z3.ToReal(j) == t))
        self.side += [j >= lo, j <= hi]
        return RealT(z3.ToReal(j), dt, self.side)

    def __array_ufunc__(self, uf, method, *args, **kw):
        if method != "__call__" or "out" in kw or kw.get("where", True) is not True:
            raise Unsupported(f"{uf.__name__}.{method}")
        vals = []
        for a in args:
            if isinstance(a, RealT):
                vals.append(a.e)
            elif isinstance(a, (int, float, np.integer, np.floating)):
                n, d = (int(a), 1) if isinstance(a, (int, np.integer)) else float(a).as_integer_ratio()
                vals.append(z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n))
            else:
                raise Unsupported(f"{uf.__name__} of {type(a).__name__}")
        if uf in CMP:
            return Truth(CMP[uf](*vals))
        one = {np.rint: self.rint, np.floor: self.floor, np.ceil: self.ceil, np.trunc: self.trunc}
        if uf in one:
            return one[uf]()
        a, b = (vals + [None])[:2]
        ops = {np.add: lambda: a + b, np.subtract: lambda: a - b, np.multiply: lambda: a * b,
               np.true_divide: lambda: a / b, np.negative: lambda: -a, np.positive: lambda: a,
               np.maximum: lambda: z3.If(a >= b, a, b), np.minimum: lambda: z3.If(a <= b, a, b),
               np.sign: lambda: z3.If(a > 0, z3.RealVal(1), z3.If(a < 0, z3.RealVal(-1), z3.RealVal(0))),
               np.absolute: lambda: z3.If(a >= 0, a, -a)}
        if uf is np.ldexp and isinstance(args[1], (int, np.integer)):
            s = z3.RealVal(2 ** abs(int(args[1])))
            return RealT(a * s if args[1] >= 0 else a / s, self.dtype, self.side)
        if uf not in ops:
            raise Unsupported(f"{uf.__name__} on reals")
        return RealT(ops[uf](), self.dtype, self.side)


# -- C integer expressions ---------------------------------------------------------------------------

WIDTH = {"char": 8, "short": 16, "int": 32, "long": 64, "int8_t": 8, "int16_t": 16, "int32_t": 32, "int64_t": 64}


def c_width(names):
    ns = [n for n in names if n not in ("const", "signed", "volatile", "register")]
    if "unsigned" in ns or not ns:
        raise Unsupported(f"C type {' '.join(names)}")
    ns = [n for n in ns if n != "int"] or ["int"]
    if set(ns) == {"long"}:
        return 64
    if len(ns) != 1 or ns[0] not in WIDTH:
        raise Unsupported(f"C type {' '.join(names)}")
    return WIDTH[ns[0]]


class CInt:
    """Integer expressions of C: terms are 64-bit sign extensions, with the width of their type after promotion."""

    def __init__(self, var, width, fns=None):
        self.var, self.width, self.fns = var, width, fns or {}
        self.undefined = []

    def fit(self, e, n):
        return e if n == W else z3.SignExt(W - n, z3.Extract(n - 1, 0, e))

    def text(self, text, local):
        p = Parser(f"y = {text.replace(local, ' XVAR ')};")
        st = p.stmt()
        if p.peek()[0] != "eof":
            raise Unsupported(f"more than one statement in {text!r}")
        e = st[1]
        if st[0] != "expr" or e[0] != "assign" or e[2] != ("id", "y"):
            raise Unsupported(f"not an expression: {text!r}")
        return self.ev(e[3])[0]

    def truth(self, e):
        return self.ev(e)[0] != 0

    def ev(self, e):
        k = e[0]
        if k == "num":
            try:
                return z3.BitVecVal(int(e[1], 0), W), 32
            except ValueError:
                raise Unsupported(f"constant {e[1]} in an integer expression") from None
        if k == "id":
            if e[1] != "XVAR":
                raise Unsupported(f"name {e[1]} in an activation")
            return self.var, max(self.width, 32)
        if k == "cast":
            if e[1] != "int" or e[2]:
                raise Unsupported("cast in an integer expression")
            n = c_width(e[4])
            return self.fit(self.ev(e[3])[0], n), max(n, 32)
        if k == "cond":
            (a, m), (b, n) = self.ev(e[2]), self.ev(e[3])
            return z3.If(self.truth(e[1]), a, b), max(m, n)
        if k == "un":
            v, n = self.ev(e[2])
            if e[1] == "!":
                return z3.If(v == 0, z3.BitVecVal(1, W), z3.BitVecVal(0, W)), 32
            r = {"-": lambda: -v, "+": lambda: v, "~": lambda: ~v}.get(e[1])
            if r is None:
                raise Unsupported(f"operator {e[1]}")
            return self.fit(r(), n), n
        if k == "call" and e[1][0] == "id" and e[1][1] in self.fns:
            return self.fns[e[1][1]](*[self.ev(a)[0] for a in e[2]]), 64
        if k == "bin":
            op = e[1]
            if op in ("&&", "||"):
                f = z3.And if op == "&&" else z3.Or
                return z3.If(f(self.truth(e[2]), self.truth(e[3])), z3.BitVecVal(1, W), z3.BitVecVal(0, W)), 32
            (a, m), (b, n) = self.ev(e[2]), self.ev(e[3])
            w = max(m, n)
            cmp = {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                   "==": lambda: a == b, "!=": lambda: a != b}
            if op in cmp:
                return z3.If(cmp[op](), z3.BitVecVal(1, W), z3.BitVecVal(0, W)), 32
            if op in ("<<", ">>"):
                self.undefined.append(z3.Or(b < 0, b >= m))
                return self.fit(a >> b if op == ">>" else a << b, m), m
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                 "%": lambda: z3.SRem(a, b), "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}.get(op)
            if f is None:
                raise Unsupported(f"operator {op}")
            return self.fit(f(), w), w
        raise Unsupported(f"{k} in an integer expression")
