"""Execution of the real Python code on symbolic dimensions, parameters and tensors.

The functions of the repository run unchanged in CPython.  Only the names
`type`, `isinstance`, `range`, `int`, `float`, `len`, `max`, `min`, `np` and
`math` seen by the repository's modules are replaced by versions that also
accept symbolic values.  Every branch on a symbolic condition is decided by
proof, or both outcomes are explored.
"""
from __future__ import annotations

import ast
import builtins
import inspect
import itertools
import math as real_math
import sys
import textwrap
import types
from fractions import Fraction

import core
import numpy as real_np
from arrays import Base, Const, Update, injective
from core import (FALSE, ONE, TRUE, ZERO, Facts, P, Unsupported, app, c_and, c_eq, c_ge, c_gt, c_ne, c_not,
                  c_or, fdiv, floor_, fold, fresh, ite, nonneg, normal, normal_cond, poly, rdiv, read, rmax,
                  rmin, subst, syms_of)


class Ctx:
    """State of one symbolic run."""

    def __init__(self, facts, decisions=()):
        self.facts = facts
        self.decisions = list(decisions)
        self.taken = []
        self.loops = []
        self.mem = []
        self.branches = []
        self.obl = []


CTX: Ctx | None = None
TOKENS: dict = {}
_tok: dict = {}


def token(p):
    c = p.const()
    if c is not None and c.denominator == 1 and c >= 0:
        return str(int(c))
    k = (p, p.isint())
    t = _tok.get(k)
    if t is None:
        t = _tok[k] = f"{'SYMI' if p.isint() else 'SYMR'}_{len(_tok)}"
        TOKENS[t] = p
    return t


class PathEnd(Exception):
    pass


DEFS = core.DEFS      # symbol -> its definition (named intermediate quantities of a contract)
NAMED: dict = {}     # quotient atom of a definition -> the same quantity through the symbol


def define(defs):
    """Declare named quantities: {symbol atom: defining polynomial}."""
    DEFS.clear()
    NAMED.clear()
    for s, p in defs.items():
        DEFS[s] = p
        ats = [(m, c) for m, c in p.t.items() if len(m) == 1 and m[0][0].kind in ("fdiv", "floor") and m[0][1] == 1]
        if len(ats) == 1 and ats[0][1] == 1:
            a = ats[0][0][0][0]
            NAMED[a] = poly(s) - (p - poly(a))


def named(p):
    """Replace a defining quotient by its name."""
    if not NAMED:
        return p
    r = ZERO
    hit = False
    for m, c in p.t.items():
        t = poly(c)
        for a, e in m:
            x = NAMED.get(a)
            hit = hit or x is not None
            for _ in range(e):
                t = t * (poly(a) if x is None else x)
        r = r + t
    return r if hit else p


def decide(c):
    """Truth of a condition on the current path; forks when undetermined."""
    if DEFS:
        c2 = normal_cond(core.subst_cond(c, DEFS), CTX.facts)
        if c2 is TRUE or c2 is FALSE:
            return c2 is TRUE
    c = normal_cond(c, CTX.facts)
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if core.proves(c, CTX.facts):
        return True
    if core.proves(c_not(c), CTX.facts):
        return False
    k = cleared(c)
    if k is not None:
        if core.proves(k, CTX.facts):
            return True
        if core.proves(c_not(k), CTX.facts):
            return False
    if CTX.loops:
        ls = {b for b, *_ in CTX.loops}
        if core.syms_of_cond(c) & ls:
            return decide_in_loop(c)
    i = len(CTX.taken)
    v = CTX.decisions[i] if i < len(CTX.decisions) else True
    CTX.taken.append(v)
    CTX.facts = CTX.facts.assume(c if v else c_not(c))
    if not core.feasible(TRUE, CTX.facts):
        raise PathEnd
    return v


def cleared(c):
    """An inequality multiplied by its denominators, when they are provably positive."""
    if c.op not in ("ge", "gt"):
        return None
    p = c.args[0]
    if not isinstance(p, P):
        return None
    hit = False
    for _ in range(4):
        invs = sorted({a for m in p.t for a, _ in m if a.kind == "inv"}, key=str)
        if not invs:
            break
        q = invs[0].args[0]
        if not core.proves(c_gt(q), CTX.facts):
            return None
        p = core.cancel(p * q)
        hit = True
    if not hit:
        return None
    return c_ge(p) if c.op == "ge" else c_gt(p)


def decide_in_loop(c):
    """A branch of the body of the innermost loop: sym_range runs the body once per outcome."""
    br = CTX.branches[-1]
    i = len(br["taken"])
    v = br["prefix"][i] if i < len(br["prefix"]) else True
    br["taken"].append(v)
    c = c if v else c_not(c)
    br["conds"].append(c)
    CTX.facts = CTX.facts.assume(c)
    return v


class SymBool:
    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return decide(self.c)

    def __and__(self, o):
        return SymBool(c_and(self.c, cond_of(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(c_or(self.c, cond_of(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(c_not(self.c))

    def all(self):
        return self

    def any(self):
        return self


def cond_of(x):
    if isinstance(x, SymBool):
        return x.c
    return TRUE if x else FALSE


def is_num(x):
    return isinstance(x, (int, float, Fraction, real_np.integer, real_np.floating)) and not isinstance(x, bool) \
        or isinstance(x, bool)


class Sym:
    """Common arithmetic of symbolic scalars."""

    __array_priority__ = 1000

    def __init__(self, p):
        self.p = poly(p)

    def _o(self, o):
        if isinstance(o, Sym):
            return o.p
        if is_num(o):
            return poly(o)
        return None

    def _bin(self, o, f):
        q = self._o(o)
        if q is None:
            return NotImplemented
        return wrap(f(self.p, q))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __neg__(self): return wrap(-self.p)
    def __pos__(self): return self
    def __abs__(self): return wrap(rmax(self.p, -self.p))

    def __truediv__(self, o):
        q = self._o(o)
        if q is None:
            return NotImplemented
        return SymReal(div_(self.p, q))

    def __rtruediv__(self, o):
        q = self._o(o)
        return NotImplemented if q is None else SymReal(div_(q, self.p))

    def __floordiv__(self, o):
        q = self._o(o)
        return NotImplemented if q is None else wrap(ifdiv(self.p, q))

    def __rfloordiv__(self, o):
        q = self._o(o)
        return NotImplemented if q is None else wrap(ifdiv(q, self.p))

    def __mod__(self, o):
        q = self._o(o)
        return NotImplemented if q is None else wrap(self.p - q * ifdiv(self.p, q))

    def __rmod__(self, o):
        q = self._o(o)
        return NotImplemented if q is None else wrap(q - self.p * ifdiv(q, self.p))

    def __and__(self, o):
        if isinstance(o, int) and self.p.isint():
            n = o + 1 if o >= 0 else -o
            if n & (n - 1) == 0:
                r = self.p - n * ifdiv(self.p, poly(n))
                return wrap(r if o >= 0 else self.p - r)
        raise Unsupported("bitwise and")

    __rand__ = __and__

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            r = ONE
            for _ in range(o):
                r = r * self.p
            return wrap(r)
        raise Unsupported("power")

    def __lt__(self, o): return self._cmp(o, lambda d: c_gt(-d))
    def __le__(self, o): return self._cmp(o, lambda d: c_ge(-d))
    def __gt__(self, o): return self._cmp(o, lambda d: c_gt(d))
    def __ge__(self, o): return self._cmp(o, lambda d: c_ge(d))

    def __eq__(self, o):
        q = self._o(o)
        return False if q is None else SymBool(c_eq(self.p - q))

    def __ne__(self, o):
        q = self._o(o)
        return True if q is None else SymBool(c_ne(self.p - q))

    def _cmp(self, o, f):
        q = self._o(o)
        return NotImplemented if q is None else SymBool(f(self.p - q))

    def __hash__(self):
        return hash(self.p)

    def __bool__(self):
        return decide(c_ne(self.p))

    def __str__(self):
        return token(self.p)

    __repr__ = __str__

    def __format__(self, spec):
        if spec not in ("", "d", "s"):
            raise Unsupported(f"format {spec!r} of a symbolic value")
        return token(self.p)

    def item(self):
        return self


class SymInt(Sym):
    def __index__(self):
        c = normal(self.p, CTX.facts).const() if CTX else self.p.const()
        if c is not None:
            return int(c)
        raise Unsupported("concrete integer needed for a symbolic dimension")

    __int__ = __index__


class SymReal(Sym):
    def __float__(self):
        c = self.p.const()
        if c is not None:
            return float(c)
        raise Unsupported("concrete float needed for a symbolic value")

    def astype(self, *_):
        return self


def wrap(p):
    p = poly(p)
    return SymInt(p) if p.isint() else SymReal(p)


def div_(p, q):
    nz(q)
    return rdiv(p, q)


def ifdiv(p, q):
    nz(q)
    if not nonneg(q - 1, CTX.facts):
        raise Unsupported("floor division by a possibly negative value")
    if not (p.isint() and q.isint()):
        return named(floor_(rdiv(p, q)))
    return named(normal(fdiv(p, q), CTX.facts))


def nz(q):
    c = q.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError
        return
    if q.isint() and (nonneg(q - 1, CTX.facts) or nonneg(-q - 1, CTX.facts)):
        return
    if not q.isint():
        return
    if decide(c_eq(q)):
        raise ZeroDivisionError


# --------------------------------------------------------------------------
# Tensors
# --------------------------------------------------------------------------


def dim(x):
    return x.p if isinstance(x, Sym) else poly(int(x))


def undim(p):
    c = p.const()
    return int(c) if c is not None else SymInt(p)


class Lam:
    """Array version given by a closed form."""

    undef = False

    def __init__(self, params, body):
        self.params, self.body = params, body
        self.name = f"lam{id(self)}"
        self.isint = body.isint()

    def free_syms(self):
        return syms_of(self.body) - frozenset(self.params)

    def subst(self, env):
        if not (self.free_syms() & set(env)):
            return self
        return Lam(self.params, subst(self.body, env))

    def level(self):
        return core.level(self.body)

    def each_poly(self, fn):
        pass

    def resolve(self, idx, facts):
        return normal(subst(self.body, dict(zip(self.params, idx))), facts)


class SymTensor:
    __array_priority__ = 2000

    def __init__(self, shape, fn=None, ver=None, dtype=None):
        self._shape = tuple(dim(s) for s in shape)
        self.fn = fn
        self.ver = ver
        self.dtype = dtype or real_np.dtype("float32")
        self.depth = len(CTX.loops) if CTX is not None else 0
        if ver is not None and CTX is not None:
            CTX.mem.append(self)

    @property
    def shape(self):
        return tuple(undim(s) for s in self._shape)

    @shape.setter
    def shape(self, s):
        r = self.reshape(*s)
        self._shape, self.fn, self.ver = r._shape, r.fn, r.ver

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        p = ONE
        for s in self._shape:
            p = p * s
        return undim(p)

    @property
    def T(self):
        return transpose(self)

    def at(self, *idx):
        idx = tuple(poly(i) for i in idx)
        if len(idx) != self.ndim:
            raise Unsupported("rank mismatch in tensor access")
        # a dimension of size 1 has index 0
        if self.ver is not None:
            return read(self.ver, idx)
        return poly(self.fn(*idx))

    def memory(self):
        if self.ver is None:
            if self.depth < len(CTX.loops):
                raise Unsupported("a tensor is first written inside a loop it is not local to")
            ps = [fresh("l") for _ in self._shape]
            self.ver = Lam(tuple(ps), poly(self.fn(*[poly(x) for x in ps])))
            self.fn = None
            CTX.mem.append(self)

    # numpy methods
    def astype(self, dtype, *a, **k):
        d = real_np.dtype(dtype)
        if not (d.kind == "f" and d.itemsize >= 4 or d.kind == "i" and self.dtype.kind == "i" and d.itemsize >= 4):
            raise Unsupported(f"conversion of a tensor to {d}")
        r = self._like(self.at_fn())
        r.dtype = d
        return r

    def copy(self, *a, **k): return self._like(self.at_fn())

    def item(self, *a):
        if a or self._shape:
            raise Unsupported("item of a tensor with axes")
        return wrap_elem(self.at())

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def at_fn(self):
        if self.ver is not None:
            v = self.ver
            return lambda *i: read(v, tuple(poly(x) for x in i))
        return self.fn

    def _like(self, fn, shape=None):
        return SymTensor(self._shape_out(shape), fn, dtype=self.dtype)

    def _shape_out(self, shape=None):
        return [undim(s) for s in (shape if shape is not None else self._shape)]

    def reshape(self, *s, **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list, real_np.ndarray)):
            s = s[0]
        return reshape(self, s)

    def flatten(self, order="C"):
        if order not in ("C", "F"):
            raise Unsupported(f"flatten in order {order!r}")
        return reshape(self if order == "C" else transpose(self), (-1,))

    ravel = flatten

    def tofile(self, f):
        f.put(self)

    def tobytes(self, order="C"):
        if order != "C":
            raise Unsupported(f"bytes in order {order!r}")
        return TensorBytes(self)

    def transpose(self, *a): return transpose(self, a[0] if len(a) == 1 and not is_num(a[0]) else (a or None))
    def sum(self, axis=None, keepdims=False, **k): return reduce_("sum", self, axis, keepdims)
    def max(self, axis=None, keepdims=False, **k): return reduce_("max", self, axis, keepdims)
    def min(self, axis=None, keepdims=False, **k): return reduce_("min", self, axis, keepdims)
    def prod(self, axis=None, keepdims=False, **k): return reduce_("prod", self, axis, keepdims)
    def mean(self, axis=None, keepdims=False, **k): return mean(self, axis, keepdims)
    def squeeze(self, axis=None): return squeeze(self, axis)
    def dot(self, o): return dot(self, o)

    def __len__(self):
        raise Unsupported("len of a symbolic tensor outside the shimmed modules")

    def __iter__(self):
        n = self._shape[0].const()
        if n is None and self.ndim == 1:
            return iter((Elems(self),))
        if n is None:
            raise Unsupported("iteration over a symbolic dimension")
        return (self[i] for i in range(int(n)))

    def _bin(self, o, f):
        if isinstance(o, (SymTensor, Sym)) or is_num(o) or isinstance(o, real_np.ndarray):
            return elementwise(lambda a, b: f(a, b), self, o)
        if isinstance(o, (list, tuple)):
            return elementwise(lambda a, b: f(a, b), self, to_tensor(o))
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, rdiv)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: rdiv(b, a))
    def __neg__(self): return elementwise(lambda a: -a, self)
    def __abs__(self): return elementwise(lambda a: rmax(a, -a), self)

    def __pow__(self, o):
        if isinstance(o, (int, float)) and o in (1, 2, 3):
            r = self
            for _ in range(int(o) - 1):
                r = r * self
            return r
        if isinstance(o, float) and o in (0.5, -0.5):
            r = elementwise(lambda x: app("sqrt", x), self)
            return r if o > 0 else 1 / r
        return NotImplemented

    def __matmul__(self, o): return matmul(self, o)
    def __lt__(self, o): return self._cmp(o, lambda d: c_gt(-d))
    def __le__(self, o): return self._cmp(o, lambda d: c_ge(-d))
    def __gt__(self, o): return self._cmp(o, lambda d: c_gt(d))
    def __ge__(self, o): return self._cmp(o, lambda d: c_ge(d))

    def _cmp(self, o, f):
        return elementwise(lambda a, b: ite(f(a - b), ONE, ZERO), self, o)

    __iadd__ = None

    def __iadd__(self, o):
        r = self + o
        same_shape(r._shape, self._shape)
        self.assign_all(r)
        return self

    def __isub__(self, o):
        r = self - o
        self.assign_all(r)
        return self

    def __imul__(self, o):
        r = self * o
        self.assign_all(r)
        return self

    def __itruediv__(self, o):
        r = self / o
        self.assign_all(r)
        return self

    def assign_all(self, r):
        self[tuple(slice(None) for _ in self._shape)] = r

    def __getitem__(self, ix):
        dims, f = index(self, ix)
        if not dims:
            return wrap_elem(self.at(*f()))
        g = self.at_fn()
        return SymTensor([undim(d) for d in dims], lambda *i: g(*f(*i)), dtype=self.dtype)

    def __setitem__(self, ix, val):
        if ix is None or isinstance(ix, tuple) and any(i is None for i in ix):
            raise Unsupported("assignment through np.newaxis")
        self.memory()
        dims, f = index(self, ix)
        bs = [fresh("w") for _ in dims]
        idx = f(*[poly(b) for b in bs])
        if isinstance(val, SymTensor):
            vfn = broadcast_to(val, dims)
            v = poly(vfn(*[poly(b) for b in bs]))
        elif isinstance(val, real_np.ndarray):
            vt = const_tensor(val)
            v = poly(broadcast_to(vt, dims)(*[poly(b) for b in bs]))
        else:
            v = val.p if isinstance(val, Sym) else poly(val)
        binders = tuple(zip(bs, dims))
        facts = CTX.facts
        for b, d in binders:
            facts = facts.bind(b, d)
        order = injective(idx, binders, facts)
        if order is None:
            raise Unsupported("slice assignment not injective")
        for i, d in zip(idx, self._shape):
            if not (nonneg(i, facts) and nonneg(d - 1 - i, facts)):
                raise Unsupported(f"index {i} not provably inside {d}")
        from cexec import update
        self.ver = update(self.ver, binders, TRUE, tuple(idx), v, order)


def wrap_elem(p):
    return SymReal(p) if not p.isint() else SymInt(p)


def same_shape(a, b):
    if len(a) != len(b):
        raise ValueError("shape mismatch")
    for x, y in zip(a, b):
        if not decide(c_eq(x - y)):
            raise ValueError(f"operands could not be broadcast together ({x} vs {y})")


def to_tensor(x):
    if isinstance(x, SymTensor):
        return x
    if isinstance(x, Sym):
        return SymTensor((), lambda: x.p)
    if is_num(x):
        return SymTensor((), lambda: poly(x))
    if isinstance(x, real_np.ndarray):
        return const_tensor(x)
    if isinstance(x, (list, tuple)):
        return np_array(x)
    raise Unsupported(f"tensor from {type(x).__name__}")


def const_tensor(a):
    if a.ndim == 0:
        return SymTensor((), lambda: poly(a.item()))

    def fn(*i):
        cs = [x.const() for x in i]
        if all(c is not None for c in cs):
            return poly(a[tuple(int(c) for c in cs)].item())
        if a.size and (a == a.flat[0]).all():
            return poly(a.flat[0].item())
        if a.size > 64:
            raise Unsupported("symbolic index into a constant array")
        r = poly(a.flat[-1].item())
        for pos in itertools.product(*[range(n) for n in a.shape]):
            r = ite(c_and(*[c_eq(x - k) for x, k in zip(i, pos)]), poly(a[pos].item()), r)
        return r
    return SymTensor(a.shape, fn)


def broadcast_shapes(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0 or s[j] == ONE:
                continue
            if d == ONE:
                d = s[j]
                continue
            if s[j] == d:
                continue
            if decide(c_eq(s[j] - d)):
                continue
            if decide(c_eq(s[j] - 1)):
                continue
            if decide(c_eq(d - 1)):
                d = s[j]
                continue
            raise ValueError("operands could not be broadcast together")
        out.append(d)
    return out


def broadcast_to(t, dims):
    """Element function of t broadcast to dims."""
    off = len(dims) - t.ndim
    if off < 0:
        # leading ones
        lead = t._shape[:-off]
        for s in lead:
            if not decide(c_eq(s - 1)):
                raise ValueError("could not broadcast input array")
        f0 = t.at_fn()
        return broadcast_to(SymTensor([undim(s) for s in t._shape[-off:]],
                                      lambda *i: f0(*([ZERO] * len(lead) + list(i)))), dims)
    ones = []
    for s, d in zip(t._shape, dims[off:]):
        if s == ONE and d != ONE:
            ones.append(True)
        elif s == d:
            ones.append(False)
        elif decide(c_eq(s - d)):
            ones.append(False)
        elif decide(c_eq(s - 1)):
            ones.append(True)
        else:
            raise ValueError("could not broadcast")
    f = t.at_fn()
    return lambda *i: f(*[ZERO if o else x for o, x in zip(ones, i[off:])])


def elementwise(op, *xs):
    ts = [to_tensor(x) for x in xs]
    dims = broadcast_shapes([t._shape for t in ts])
    fs = [broadcast_to(t, dims) for t in ts]
    if not dims:
        return wrap_elem(poly(op(*[f() for f in fs])))
    return SymTensor([undim(d) for d in dims], lambda *i: op(*[poly(f(*i)) for f in fs]))


def prod_of(ps):
    r = ONE
    for p in ps:
        r = r * p
    return r


def reshape(t, shape):
    t = to_tensor(t)
    if isinstance(shape, Sym) or is_num(shape):
        shape = (shape,)
    shape = list(shape)
    total = prod_of(t._shape)
    ds = [None if (is_num(s) and s == -1) else dim(s) for s in shape]
    if None in ds:
        known = prod_of(d for d in ds if d is not None)
        q = core.poly_exact_div(total, known)
        if q is None:
            q = normal(fdiv(total, known), CTX.facts)
            if not decide(c_eq(q * known - total)):
                raise ValueError("cannot reshape array")
        ds = [q if d is None else d for d in ds]
    if not decide(c_eq(prod_of(ds) - total)):
        raise ValueError(f"cannot reshape array of size {total} into {ds}")
    src = t._shape
    f = t.at_fn()
    if tuple(ds) == tuple(src):
        return SymTensor([undim(d) for d in ds], f, dtype=t.dtype)

    def fn(*i):
        flat = ZERO
        for x, d in zip(i, ds):
            flat = flat * d + poly(x)
        out = []
        rem = flat
        # row-major digits
        for k in range(len(src)):
            w = prod_of(src[k + 1:])
            if k == 0:
                out.append(fdiv(flat, w) if w != ONE else flat)
            else:
                q = fdiv(flat, w) if w != ONE else flat
                out.append(q - src[k] * fdiv(flat, w * src[k]))
        return f(*out)
    return SymTensor([undim(d) for d in ds], fn, dtype=t.dtype)


def transpose(t, axes=None):
    t = to_tensor(t)
    n = t.ndim
    axes = list(range(n))[::-1] if axes is None else [int(a) % n for a in axes]
    if sorted(axes) != list(range(n)):
        raise ValueError("axes don't match array")
    f = t.at_fn()

    def fn(*i):
        src = [None] * n
        for k, a in enumerate(axes):
            src[a] = i[k]
        return f(*src)
    return SymTensor([undim(t._shape[a]) for a in axes], fn, dtype=t.dtype)


def norm_axes(axis, n):
    if axis is None:
        return list(range(n))
    if isinstance(axis, (tuple, list)):
        ax = [int(a) for a in axis]
    else:
        ax = [int(axis)]
    for a in ax:
        if not -n <= a < n:
            raise ValueError("axis out of bounds")
    return [a % n for a in ax]


def reduce_(kind, t, axis=None, keepdims=False):
    t = to_tensor(t)
    ax = norm_axes(axis, t.ndim)
    f = t.at_fn()
    kept = [k for k in range(t.ndim) if k not in ax]

    def fn(*i):
        if keepdims:
            base = list(i)
        else:
            base = [None] * t.ndim
            for k, x in zip(kept, i):
                base[k] = x
        bs = []
        for a in ax:
            b = fresh("r")
            bs.append((b, t._shape[a]))
            base[a] = poly(b)
        return fold(kind, bs, TRUE, poly(f(*base)))
    dims = [ONE if k in ax else t._shape[k] for k in range(t.ndim)] if keepdims else [t._shape[k] for k in kept]
    if not dims:
        return wrap_elem(fn())
    return SymTensor([undim(d) for d in dims], fn, dtype=t.dtype)


def mean(t, axis=None, keepdims=False):
    t = to_tensor(t)
    n = prod_of(t._shape[a] for a in norm_axes(axis, t.ndim))
    return reduce_("sum", t, axis, keepdims) / undim(n)


def squeeze(t, axis=None):
    if axis is None:
        axes = [k for k, s in enumerate(t._shape) if decide(c_eq(s - 1))]
    else:
        axes = norm_axes(axis, t.ndim)
    f = t.at_fn()
    keep = [k for k in range(t.ndim) if k not in axes]

    def fn(*i):
        src = [ZERO] * t.ndim
        for k, x in zip(keep, i):
            src[k] = x
        return f(*src)
    return SymTensor([undim(t._shape[k]) for k in keep], fn)


def expand_dims(t, axis):
    t = to_tensor(t)
    n = t.ndim + 1
    axs = norm_axes(axis, n)
    f = t.at_fn()
    it = iter(t._shape)
    dims = [ONE if k in axs else next(it) for k in range(n)]
    return SymTensor([undim(d) for d in dims],
                     lambda *i: f(*[x for k, x in enumerate(i) if k not in axs]))


def contract(a, b, ka, kb):
    """Sum over axis ka of a and kb of b; remaining axes of a then of b."""
    fa, fb = a.at_fn(), b.at_fn()
    if not decide(c_eq(a._shape[ka] - b._shape[kb])):
        raise ValueError(f"shapes not aligned: {a._shape[ka]} {b._shape[kb]}")
    ra = [k for k in range(a.ndim) if k != ka]
    rb = [k for k in range(b.ndim) if k != kb]
    n = a._shape[ka]

    def fn(*i):
        s = fresh("k")
        ia, ib = [None] * a.ndim, [None] * b.ndim
        for k, x in zip(ra, i):
            ia[k] = x
        for k, x in zip(rb, i[len(ra):]):
            ib[k] = x
        ia[ka] = ib[kb] = poly(s)
        return fold("sum", [(s, n)], TRUE, poly(fa(*ia)) * poly(fb(*ib)))
    dims = [a._shape[k] for k in ra] + [b._shape[k] for k in rb]
    if not dims:
        return wrap_elem(fn())
    return SymTensor([undim(d) for d in dims], fn)


def dot(a, b):
    a, b = to_tensor(a), to_tensor(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(lambda x, y: x * y, a, b)
    return contract(a, b, a.ndim - 1, b.ndim - 2 if b.ndim > 1 else 0)


def matmul(a, b, dtype=None):
    a, b = to_tensor(a), to_tensor(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: 0-d operand")
    if a.ndim == 1 or b.ndim == 1:
        return contract(a, b, a.ndim - 1, b.ndim - 2 if b.ndim > 1 else 0)
    if not decide(c_eq(a._shape[-1] - b._shape[-2])):
        raise ValueError(f"matmul: mismatch {a._shape[-1]} {b._shape[-2]}")
    lead = broadcast_shapes([a._shape[:-2], b._shape[:-2]]) if a.ndim > 2 or b.ndim > 2 else []
    n = a._shape[-1]
    fa = broadcast_to(a, lead + list(a._shape[-2:]))
    fb = broadcast_to(b, lead + list(b._shape[-2:]))

    def fn(*i):
        s = fresh("k")
        return fold("sum", [(s, n)], TRUE,
                    poly(fa(*i[:-1], poly(s))) * poly(fb(*i[:-2], poly(s), i[-1])))
    return SymTensor([undim(d) for d in lead + [a._shape[-2], b._shape[-1]]], fn)


def tensordot(a, b, axes=2):
    a, b = to_tensor(a), to_tensor(b)
    if isinstance(axes, int):
        if axes == 1:
            return contract(a, b, a.ndim - 1, 0)
        raise Unsupported("tensordot")
    x, y = axes
    x = x[0] if isinstance(x, (list, tuple)) and len(x) == 1 else x
    y = y[0] if isinstance(y, (list, tuple)) and len(y) == 1 else y
    if isinstance(x, (list, tuple)):
        raise Unsupported("tensordot over several axes")
    return contract(a, b, int(x) % a.ndim, int(y) % b.ndim)


def concatenate(ts, axis=0):
    ts = [to_tensor(t) for t in ts]
    n = ts[0].ndim
    ax = norm_axes(axis, n)[0]
    for t in ts[1:]:
        same_shape([s for k, s in enumerate(t._shape) if k != ax],
                   [s for k, s in enumerate(ts[0]._shape) if k != ax])
    fs = [t.at_fn() for t in ts]
    bounds = [ZERO]
    for t in ts:
        bounds.append(bounds[-1] + t._shape[ax])

    def fn(*i):
        r = None
        for k in reversed(range(len(ts))):
            j = list(i)
            j[ax] = poly(i[ax]) - bounds[k]
            v = poly(fs[k](*j))
            r = v if r is None else ite(c_gt(bounds[k + 1] - poly(i[ax])), v, r)
        return r
    dims = list(ts[0]._shape)
    dims[ax] = bounds[-1]
    return SymTensor([undim(d) for d in dims], fn)


def tile(t, reps):
    t = to_tensor(t)
    reps = [dim(r) for r in (reps if isinstance(reps, (list, tuple)) else
                             [reps] if (is_num(reps) or isinstance(reps, Sym)) else list(reps))]
    n = max(len(reps), t.ndim)
    reps = [ONE] * (n - len(reps)) + reps
    shp = [ONE] * (n - t.ndim) + list(t._shape)
    f = t.at_fn()
    k0 = n - t.ndim

    def fn(*i):
        return f(*[core.fmod(poly(x), s) for x, s in list(zip(i, shp))[k0:]])
    return SymTensor([undim(r * s) for r, s in zip(reps, shp)], fn)


def pad(t, pad_width, mode="constant", constant_values=0, **kw):
    t = to_tensor(t)
    if kw:
        raise Unsupported("np.pad options")
    width = pad_width
    if isinstance(width, SymTensor):
        raise Unsupported("np.pad widths")
    w = [(dim(a), dim(b)) for a, b in width]
    if len(w) != t.ndim:
        raise ValueError("pad width")
    for a, b in w:
        for x in (a, b):
            if not decide(c_ge(x)):
                raise ValueError("index can't contain negative values")
    f = t.at_fn()
    dims = [s + a + b for s, (a, b) in zip(t._shape, w)]

    def fn(*i):
        src, inside = [], TRUE
        for x, s, (a, b) in zip(i, t._shape, w):
            if a.is_zero() and b.is_zero():
                src.append(poly(x))
                continue
            y = poly(x) - a
            if mode == "constant":
                inside = c_and(inside, c_ge(y), c_gt(s - y))
                src.append(y)
            elif mode == "edge":
                src.append(rmin(rmax(y, ZERO), s - 1))
            elif mode == "wrap":
                src.append(core.fmod(y, s))
            elif mode == "reflect":
                # period 2(s-1); s == 1 keeps the single element
                m = core.fmod(y, 2 * (s - 1))
                src.append(ite(c_gt(s - 1), rmin(m, 2 * (s - 1) - m), ZERO))
            else:
                raise Unsupported(f"pad mode {mode}")
        v = poly(f(*src))
        if mode == "constant":
            cv = constant_values
            cv = cv.p if isinstance(cv, Sym) else poly(cv)
            return ite(inside, v, cv)
        return v
    return SymTensor([undim(d) for d in dims], fn)


def take(t, indices, axis=None):
    t = to_tensor(t)
    ind = to_tensor(indices)
    ax = norm_axes(axis, t.ndim)[0] if axis is not None else None
    if ax is None:
        t = reshape(t, (-1,))
        ax = 0
    f, g = t.at_fn(), ind.at_fn()
    dims = list(t._shape[:ax]) + list(ind._shape) + list(t._shape[ax + 1:])
    m = ind.ndim

    def fn(*i):
        j = poly(g(*i[ax:ax + m]))
        return f(*i[:ax], j, *i[ax + m:])
    return SymTensor([undim(d) for d in dims], fn)


def np_array(x, *a, **k):
    if isinstance(x, SymTensor):
        return x.copy()
    if not deep_sym(x):
        return real_np.array(x, *a, **k)
    if isinstance(x, Sym):
        return to_tensor(x)
    if len(x) == 1 and isinstance(x[0], LoopElems):
        return x[0].tensor()
    if x and all(isinstance(y, (list, tuple)) and y and len(y) == len(x[0]) and all(isinstance(e, SymInt) or is_num(e) for e in y) for y in x):
        return real_np.array(x, dtype=object)       # a table of sizes
    items = [np_array(y) if isinstance(y, (list, tuple)) else to_tensor(y) for y in x]
    items = [to_tensor(y) for y in items]
    for t in items[1:]:
        same_shape(t._shape, items[0]._shape)
    fs = [t.at_fn() for t in items]

    def fn(*i):
        c = poly(i[0]).const()
        if c is not None:
            return fs[int(c)](*i[1:])
        r = poly(fs[-1](*i[1:]))
        for k in reversed(range(len(fs) - 1)):
            r = ite(c_eq(poly(i[0]) - k), poly(fs[k](*i[1:])), r)
        return r
    return SymTensor([len(items)] + [undim(s) for s in items[0]._shape], fn)


def filled(v):
    def mk(shape, *a, **k):
        if isinstance(shape, Sym) or is_num(shape):
            shape = (shape,)
        return SymTensor(shape, None, Const(f"fill{v}", poly(v)))
    return mk


def like(v):
    return lambda t, *a, **k: SymTensor(t.shape, None, Const(f"fill{v}", poly(v)))


def arange(*a, **k):
    step = k.get("step", 1)
    a = list(a)
    if len(a) == 3:
        step = a.pop()
    lo, hi = (0, a[0]) if len(a) == 1 else a
    lo, hi, st = dim(lo), dim(hi), dim(step)
    n = hi - lo if st == ONE else fdiv(hi - lo + st - 1, st)
    return SymTensor((undim(n),), lambda i: lo + st * poly(i), dtype=real_np.dtype("int64"))


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("np.where with one argument")
    if isinstance(c, SymBool):
        c = SymTensor((), lambda: ite(c.c, ONE, ZERO))

    def op(cc, x, y):
        at = cc.single_atom()
        if cc == ONE:
            return x
        if cc == ZERO:
            return y
        if at is not None and at.kind == "ite" and at.args[1:] == (ONE, ZERO):
            return ite(at.args[0], x, y)
        if at is not None and at.kind == "ite" and at.args[1:] == (ZERO, ONE):
            return ite(at.args[0], y, x)
        return ite(c_ne(cc), x, y)
    r = elementwise(op, c, a, b)
    # np.where gives an array, of rank 0 for scalars
    return r if isinstance(r, SymTensor) else to_tensor(r)


def einsum(spec, *ts, optimize=False):
    ins, out = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    ts = [to_tensor(t) for t in ts]
    size = {}
    for labs, t in zip(ins, ts):
        if len(labs) != t.ndim:
            raise ValueError("einsum rank")
        for l, s in zip(labs, t._shape):
            if l in size:
                if not decide(c_eq(size[l] - s)):
                    raise ValueError("einsum dimension mismatch")
            else:
                size[l] = s
    summed = [l for l in size if l not in out]
    fs = [t.at_fn() for t in ts]

    def fn(*i):
        env = dict(zip(out, i))
        bs = []
        for l in summed:
            b = fresh("e")
            bs.append((b, size[l]))
            env[l] = poly(b)
        r = ONE
        for labs, f in zip(ins, fs):
            r = r * poly(f(*[env[l] for l in labs]))
        return fold("sum", bs, TRUE, r)
    return SymTensor([undim(size[l]) for l in out], fn)


def index(t, ix):
    """Resolve a numpy basic index: result dims and map result index -> source index."""
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = list(ix)
    if Ellipsis in [i for i in ix if i is Ellipsis]:
        k = next(n for n, i in enumerate(ix) if i is Ellipsis)
        ix[k:k + 1] = [slice(None)] * (t.ndim - (sum(i is not None for i in ix) - 1))
    ix += [slice(None)] * (t.ndim - sum(i is not None for i in ix))
    if sum(i is not None for i in ix) != t.ndim:
        raise Unsupported("index rank")
    dims, maps = [], []
    shape = list(t._shape)
    for i in ix:
        if i is None:           # np.newaxis
            dims.append(ONE)
            maps.append(("n",))
            continue
        s = shape.pop(0)
        if isinstance(i, slice):
            st = ONE if i.step is None else dim(i.step)
            if not nonneg(st - 1, CTX.facts):
                raise Unsupported("slice step")
            lo = ZERO if i.start is None else clampidx(dim(i.start), s)
            hi = s if i.stop is None else clampidx(dim(i.stop), s)
            span = hi - lo
            if not nonneg(span, CTX.facts) and loop_dependent(span):
                span = core.rmax(span, ZERO)
            elif not decide(c_ge(span)):
                span = ZERO
            n = normal(span if st == ONE else fdiv(span + st - 1, st), CTX.facts)
            dims.append(n)
            maps.append(("s", lo, st))
        elif isinstance(i, Sym) or is_num(i):
            p = dim(i)
            if p.const() is not None and p.const() < 0:
                p = p + s
            ok = nonneg(p, loop_facts()) and nonneg(s - 1 - p, loop_facts())
            if not ok:
                if CTX.loops:
                    raise Unsupported(f"index {p} not provably inside {s}")
                if not decide(c_ge(p)):
                    raise Unsupported("negative symbolic index")
                if not decide(c_gt(s - p)):
                    raise IndexError("index out of bounds")
            maps.append(("i", p))
        else:
            raise Unsupported(f"index {type(i).__name__}")

    def f(*r):
        r = list(r)
        out = []
        for m in maps:
            if m[0] == "i":
                out.append(m[1])
            elif m[0] == "n":
                r.pop(0)
            else:
                out.append(m[1] + m[2] * poly(r.pop(0)))
        return out
    return dims, f


def loop_facts():
    return CTX.facts


def loop_dependent(p):
    return bool(CTX.loops) and bool(core.syms_of(p) & {b for b, *_ in CTX.loops})


def clampidx(p, s):
    c = p.const()
    F = CTX.facts
    if nonneg(p, F):
        if nonneg(s - p, F):
            return p
        if loop_dependent(s - p):
            return core.rmin(p, s)
        return p if decide(c_ge(s - p)) else s
    if nonneg(-p - 1, F):
        q = p + s
        if nonneg(q, F):
            return q
        return q if decide(c_ge(q)) else ZERO
    if decide(c_ge(p)):
        return clampidx(p, s)
    return clampidx(p, s)


# --------------------------------------------------------------------------
# Generic loops
# --------------------------------------------------------------------------


def sym_range(*a):
    if not any(isinstance(x, Sym) for x in a):
        return builtins.range(*a)
    return _sym_range(*a)


def _sym_range(*a):
    if len(a) == 1:
        lo, hi, st = ZERO, dim(a[0]), ONE
    elif len(a) == 2:
        lo, hi, st = dim(a[0]), dim(a[1]), ONE
    else:
        lo, hi, st = dim(a[0]), dim(a[1]), dim(a[2])
    if st != ONE:
        raise Unsupported("symbolic range with a step")
    k = (hi - lo).const()
    if k is not None and k <= 64:
        for i in builtins.range(int(k)):
            yield undim(lo + i)
        return
    frame = sys._getframe(1)
    check_loop(frame)
    acc = _loop_append.get((frame.f_code, frame.f_lineno))
    acc = frame.f_locals[acc] if acc else None
    if acc is not None and (type(acc) is not list or acc):
        raise Unsupported("append to a non-empty container in a loop")
    n = hi - lo
    if not decide(c_gt(n)):
        return
    for nm in _loop_writes[frame.f_code, frame.f_lineno]:
        v = frame.f_locals.get(nm)
        if isinstance(v, SymTensor) and v.depth == len(CTX.loops):
            v.memory()
    b = fresh("py")
    saved = CTX.facts
    mem0 = list(CTX.mem)
    pre = [m.ver for m in mem0]
    carr = {}
    for k, m in enumerate(mem0):
        carr[k] = Base(f"mem{k}@", False)
        m.ver = carr[k]
    CTX.facts = saved.bind(b, n)
    CTX.loops.append((b, n))
    ntaken = len(CTX.taken)
    G = CTX.facts
    stack, paths = [[]], []
    while stack:
        br = dict(prefix=stack.pop(), taken=[], conds=[])
        CTX.branches.append(br)
        CTX.facts = G
        for k, m in enumerate(mem0):
            m.ver = carr[k]
        CTX.mem = list(mem0)
        yield SymInt(lo + poly(b))
        CTX.branches.pop()
        stack += [br["taken"][:i] + [False] for i in range(len(br["prefix"]), len(br["taken"]))]
        paths.append((core.c_and(*br["conds"]), [m.ver for m in mem0]))
        if stack and (acc is not None or len(CTX.taken) != ntaken or len(paths) > 16):
            raise Unsupported("branching loop body")
    if len(paths) > 1:
        if len(CTX.taken) != ntaken:
            raise Unsupported("branching loop body")
        CTX.facts = G
        merge_paths(mem0, carr, paths)
    if acc is not None:
        if len(acc) != 1:
            raise Unsupported("append in a loop")
        acc[0] = LoopElems(b, n, to_tensor(acc[0]))
    CTX.loops.pop()
    # decisions taken inside do not depend on b (checked in decide): they stay as path facts
    out = saved
    for c in CTX.facts.other:
        if c not in G.other:
            out = out.assume(c)
    for g in CTX.facts.ge:
        if g not in G.ge and b not in syms_of(g):
            out = out.assume(c_ge(g))
    CTX.facts = out
    summarise_memory(mem0, pre, carr, b, n, G)
    CTX.mem = mem0


def merge_paths(mem, carr, paths):
    """One version per tensor: the writes of each path of the body, effective when its condition holds."""
    from cexec import chain_of, update
    for k, m in enumerate(mem):
        cur = carr[k]
        for c, vers in paths:
            for u in chain_of(vers[k], carr[k]):
                cur = update(cur, u.binders, u.guard, u.idx, ite(c, u.val, read(cur, u.idx)), u.order)
        m.ver = cur


def summarise_memory(mem, pre, carr, b, n, G):
    from cexec import Exec, F2, binds, chain_of, map_reads, merge_cells, update, sym_cell, reads_any
    ex = Exec(G, {})
    entries, prever = {}, {}
    for k, m in enumerate(mem):
        prever[k] = pre[k]
        ch = chain_of(m.ver, carr[k])
        if ch:
            entries[k] = [dict(binders=u.binders, guard=u.guard, idx=u.idx, val=u.val, order=u.order) for u in ch]
        else:
            m.ver = pre[k]
    for k, es in entries.items():
        for en in es:
            en["idx"] = tuple(normal(i, F2(G, en)) for i in en["idx"])
            en["dep"] = any(b in syms_of(i) for i in en["idx"])
            if en["dep"]:
                en["full"] = en["binders"] + ((b, n),)
                en["forder"] = injective(en["idx"], en["full"], binds(G, en["binders"]))
                if en["forder"] is None:
                    raise Unsupported("loop writes not injective")
    for k, es in entries.items():
        merge_cells(es, G)
        for en in es:
            fa = F2(G, en)
            own = None if en["dep"] else (k, en)
            en["cell"] = None if en["dep"] else poly(sym_cell())
            en["val"] = map_reads(normal(en["val"], fa), fa, carr, lambda arr, idx, f: ex.noninterf(
                arr, idx, f, entries.get(arr, ()), prever[arr], b, own))
    F = G
    for k, es in entries.items():
        ver = prever[k]
        ex.check_order(str(k), es, G, b)
        for en in es:
            if en["dep"]:
                ver = update(ver, en["full"], en["guard"], en["idx"], en["val"], en["forder"])
            else:
                cell = en["cell"]
                w = ite(en["guard"], en["val"], cell) if en["guard"] is not TRUE else en["val"]
                w = normal(w, binds(G, en["binders"]))
                r = ex.classify(w, cell.single_atom(), read(ver, en["idx"]), b, n, TRUE, binds(F, en["binders"]))
                if r is None:
                    raise Unsupported("cell carried in an unsupported way")
                ver = update(ver, en["binders"], TRUE, en["idx"], r[1], en["order"])
        mem[k].ver = ver


class LoopElems:
    """The n elements a loop over b appended to a list."""

    def __init__(self, b, n, t):
        ps = [fresh("l") for _ in t._shape]
        if any(b in syms_of(d) for d in t._shape):
            raise Unsupported("appended shapes differ")
        self.n, self.shape = n, t._shape
        self.lam = Lam((b, *ps), poly(t.at(*[poly(x) for x in ps])))

    def tensor(self):
        return SymTensor([undim(self.n)] + [undim(d) for d in self.shape], lambda *i: read(self.lam, tuple(poly(x) for x in i)))


_loop_ok: dict = {}
_loop_append: dict = {}
_loop_writes: dict = {}


def check_loop(frame):
    """The loop body carries no local state: names it assigns are assigned before they are read."""
    code = frame.f_code
    key = (code, frame.f_lineno)
    if key in _loop_ok:
        if _loop_ok[key]:
            raise Unsupported(_loop_ok[key])
        return
    src = textwrap.dedent(inspect.getsource(code))
    tree = ast.parse(src)
    line = frame.f_lineno - code.co_firstlineno + 1
    loops = [n for n in ast.walk(tree) if isinstance(n, ast.For) and n.lineno <= line <= (n.iter.end_lineno or n.lineno)]
    comps = [n for n in ast.walk(tree) if isinstance(n, (ast.ListComp, ast.GeneratorExp)) and n.lineno <= line <= n.end_lineno]
    err = None
    if len(loops) != 1 or comps:
        err = "symbolic range outside a plain for loop"
    else:
        err = carried_locals(loops[0])
        _loop_writes[key] = sorted({root_name(n) for n in ast.walk(loops[0]) if isinstance(n, ast.Subscript)
                                    and isinstance(n.ctx, ast.Store)} - {None})
        apps = [s.value.func.value for s in loops[0].body if is_append(s)]
        if apps:
            _loop_append[key] = apps[0].id if len(apps) == 1 else None
            if len(apps) > 1:
                err = "several appends in loop"
    _loop_ok[key] = err
    if err:
        raise Unsupported(err)


def root_name(n):
    while isinstance(n, (ast.Subscript, ast.Attribute)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def is_append(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
        and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 1


def carried_locals(loop):
    okapp = {s.value for s in loop.body if is_append(s)}
    names = {s.value.func.value.id for s in loop.body if is_append(s)}
    for n in ast.walk(loop):
        if isinstance(n, ast.Name) and n.id in names and not any(n is c.func.value for c in okapp):
            return "list used while it is filled in a loop"
    for n in ast.walk(loop):
        if n in okapp:
            continue
        e = carried_node(n)
        if e:
            return e
    return carried_vars(loop)


def carried_node(n):
    if isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.While, ast.Yield)):
        return f"control flow in loop: {type(n).__name__}"
    if isinstance(n, ast.AugAssign) and not isinstance(n.target, ast.Subscript):
        return "augmented assignment in loop"
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
            "append", "extend", "insert", "pop", "update", "add", "remove"):
        return "container mutation in loop"
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
        return "attribute mutation in loop"
    return None


def carried_vars(loop):
    stores = {n.id for s in loop.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    defined = set()
    if isinstance(loop.target, ast.Name):
        defined.add(loop.target.id)

    def visit(stmts, defd):
        for s in stmts:
            if isinstance(s, ast.For):
                for n in ast.walk(s.iter):
                    if isinstance(n, ast.Name) and n.id in stores and n.id not in defd:
                        return n.id
                d2 = set(defd) | {s.target.id}
                r = visit(s.body, d2)
                if r:
                    return r
                continue
            if isinstance(s, ast.If):
                for n in ast.walk(s.test):
                    if isinstance(n, ast.Name) and n.id in stores and n.id not in defd:
                        return n.id
                d1, d2 = set(defd), set(defd)
                r = visit(s.body, d1) or visit(s.orelse, d2)
                if r:
                    return r
                defd |= d1 & d2
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in stores and n.id not in defd:
                    return n.id
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    defd.add(n.id)
        return None
    bad = visit(loop.body, defined)
    return f"local {bad} carried between iterations" if bad else None


# --------------------------------------------------------------------------
# Shims
# --------------------------------------------------------------------------


def deep_sym(x):
    if isinstance(x, (Sym, SymTensor, SymBool, LoopElems)):
        return True
    if isinstance(x, (list, tuple)):
        return any(deep_sym(y) for y in x)
    if isinstance(x, dict):
        return any(deep_sym(y) for y in x.values())
    return False


def sh_type(*a):
    if len(a) != 1:
        return builtins.type(*a)
    x = a[0]
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymReal):
        return float
    if isinstance(x, SymTensor):
        return real_np.ndarray
    return builtins.type(x)


def sh_isinstance(x, t):
    ts = t if isinstance(t, tuple) else t.__args__ if isinstance(t, types.UnionType) else (t,)
    if isinstance(x, SymInt):
        return any(k in (int, real_np.integer, object) or k is SymInt for k in ts)
    if isinstance(x, SymReal):
        return any(k in (float, real_np.floating, object) for k in ts)
    if isinstance(x, SymTensor):
        return any(k in (real_np.ndarray, object, SymTensor) for k in ts)
    return builtins.isinstance(x, t)


class TensorBytes:
    """The bytes of a tensor, in C order."""

    def __init__(self, tensor):
        self.tensor = tensor

    def __len__(self):
        raise Unsupported("len of symbolic bytes")


class Elems(float):
    """All the elements of a tensor of symbolic size, in C order, as one item of a textual list."""

    def __new__(cls, t):
        r = float.__new__(cls, "nan")
        r.tensor = t
        return r

    def __str__(self):
        return tensor_token(self.tensor)

    __repr__ = __str__

    def __format__(self, spec):
        return tensor_token(self.tensor)

    # comparisons: a test over every element, when it has one answer for all of them
    def _cmp(self, op, o):
        v = wrap_item(self.tensor)
        c = getattr(v, op)(o)
        f = CTX.facts
        for q, n in zip(v.index, self.tensor._shape):
            f = f.bind(q, n)
        c = normal_cond(cond_of(c), f)
        if core.proves(c, f):
            return True
        if core.proves(c_not(c), f):
            return False
        raise Unsupported("a test that depends on the elements of a tensor")

    def __lt__(self, o): return self._cmp("__lt__", o)
    def __le__(self, o): return self._cmp("__le__", o)
    def __gt__(self, o): return self._cmp("__gt__", o)
    def __ge__(self, o): return self._cmp("__ge__", o)


def wrap_item(t):
    """An arbitrary element of a tensor."""
    idx = [fresh("e") for _ in t._shape]
    p = t.at(*idx)
    v = (SymInt if p.isint() else SymReal)(p)
    v.index = [poly(i) for i in idx]
    return v


TENSORS: list = []


def tensor_token(t):
    for i, x in enumerate(TENSORS):
        if x is t:
            return f"TENSOR_{i}"
    TENSORS.append(t)
    return f"TENSOR_{len(TENSORS) - 1}"


def conv_float(x=0.0, *a):
    if isinstance(x, SymInt):
        return SymReal(x.p)
    if isinstance(x, (SymReal, Elems)):
        return x
    if isinstance(x, SymTensor) and x.ndim == 0:
        return SymReal(poly(x.at()))
    return float(x, *a)


def conv_int(x=0, *a):
    if isinstance(x, Elems):
        return x
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        p = x.p
        q = floor_(p)
        if q == p or nonneg(p, CTX.facts):
            return wrap(q)
        return wrap(ite(c_ge(p), q, -floor_(-p)))
    if isinstance(x, SymTensor):
        return conv_int(x.item())
    return int(x, *a)


def sh_len(x):
    if isinstance(x, SymTensor):
        return x.shape[0]
    return len(x)


def sh_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(isinstance(x, Sym) for x in xs):
        return wrap(normal(rmax(*[x.p if isinstance(x, Sym) else poly(x) for x in xs]), CTX.facts))
    if not xs:
        return k["default"]
    return max(xs, **k)


def sh_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(isinstance(x, Sym) for x in xs):
        return wrap(normal(rmin(*[x.p if isinstance(x, Sym) else poly(x) for x in xs]), CTX.facts))
    if not xs:
        return k["default"]
    return min(xs, **k)


class MathShim:
    def __getattr__(self, n):
        real = getattr(real_math, n)

        def f(*a):
            if not any(isinstance(x, Sym) for x in a):
                return real(*a)
            x = a[0]
            if n == "floor":
                return wrap(named(normal(floor_(x.p), CTX.facts)))
            if n == "ceil":
                return wrap(named(normal(-floor_(-x.p), CTX.facts)))
            if n == "sqrt":
                return SymReal(app("sqrt", x.p))
            if n == "prod":
                return wrap(prod_of(dim(v) for v in x))
            raise Unsupported(f"math.{n}")
        return f if callable(real) else real


def un(name):
    return lambda t, *a, **k: elementwise(lambda x: app(name, x), t)


def clip(t, lo, hi, **k):
    r = t
    if lo is not None:
        r = elementwise(rmax, r, lo)
    if hi is not None:
        r = elementwise(rmin, r, hi)
    return r


def red(kind):
    def f(t, axis=None, keepdims=False, **k):
        # a list of numbers: element by element
        if isinstance(t, (tuple, list)) and axis in (None, 0) and not keepdims and t and all(is_num(x) or isinstance(x, Sym) for x in t):
            r = t[0]
            for x in t[1:]:
                r = r * x if kind == "prod" else r + x if kind == "sum" else sh_max(r, x) if kind == "max" else sh_min(r, x)
            return r
        return reduce_(kind, t, axis, keepdims)
    return f


IMPL = {
    "reshape": reshape, "transpose": transpose, "dot": dot, "matmul": matmul, "tensordot": tensordot,
    "concatenate": concatenate, "tile": tile, "pad": pad, "take": take, "array": np_array, "asarray": np_array,
    "zeros": filled(0), "ones": filled(1), "arange": arange, "where": where, "einsum": einsum,
    "zeros_like": like(0), "ones_like": like(1), "empty": None,
    "sum": red("sum"), "max": red("max"), "amax": red("max"), "min": red("min"), "amin": red("min"),
    "prod": red("prod"), "mean": lambda t, axis=None, keepdims=False, **k: mean(t, axis, keepdims),
    "exp": un("exp"), "sqrt": un("sqrt"), "log": un("log"), "tanh": un("tanh"),
    "maximum": lambda a, b, **k: elementwise(rmax, a, b), "minimum": lambda a, b, **k: elementwise(rmin, a, b),
    "clip": clip, "copy": lambda t: to_tensor(t).copy(), "squeeze": squeeze, "expand_dims": expand_dims,
    "add": lambda a, b: elementwise(lambda x, y: x + y, a, b),
    "subtract": lambda a, b: elementwise(lambda x, y: x - y, a, b),
    "multiply": lambda a, b: elementwise(lambda x, y: x * y, a, b),
    "divide": lambda a, b: elementwise(rdiv, a, b),
    "ravel": lambda t: reshape(t, (-1,)), "flatten": lambda t: reshape(t, (-1,)),
    "abs": lambda t: elementwise(lambda x: rmax(x, -x), t),
    "floor": lambda t: elementwise(floor_, t),
    "power": lambda t, e, **k: t ** e,
    "isnan": lambda t: elementwise(lambda x: ZERO, t),
    "shape": lambda t: t.shape,
    "size": lambda t: t.size,
    "floor_divide": lambda a, b: a // b,
    "moveaxis": lambda t, a, b: transpose(t, _moveaxis(t.ndim, a, b)),
    "swapaxes": lambda t, a, b: transpose(t, _swap(t.ndim, a, b)),
    "stack": lambda ts, axis=0: concatenate([expand_dims(t, axis) for t in ts], axis),
    "negative": lambda t, **k: -to_tensor(t),
    "square": lambda t, **k: elementwise(lambda x: x * x, t),
    "reciprocal": lambda t, **k: elementwise(lambda x: rdiv(ONE, x), t),
    "less": lambda a, b: elementwise(lambda x, y: ite(c_gt(y - x), ONE, ZERO), a, b),
    "less_equal": lambda a, b: elementwise(lambda x, y: ite(c_ge(y - x), ONE, ZERO), a, b),
    "greater": lambda a, b: elementwise(lambda x, y: ite(c_gt(x - y), ONE, ZERO), a, b),
    "greater_equal": lambda a, b: elementwise(lambda x, y: ite(c_ge(x - y), ONE, ZERO), a, b),
    "full": lambda shape, v, *a, **k: full(shape, v),
    "full_like": lambda t, v, *a, **k: full(t.shape, v),
    "broadcast_to": lambda t, shape: spread(t, shape),
}
for _a, _b in (("absolute", "abs"), ("fabs", "abs"), ("true_divide", "divide"), ("ascontiguousarray", "array")):
    IMPL[_a] = IMPL[_b]


def spread(t, shape):
    dims = [dim(x) for x in (shape if isinstance(shape, (list, tuple)) else (shape,))]
    f = broadcast_to(to_tensor(t), dims)
    return SymTensor([undim(x) for x in dims], lambda *i: f(*i))


def full(shape, v):
    return spread(to_tensor(v), shape).copy()


def _moveaxis(n, a, b):
    o = [k for k in range(n) if k != a % n]
    o.insert(b % n, a % n)
    return o


def _swap(n, a, b):
    o = list(range(n))
    o[a % n], o[b % n] = o[b % n], o[a % n]
    return o


def ufunc_reduce(kind):
    def f(array=None, axis=0, keepdims=False, **k):
        if isinstance(array, (list, tuple)):
            ps = [x.p if isinstance(x, Sym) else poly(x) for x in array]
            if kind == "prod":
                return wrap(prod_of(ps))
            r = ZERO
            for p in ps:
                r = r + p
            if kind == "sum":
                return wrap(r)
            raise Unsupported("ufunc reduce")
        return reduce_(kind, array, axis, keepdims)
    return f


class Ufunc:
    KIND = {"multiply": "prod", "add": "sum", "maximum": "max", "minimum": "min"}

    def __init__(self, name):
        self.name = name
        self.real = getattr(real_np, name)

    def __call__(self, *a, **k):
        if deep_sym(a) or deep_sym(k):
            f = IMPL.get(self.name)
            if f is None:
                raise Unsupported(f"np.{self.name}")
            return f(*a, **k)
        return self.real(*a, **k)

    def reduce(self, *a, **k):
        if deep_sym(a) or deep_sym(k):
            return ufunc_reduce(self.KIND[self.name])(*a, **k)
        return self.real.reduce(*a, **k)

    def __getattr__(self, n):
        return getattr(self.real, n)


class NpShim:
    def __getattr__(self, n):
        real = getattr(real_np, n)
        if isinstance(real, type) or not callable(real):
            return real
        if n in Ufunc.KIND:
            return Ufunc(n)

        def f(*a, **k):
            if deep_sym(a) or deep_sym(k):
                impl = IMPL.get(n)
                if impl is None:
                    raise Unsupported(f"np.{n}")
                return impl(*a, **k)
            return real(*a, **k)
        f.__name__ = n
        return f


SHIMS = {
    "type": sh_type, "isinstance": sh_isinstance, "range": sym_range, "len": sh_len, "max": sh_max,
    "min": sh_min,
}


def install(prefixes=("acetone_nnet.generator", "acetone_nnet.ir", "acetone_nnet.versioning",
                      "acetone_nnet.quantize", "acetone_nnet.pattern_matching", "acetone_nnet.importers")):
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith(prefixes):
            continue
        for k, v in SHIMS.items():
            mod.__dict__[k] = v
        if mod.__dict__.get("np") is real_np:
            mod.__dict__["np"] = NpShim()
        if mod.__dict__.get("math") is real_math:
            mod.__dict__["math"] = MathShim()
    builtins.vc_int__ = conv_int
    builtins.vc_float__ = conv_float
    patch_traits()


def uninstall():
    builtins.vc_int__ = int
    builtins.vc_float__ = float
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith("acetone_nnet"):
            continue
        for k, v in SHIMS.items():
            if mod.__dict__.get(k) is v:
                del mod.__dict__[k]
        if isinstance(mod.__dict__.get("np"), NpShim):
            mod.__dict__["np"] = real_np
        if isinstance(mod.__dict__.get("math"), MathShim):
            mod.__dict__["math"] = real_math


def patch_traits():
    """Numeric traits accept symbolic values (type validation of traits is not modelled)."""
    from acetone_nnet.ir import Layer
    from traits.api import Any

    def subs(c):
        yield c
        for s in c.__subclasses__():
            yield from subs(s)
    for cls in subs(Layer):
        ct = cls.__class_traits__
        for n, t in list(ct.items()):
            h = getattr(t, "handler", None)
            if h is None:
                continue
            nm = type(h).__name__
            if nm in ("Int", "BaseInt", "Float", "BaseFloat", "Array") or (nm == "Union" and n == "path"):
                d = None if nm in ("Union", "Array") else h.default_value
                ct[n] = Any(d).as_ctrait()


def explore(fn, facts, limit=64):
    """All paths of fn: list of (facts, value, exception, ctx)."""
    global CTX
    out = []
    stack = [[]]
    while stack:
        dec = stack.pop()
        CTX = Ctx(facts, dec)
        try:
            try:
                v, exc = fn(), None
            except PathEnd:
                v, exc = None, PathEnd
            except (Unsupported, RecursionError):
                raise
            except Exception as e:   # noqa: BLE001  the real code refused the input
                v, exc = None, e
            if exc is not PathEnd:
                out.append((CTX.facts, v, exc, CTX))
            for i in range(len(dec), len(CTX.taken)):
                if CTX.taken[i]:
                    stack.append(CTX.taken[:i] + [False])
        finally:
            pass
        if len(out) + len(stack) > limit:
            raise Unsupported("too many paths")
    return out
