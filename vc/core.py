"""Term language and prover of the verification-condition generator.

Integers and reals share one representation: multivariate polynomials with
rational coefficients over *atoms*.  An atom is a symbol, a floor division, an
array read, a fold (sum / product / max / min) over bounded binders, a
conditional, an uninterpreted application or the inverse of a polynomial.

Equality of terms is decided by normalisation; inequalities between integer
terms (`nonneg`) by certificates that are checked with exact arithmetic:
substitution certificates, Handelman certificates found by an exact LP, and a
Z3 nonlinear-integer query with a deterministic resource limit as last resort.
"""
from __future__ import annotations

import itertools
import os
import random
import zlib
from fractions import Fraction
from functools import lru_cache

import z3

RLIMIT = 3_000_000


class Unsupported(Exception):
    """The construct is outside the verifier's subset."""


class Stats:
    """Solver accounting of the run."""

    def __init__(self):
        self.subst = self.handelman = self.z3 = self.failed = self.refuted = 0
        self.solver_time = 0.0


STATS = Stats()

# --------------------------------------------------------------------------
# Atoms
# --------------------------------------------------------------------------


#: another order of sets, to see whether verdicts depend on it
SHUFFLE = int(os.environ.get("VC_SHUFFLE", "1"))


class Stable(complex):
    """Identity with a hash that is the same in every run (an object's address is not), compared at C speed."""

    __slots__ = ()
    _numbers = itertools.count(1)

    def __new__(cls, *args, **kw):
        # the order of sets comes first, so that identities made under different ones stay different
        return complex.__new__(cls, next(Stable._numbers) * SHUFFLE % 1000000007, SHUFFLE)


class Atom(Stable):
    __slots__ = ("kind", "args", "key", "uid", "isint", "_level", "_syms")
    _table: dict = {}
    _next = itertools.count()

    def __repr__(self):
        return self.key


def mk_atom(kind, args, isint):
    key = (kind, args)
    a = Atom._table.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.isint = kind, args, isint
        a.uid = next(Atom._next)
        a.key = _atom_str(kind, args)
        a._level = None
        a._syms = None
        Atom._table[key] = a
    return a


def _atom_str(kind, args):
    if kind == "sym":
        return args[0]
    if kind == "read":
        ver, idx = args
        return f"{ver.name}[{','.join(map(str, idx))}]"
    if kind in FOLDS:
        binders, guard, body = args
        b = ",".join(f"{n.key}<{c}" for n, c in binders)
        g = "" if guard is TRUE else f" | {guard}"
        return f"{kind}({b}{g}: {body})"
    if kind == "ite":
        return f"ite({args[0]}, {args[1]}, {args[2]})"
    if kind == "app":
        return f"{args[0]}({', '.join(map(str, args[1]))})"
    if kind in ("max2", "min2"):
        return f"{kind}({', '.join(map(str, args))})"
    return f"{kind}({', '.join(map(str, args))})"


FOLDS = ("sum", "prod", "max", "min")

# --------------------------------------------------------------------------
# Polynomials
# --------------------------------------------------------------------------


class P:
    """Polynomial over atoms, immutable and hashable."""

    __slots__ = ("t", "_h", "_s")

    def __init__(self, terms):
        self.t = terms
        self._h = None
        self._s = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __str__(self):
        if self._s is None:
            if not self.t:
                self._s = "0"
            else:
                parts = []
                for m, c in self.t.items():
                    ms = "*".join(sorted(a.key + (f"^{e}" if e > 1 else "") for a, e in m))
                    if not ms:
                        parts.append(str(c))
                    elif c == 1:
                        parts.append(ms)
                    elif c == -1:
                        parts.append("-" + ms)
                    else:
                        parts.append(f"{c}*{ms}")
                parts.sort()
                self._s = "(" + " + ".join(parts) + ")" if len(parts) > 1 else parts[0]
        return self._s

    __repr__ = __str__

    # arithmetic
    def __add__(self, o):
        o = poly(o)
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return P(t)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-poly(o))

    def __rsub__(self, o):
        return poly(o) - self

    def __mul__(self, o):
        o = poly(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                c = c1 * c2
                if m is None:
                    continue
                if isinstance(m, P):
                    for mm, cc in m.t.items():
                        n = t.get(mm, 0) + c * cc
                        if n:
                            t[mm] = n
                        else:
                            t.pop(mm, None)
                    continue
                n = t.get(m, 0) + c
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
        return P(t)

    __rmul__ = __mul__

    # inspection
    def const(self):
        """Return the rational value if the polynomial is constant."""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return Fraction(self.t[()])
        return None

    def is_zero(self):
        return not self.t

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def isint(self):
        return all(c.denominator == 1 and all(a.isint for a, _ in m)
                   for m, c in self.t.items())


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # cancel x * inv(x)
    changed = False
    for a in list(d):
        if a.kind == "inv" and a in d:
            base = a.args[0].single_atom()
            if base is not None and base in d:
                k = min(d[a], d[base])
                for x in (a, base):
                    d[x] -= k
                    if not d[x]:
                        del d[x]
    return tuple(sorted(d.items(), key=lambda x: x[0].uid))


ZERO = P({})


def q_(x):
    """Integer when possible."""
    return x.numerator if x.denominator == 1 else x


def poly(x):
    if isinstance(x, P):
        return x
    if isinstance(x, Atom):
        return P({((x, 1),): 1})
    if isinstance(x, bool):
        return P({(): 1}) if x else ZERO
    if isinstance(x, int):
        return P({(): x}) if x else ZERO
    if isinstance(x, Fraction):
        if x.denominator == 1:
            x = x.numerator
        return P({(): x}) if x else ZERO
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return poly(mk_atom("app", ("const_" + repr(x), ()), False))
        return poly(Fraction(repr(x)))
    try:
        import numpy as np
        if isinstance(x, np.integer):
            return poly(int(x))
        if isinstance(x, np.floating):
            return poly(float(x))
    except ImportError:
        pass
    raise Unsupported(f"cannot convert {type(x).__name__} to a term")


ONE = poly(1)


def sym(name, isint=True):
    return mk_atom("sym", (name, "int" if isint else "real"), isint)


_fresh = itertools.count()


def fresh(prefix, isint=True):
    return sym(f"{prefix}#{next(_fresh)}", isint)


# --------------------------------------------------------------------------
# Conditions
# --------------------------------------------------------------------------


class Cond(Stable):
    __slots__ = ("op", "args", "_s")
    _table: dict = {}

    def __str__(self):
        if self._s is None:
            if self.op in ("and", "or"):
                j = " & " if self.op == "and" else " | "
                self._s = "(" + j.join(sorted(map(str, self.args))) + ")"
            elif self.op == "true":
                self._s = "true"
            elif self.op == "false":
                self._s = "false"
            else:
                rel = {"ge": ">=0", "gt": ">0", "eq": "=0", "ne": "!=0"}[self.op]
                self._s = f"{self.args[0]}{rel}"
        return self._s

    __repr__ = __str__


def _mk(op, args):
    k = (op, args)
    c = Cond._table.get(k)
    if c is None:
        c = Cond()
        c.op, c.args, c._s = op, args, None
        Cond._table[k] = c
    return c


TRUE = _mk("true", ())
FALSE = _mk("false", ())


def _prim(p):
    """Divide a polynomial by the positive content of its coefficients."""
    from math import gcd
    if not p.t:
        return p
    num = 0
    den = 1
    for c in p.t.values():
        c = Fraction(c)
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    k = Fraction(den, num)
    return p if k == 1 else P({m: q_(c * k) for m, c in p.t.items()})


def c_ge(p):
    """p >= 0 (over the integers when p is an integer term)."""
    p = poly(p)
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    if p.isint():
        # integer tightening: divide by gcd of non-constant coefficients
        from math import gcd, floor
        g = 0
        for m, k in p.t.items():
            if m:
                g = gcd(g, abs(int(k)))
        if g > 1:
            t = {m: (int(k) // g) for m, k in p.t.items()}
            p = P({m: k for m, k in t.items() if k})
    else:
        p = _prim(p)
    return _mk("ge", (p,))


def c_gt(p):
    p = poly(p)
    if p.isint():
        return c_ge(p - 1)
    c = p.const()
    if c is not None:
        return TRUE if c > 0 else FALSE
    return _mk("gt", (_prim(p),))


def _sgn_norm(p):
    p = _prim(p)
    q = -p
    return p if str(p) <= str(q) else q


def c_eq(p):
    p = poly(p)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    return _mk("eq", (_sgn_norm(p),))


def c_ne(p):
    return c_not(c_eq(p))


def c_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "ge":
        return c_gt(-c.args[0])
    if c.op == "gt":
        return c_ge(-c.args[0])
    if c.op == "eq":
        return _mk("ne", c.args)
    if c.op == "ne":
        return _mk("eq", c.args)
    if c.op == "and":
        return c_or(*[c_not(x) for x in c.args])
    return c_and(*[c_not(x) for x in c.args])


def c_and(*cs):
    s = set()
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        if c.op == "and":
            s |= c.args
        else:
            s.add(c)
    for c in s:
        if c.op not in ("and", "or") and c_not(c) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return _mk("and", frozenset(s))


def c_or(*cs):
    s = set()
    for c in cs:
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        if c.op == "or":
            s |= c.args
        else:
            s.add(c)
    for c in s:
        if c.op not in ("and", "or") and c_not(c) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return _mk("or", frozenset(s))


def conjuncts(c):
    if c is TRUE:
        return []
    return list(c.args) if c.op == "and" else [c]


# --------------------------------------------------------------------------
# Substitution
# --------------------------------------------------------------------------


def syms_of_atom(a):
    if a._syms is None:
        k, g = a.kind, a.args
        if k == "sym":
            r = frozenset([a])
        elif k == "read":
            r = frozenset().union(*[syms_of(i) for i in g[1]], g[0].free_syms())
        elif k in FOLDS:
            binders, guard, body = g
            r = syms_of(body) | syms_of_cond(guard)
            for _, c in binders:
                r = r | syms_of(c)
            r = r - frozenset(b for b, _ in binders)
        elif k == "ite":
            r = syms_of_cond(g[0]) | syms_of(g[1]) | syms_of(g[2])
        elif k == "app":
            r = frozenset().union(*[syms_of(i) for i in g[1]]) if g[1] else frozenset()
        else:
            r = frozenset().union(*[syms_of(i) for i in g])
        a._syms = r
    return a._syms


def syms_of(p):
    r = frozenset()
    for m in p.t:
        for a, _ in m:
            r = r | syms_of_atom(a)
    return r


def syms_of_cond(c):
    if c.op in ("true", "false"):
        return frozenset()
    r = frozenset()
    for x in c.args:
        r = r | (syms_of(x) if isinstance(x, P) else syms_of_cond(x))
    return r


class Deep(dict):
    """A substitution of atoms other than symbols, wherever they are."""


def subst(p, env):
    """Substitute atoms (normally symbols) by polynomials."""
    if not env:
        return p
    if type(env) is not Deep and not any(s in env for s in syms_of(p)) and not any(a in env for a in p.atoms()):
        return p
    out = ZERO
    cache = {}
    for m, c in p.t.items():
        cur = P({(): c})
        for a, e in m:
            v = cache.get(a)
            if v is None:
                v = cache[a] = subst_atom(a, env)
            for _ in range(e):
                cur = cur * v
        out = out + cur
    return out


def subst_atom(a, env):
    if a in env:
        return env[a]
    if type(env) is not Deep and not any(s in env for s in syms_of_atom(a)) or a.kind == "sym":
        return poly(a)
    k, g = a.kind, a.args
    if k == "read":
        return read(g[0].subst(env), tuple(subst(i, env) for i in g[1]))
    if k in FOLDS:
        binders, guard, body = g
        # capture avoidance: rename binders apart
        ren = {b: poly(fresh("b")) for b, _ in binders}
        binders2 = []
        for b, c in binders:
            binders2.append((ren[b].single_atom(), subst(c, env)))
        guard = subst_cond(subst_cond(guard, ren), env)
        body = subst(subst(body, ren), env)
        return fold(k, binders2, guard, body)
    if k == "ite":
        c = subst_cond(g[0], env)
        if c is TRUE or c is FALSE:
            return subst(g[1] if c is TRUE else g[2], env)
        return ite(c, subst(g[1], env), subst(g[2], env))
    if k == "app":
        return app(g[0], *[subst(x, env) for x in g[1]], isint=a.isint)
    if k == "fdiv":
        return fdiv(subst(g[0], env), subst(g[1], env))
    if k == "floor":
        return floor_(subst(g[0], env))
    if k == "inv":
        return inv(subst(g[0], env))
    if k in ("max2", "min2"):
        return mm2(k, [subst(x, env) for x in g])
    raise Unsupported(k)


def subst_cond(c, env):
    if c.op in ("true", "false") or not env:
        return c
    if c.op == "and":
        return c_and(*[subst_cond(x, env) for x in c.args])
    if c.op == "or":
        return c_or(*[subst_cond(x, env) for x in c.args])
    p = subst(c.args[0], env)
    return {"ge": c_ge, "gt": c_gt, "eq": c_eq, "ne": c_ne}[c.op](p)


# --------------------------------------------------------------------------
# Constructors with light simplification
# --------------------------------------------------------------------------


def _mono_divides(q, m):
    d = dict(m)
    for a, e in q:
        if d.get(a, 0) < e:
            return None
        d[a] -= e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].uid))


def poly_divmod_mono(p, q):
    """Split p = q*a + b; for a polynomial q of several monomials, a collects the whole multiples of q in p."""
    if len(q.t) != 1:
        return poly_divmod_multi(p, q)
    (qm, qc), = q.t.items()
    a, b = {}, {}
    for m, c in p.t.items():
        r = _mono_divides(qm, m)
        if r is None:
            b[m] = c
            continue
        k = Fraction(c) / qc
        if k.denominator == 1:
            a[r] = k.numerator
        else:
            n = k.numerator // k.denominator
            if n:
                a[r] = n
            b[m] = c - n * qc
    return P(a), P(b)


def poly_divmod_multi(p, q):
    if len(p.t) < len(q.t) or not q.t:
        return ZERO, p
    items = list(q.t.items())
    (qm, qc) = items[0]
    a, rest = {}, dict(p.t)
    for m in list(p.t):
        r = _mono_divides(qm, m)
        if r is None or m not in rest:
            continue
        k = Fraction(rest[m]) / qc
        if k.denominator != 1:
            continue
        step = {}
        for m2, c2 in (P({r: k}) * q).t.items():
            step[m2] = c2
        if len(step) == len(items) and all(rest.get(m2) == c2 for m2, c2 in step.items()):
            for m2 in step:
                del rest[m2]
            a[r] = a.get(r, 0) + k.numerator
    return P({m: c for m, c in a.items() if c}), P(rest)


def fdiv(p, q):
    """Floor division of integer terms (q != 0)."""
    p, q = poly(p), poly(q)
    pc, qc = p.const(), q.const()
    if qc == 1:
        return p
    if pc is not None and qc is not None and qc != 0:
        return poly(int(pc // qc))
    if p.is_zero():
        return ZERO
    # the divisor with its leading monomial positive: floor(p / q) = floor(-p / -q)
    top = max(q.degree(), 1)
    lead = [c for m, c in sorted(q.t.items(), key=str) if sum(e for _, e in m) == top] or [qc]
    if lead[0] < 0:
        p, q = -p, -q
    a, b = poly_divmod_mono(p, q)
    if b.is_zero():
        return a
    if not a.is_zero():
        return a + fdiv(b, q)
    from math import gcd
    g = gcd(*(int(c) for c in (*p.t.values(), *q.t.values())))
    if g > 1:
        p, q = p * Fraction(1, g), q * Fraction(1, g)
        qc = q.const()
        if qc == 1:
            return p
    # (x fdiv a) fdiv b = x fdiv (a*b) for positive a, b
    at = p.single_atom()
    if at is not None and at.kind == "fdiv":
        return fdiv(at.args[0], at.args[1] * q)
    # floor((k + floor(z)) / n) = floor((k + z) / n) for an integer k and a positive constant n
    if qc is not None and qc > 0:
        fl = [m for m, c in p.t.items() if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0].kind in ("fdiv", "floor")]
        if len(fl) == 1:
            a = fl[0][0][0]
            k = p - poly(a)
            if a.kind == "fdiv":
                return fdiv(k * a.args[1] + a.args[0], a.args[1] * q)
            return floor_((k + a.args[0]) * Fraction(1, int(qc)))
    return poly(mk_atom("fdiv", (p, q), True))


def fmod(p, q):
    p, q = poly(p), poly(q)
    return p - q * fdiv(p, q)


def denominator(p):
    from math import lcm
    n = 1
    for k in p.t.values():
        n = lcm(n, Fraction(k).denominator)
    return n


def floor_(p):
    """Floor of a real term."""
    p = poly(p)
    if p.isint():
        return p
    c = p.const()
    if c is not None:
        return poly(c.numerator // c.denominator)
    at = p.single_atom()
    if at is not None and at.kind in ("max2", "min2"):
        return mm2(at.kind, [floor_(x) for x in at.args])
    if at is not None and at.kind == "ite":
        return ite(at.args[0], floor_(at.args[1]), floor_(at.args[2]))
    # pull integer part out
    ip = {m: k for m, k in p.t.items() if k.denominator == 1 and all(a.isint for a, _ in m)}
    fp = P({m: k for m, k in p.t.items() if m not in ip})
    # floor(x / q): single inverse common to all terms
    invs = {a for m in fp.t for a, _ in m if a.kind == "inv"}
    if len(invs) == 1:
        iv = next(iter(invs))
        q = iv.args[0]
        if q.isint() and all(dict(m).get(iv, 0) <= 1 for m in p.t):
            num = cancel(p * q)
            L = denominator(num)
            num = num * L
            if num.isint():
                return fdiv(num, q * L)
    elif not invs:
        L = denominator(fp)
        num = p * L
        if num.isint():
            return fdiv(num, poly(L))
    return P(ip) + poly(mk_atom("floor", (fp,), True))


def cancel(p):
    """Cancel q*inv(q) for polynomial q with several monomials."""
    invs = {a for a in p.atoms() if a.kind == "inv" and a.args[0].single_atom() is None}
    for iv in invs:
        q = iv.args[0]
        with_, without = {}, {}
        for m, c in p.t.items():
            (with_ if any(a is iv for a, _ in m) else without)[m] = c
        # strip one power of inv
        st = {}
        ok = True
        for m, c in with_.items():
            d = dict(m)
            if d[iv] != 1:
                ok = False
                break
            del d[iv]
            st[tuple(sorted(d.items(), key=lambda x: x[0].uid))] = c
        if not ok:
            continue
        quo = poly_exact_div(P(st), q)
        if quo is not None:
            p = P(without) + quo
    return p


def poly_exact_div(p, q):
    """Exact polynomial division or None."""
    if q.is_zero():
        return None
    key = lambda m: (sum(e for _, e in m), tuple((a.uid, e) for a, e in m))
    # lex order on exponent vectors
    ats = sorted({a for x in (p, q) for a in x.atoms()}, key=lambda a: a.uid)

    def vec(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in ats)
    lead_q = max(q.t, key=vec)
    rem, quo = p, ZERO
    for _ in range(400):
        if rem.is_zero():
            return quo
        lm = max(rem.t, key=vec)
        r = _mono_divides(lead_q, lm)
        if r is None:
            return None
        t = P({r: q_(Fraction(rem.t[lm]) / q.t[lead_q])})
        quo = quo + t
        rem = rem - t * q
    return None


def inv(p):
    p = poly(p)
    c = p.const()
    if c is not None:
        if c == 0:
            raise Unsupported("division by zero constant")
        return poly(1 / Fraction(c))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = poly(1 / Fraction(c))
        for a, e in m:
            for _ in range(e):
                if a.kind == "inv":
                    out = out * a.args[0]
                else:
                    out = out * poly(mk_atom("inv", (poly(a),), False))
        return out
    # normalise content and sign
    k = min(p.t.items(), key=lambda x: (-sum(e for _, e in x[0]), str(P({x[0]: 1}))))[1]
    q = P({m: q_(Fraction(c) / k) for m, c in p.t.items()})
    return poly(mk_atom("inv", (q,), False)) * poly(1 / Fraction(k))


def rdiv(p, q):
    return cancel(poly(p) * inv(q))


def app(name, *args, isint=False):
    args = tuple(poly(a) for a in args)
    return poly(mk_atom("app", (name, args), isint))


def let(p, facts=None):
    """A quotient without tensor elements, kept whole: equal quotients are one atom, of which nothing else is known."""
    p = poly(p)
    at = p.single_atom()
    if at is not None and at.kind == "ite":
        return ite(at.args[0], let(at.args[1], facts), let(at.args[2], facts))
    if any(a.kind == "inv" for a in p.atoms()) and all(a.kind in ("inv", "sym", "ite", "max2", "min2", "floor", "fdiv")
                                                       for a in p.atoms()):
        return app("let", normal(p, facts) if facts is not None else p)
    return p


def mm2(kind, ps):
    flat = []
    for x in ps:
        x = poly(x)
        a = x.single_atom()
        if a is not None and a.kind == kind:
            flat.extend(a.args)
        else:
            flat.append(x)
    consts = [x.const() for x in flat if x.const() is not None]
    rest = sorted({x for x in flat if x.const() is None}, key=str)
    if consts:
        c = max(consts) if kind == "max2" else min(consts)
        rest = rest + [poly(c)]
    if len(rest) == 1:
        return rest[0]
    return poly(mk_atom(kind, tuple(rest), all(x.isint() for x in rest)))


def rmax(*ps):
    return mm2("max2", ps)


def rmin(*ps):
    return mm2("min2", ps)


def ite(c, a, b):
    a, b = poly(a), poly(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    # canonical: max / min
    if c.op in ("ge", "gt"):
        d = c.args[0]
        diff = a - b
        if diff == d or (c.op == "ge" and diff.isint() and d + 1 == diff and False):
            return rmax(a, b)
        if _prim(diff) == d or (d.isint() and _prim(diff) - 1 == d):
            return rmax(a, b)
        if _prim(-diff) == d or (d.isint() and _prim(-diff) - 1 == d):
            return rmin(a, b)
    # canonical orientation: positive literal first
    if c.op in ("ne",):
        return ite(c_not(c), b, a)
    n = c_not(c)
    if c.op not in ("and",) and n.op == "and":
        return ite(n, b, a)
    if c.op in ("ge", "gt") and str(n) < str(c):
        return poly(mk_atom("ite", (n, b, a), a.isint() and b.isint()))
    return poly(mk_atom("ite", (c, a, b), a.isint() and b.isint()))


def level(p):
    """Highest canonical binder level occurring in p."""
    r = 0
    for m in p.t:
        for a, _ in m:
            r = max(r, level_atom(a))
    return r


def level_atom(a):
    if a._level is None:
        k, g = a.kind, a.args
        if k == "sym":
            n = g[0]
            r = int(n[1:].split("_")[0]) if n.startswith("%") else 0
        elif k == "read":
            r = max([level(i) for i in g[1]] + [g[0].level()])
        elif k in FOLDS:
            r = max([level(g[2]), level_cond(g[1])] + [level(c) for _, c in g[0]]
                    + [level_atom(b) for b, _ in g[0]])
        elif k == "ite":
            r = max(level_cond(g[0]), level(g[1]), level(g[2]))
        elif k == "app":
            r = max([level(x) for x in g[1]], default=0)
        else:
            r = max([level(x) for x in g], default=0)
        a._level = r
    return a._level


def level_cond(c):
    if c.op in ("true", "false"):
        return 0
    return max((level(x) if isinstance(x, P) else level_cond(x)) for x in c.args)


def fold(kind, binders, guard, body):
    """Fold of body over the product of binder ranges [0, count)."""
    binders = [(b if isinstance(b, Atom) else b.single_atom(), poly(c)) for b, c in binders]
    body = poly(body)
    it = body.single_atom()
    if it is not None and it.kind == "ite":
        neutral = {"sum": ZERO, "prod": ONE}.get(kind)
        if kind in ("max", "min"):
            neutral = app("const_-inf" if kind == "max" else "const_inf")
        if it.args[2] == neutral:
            guard, body = c_and(guard, it.args[0]), it.args[1]
        elif it.args[1] == neutral:
            guard, body = c_and(guard, c_not(it.args[0])), it.args[2]
    if guard is FALSE:
        if kind == "sum":
            return ZERO
        if kind == "prod":
            return ONE
        return app("const_" + ("-inf" if kind == "max" else "inf"))
    live = []
    for b, c in binders:
        k = c.const()
        if k is not None and k == 1:
            body, guard = subst(body, {b: ZERO}), subst_cond(guard, {b: ZERO})
        elif k is not None and k <= 0:
            if kind == "sum":
                return ZERO
            if kind == "prod":
                return ONE
            live.append((b, c))
        else:
            live.append((b, c))
    binders = live
    if not binders:
        if guard is TRUE:
            return body
        if kind == "sum":
            return ite(guard, body, ZERO)
        if kind == "prod":
            return ite(guard, body, ONE)
        return ite(guard, body, app("const_" + ("-inf" if kind == "max" else "inf")))
    if body.is_zero() and kind == "sum":
        return ZERO
    if body == ONE and kind == "prod":
        return ONE
    if kind == "sum":
        # linearity: one atom per monomial, factors that do not depend on the binders outside
        out = ZERO
        bs = frozenset(b for b, _ in binders)
        for m, c in body.t.items():
            inn, outside = [], poly(c)
            for a, e in m:
                if syms_of_atom(a) & bs:
                    inn.append((a, e))
                else:
                    outside = outside * P({((a, e),): 1})
            z = next((i for i, (a, e) in enumerate(inn) if a.kind == "ite" and ZERO in a.args[1:]), None)
            if z is not None:
                # a factor ite(c, x, 0) restricts the range to c
                a, e = inn[z]
                g, x = (a.args[0], a.args[1]) if a.args[2] == ZERO else (c_not(a.args[0]), a.args[2])
                rest = P({tuple(inn[:z] + inn[z + 1:]): 1})
                for _ in range(e):
                    rest = rest * x
                out = out + outside * fold("sum", binders, c_and(guard, g), rest)
                continue
            # flatten nested sums
            b2, g2 = list(binders), guard
            rest = P({tuple(inn): 1})
            if len(inn) == 1 and inn[0][1] == 1 and inn[0][0].kind == "sum":
                ib, ig, ibody = inn[0][0].args
                if not any(syms_of(cc) & bs for _, cc in ib):
                    ren = {b: poly(fresh("b")) for b, _ in ib}
                    b2 += [(ren[b].single_atom(), cc) for b, cc in ib]
                    g2 = c_and(g2, subst_cond(ig, ren))
                    rest = subst(ibody, ren)
                    out = out + outside * fold("sum", b2, g2, rest)
                    continue
            out = out + outside * _mk_fold("sum", b2, g2, rest)
        return out
    if kind in ("max", "min"):
        a = body.single_atom()
        bs = frozenset(b for b, _ in binders)
        if a is not None and a.kind == kind:
            ib, ig, ibody = a.args
            if not any(syms_of(cc) & bs for _, cc in ib):
                ren = {b: poly(fresh("b")) for b, _ in ib}
                return fold(kind, binders + [(ren[b].single_atom(), cc) for b, cc in ib],
                            c_and(guard, subst_cond(ig, ren)), subst(ibody, ren))
    if kind == "prod":
        a = body.single_atom()
        bs = frozenset(b for b, _ in binders)
        if a is not None and a.kind == "prod":
            ib, ig, ibody = a.args
            if not any(syms_of(cc) & bs for _, cc in ib):
                ren = {b: poly(fresh("b")) for b, _ in ib}
                return fold(kind, binders + [(ren[b].single_atom(), cc) for b, cc in ib],
                            c_and(guard, subst_cond(ig, ren)), subst(ibody, ren))
    return _mk_fold(kind, binders, guard, body)


def _mk_fold(kind, binders, guard, body):
    """Canonical atom: merge flat binders, order and name binders canonically."""
    binders = list(binders)
    # drop binders that occur nowhere
    used = syms_of(body) | syms_of_cond(guard)
    mult = ONE
    keep = []
    for b, c in binders:
        if b in used:
            keep.append((b, c))
        elif kind == "sum":
            mult = mult * c          # counts are non-negative (checked when loops are built)
        elif kind in ("max", "min"):
            pass                     # non-empty range checked when loops are built
        else:
            keep.append((b, c))
    if kind in ("sum", "max", "min"):
        binders = keep
        if not binders:
            return mult * fold(kind, [], guard, body)
    changed = True
    while changed and len(binders) > 1:
        changed = False
        for x in range(len(binders)):
            for y in range(len(binders)):
                if x == y or changed:
                    continue
                (a, ca), (b, cb) = binders[x], binders[y]
                if a in syms_of(cb) or b in syms_of(ca):
                    continue
                env = {a: poly(a) - 1, b: poly(b) + cb}
                if subst(body, env) == body and subst_cond(guard, env) is guard:
                    env = {a: ZERO}
                    body, guard = subst(body, env), subst_cond(guard, env)
                    binders[y] = (b, ca * cb)
                    del binders[x]
                    changed = True
    lvl = 1 + max([level(body), level_cond(guard)] + [level(c) for _, c in binders])
    order = sorted(range(len(binders)), key=lambda i: str(binders[i][1]))
    groups = []
    for _, g in itertools.groupby(order, key=lambda i: str(binders[i][1])):
        groups.append(list(g))
    best = None
    nperm = 1
    for g in groups:
        for q in range(2, len(g) + 1):
            nperm *= q
    perms = [itertools.permutations(g) for g in groups] if nperm <= 720 else [[tuple(g)] for g in groups]
    for combo in itertools.product(*perms):
        o = [i for g in combo for i in g]
        ren = {binders[i][0]: poly(sym(f"%{lvl}_{n}")) for n, i in enumerate(o)}
        nb = tuple((ren[binders[i][0]].single_atom(), subst(binders[i][1], ren)) for i in o)
        ng, nbody = subst_cond(guard, ren), subst(body, ren)
        key = (str(nbody), str(ng))
        if best is None or key < best[0]:
            best = (key, nb, ng, nbody)
    _, nb, ng, nbody = best
    return mult * poly(mk_atom(kind, (nb, ng, nbody), nbody.isint()))


def Sum(binders, body, guard=TRUE):
    return fold("sum", binders, guard, body)


# --------------------------------------------------------------------------
# Arrays (versions are defined in arrays.py; they provide name/subst/level)
# --------------------------------------------------------------------------


def read(version, idx):
    idx = tuple(poly(i) for i in idx)
    return poly(mk_atom("read", (version, idx), version.isint))


# --------------------------------------------------------------------------
# Facts and the prover
# --------------------------------------------------------------------------


class Facts:
    """Assumptions: polynomials known >= 0, integer ranges, disequalities."""

    def __init__(self, parent=None):
        self.ge = list(parent.ge) if parent else []
        self.other = list(parent.other) if parent else []
        self.ranges = dict(parent.ranges) if parent else {}
        self.parent = parent
        self._key = None

    def copy(self):
        return Facts(self)

    def syms(self):
        r = set(self.ranges)
        for g in self.ge:
            r |= syms_of(g)
        for c in self.other:
            r |= syms_of_cond(c)
        return r

    def without(self, extra):
        """The same facts less the conditions in extra."""
        drop = Facts()
        for c in extra:
            drop._assume(c)
        f = Facts()
        gs, os_ = set(drop.ge), set(drop.other)
        f.ge = [g for g in self.ge if g not in gs]
        f.other = [c for c in self.other if c not in os_]
        f.ranges = dict(self.ranges)
        return f

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.ge), frozenset(self.other),
                         frozenset((k, v) for k, v in self.ranges.items()))
        return self._key

    def assume(self, c):
        """Return new facts extended with condition c."""
        f = self.copy()
        f._assume(c)
        return f

    def _assume(self, c):
        self._key = None
        for x in conjuncts(c):
            if x.op == "ge":
                if x.args[0] not in self.ge:
                    self.ge.append(x.args[0])
            elif x.op == "gt":
                if x.args[0] not in self.ge:
                    self.ge.append(x.args[0])
                self.other.append(x)
            elif x.op == "eq":
                self.ge.append(x.args[0])
                self.ge.append(-x.args[0])
                self.other.append(x)
            else:
                self.other.append(x)
                d = x.args[0] if x.op == "ne" else None
                if d is not None and d.isint():
                    for v in (d, -d):
                        if v in self.ge or _subst_cert(v, self):
                            self.ge.append(v - 1)
                            self._key = None

    def bind(self, s, count):
        """Return new facts with 0 <= s < count."""
        f = self.copy()
        f._bind(s, poly(count))
        return f

    def _bind(self, s, count, lo=ZERO):
        s = s if isinstance(s, Atom) else s.single_atom()
        self._key = None
        self.ranges[s] = (lo, count - 1)
        self.ge.append(poly(s) - lo)
        self.ge.append(count - 1 - poly(s))

    def lower(self, s, lo):
        """Declare symbol s >= lo in place."""
        s = s if isinstance(s, Atom) else s.single_atom()
        self._key = None
        self.ge.append(poly(s) - lo)
        self.ranges.setdefault(s, (poly(lo), None))


_proofs: dict = {}


# --------------------------------------------------------------------------
# Sampling: refute hopeless proof attempts with concrete values of the symbols
# (only ever makes the prover give up earlier, never accept)
# --------------------------------------------------------------------------


class NoValue(Exception):
    pass


def ev_poly(p, env):
    tot = 0
    for m, c in p.t.items():
        v = c
        for a, e in m:
            x = ev_atom(a, env)
            v = v * (x if e == 1 else x ** e)
        tot += v
    return tot


def ev_atom(a, env):
    k, g = a.kind, a.args
    if k == "sym":
        v = env.get(a)
        if v is None:
            h = zlib.crc32(a.key.encode()) % 7
            v = env[a] = h - 1 if a.isint else Fraction(h - 3, 2)
        return v
    if k == "fdiv":
        x, q = ev_poly(g[0], env), ev_poly(g[1], env)
        if q == 0:
            raise NoValue
        return x // q
    if k == "floor":
        return ev_poly(g[0], env).__floor__()
    if k == "inv":
        x = ev_poly(g[0], env)
        if x == 0:
            raise NoValue
        return 1 / Fraction(x)
    if k == "ite":
        return ev_poly(g[1] if ev_cond(g[0], env) else g[2], env)
    if k == "max2":
        return max(ev_poly(x, env) for x in g)
    if k == "min2":
        return min(ev_poly(x, env) for x in g)
    if k == "app" and g[0] == "let":
        return ev_poly(g[1][0], env)
    if k == "read" and hasattr(g[0], "undef"):
        key = (g[0].name, tuple(ev_poly(i, env) for i in g[1]))
        h = zlib.crc32(repr(key).encode())
        return h % 5 if a.isint else Fraction(h % 13 - 6, 2)
    raise NoValue


def ev_cond(c, env):
    if c.op == "true":
        return True
    if c.op == "false":
        return False
    if c.op == "and":
        return all(ev_cond(x, env) for x in c.args)
    if c.op == "or":
        return any(ev_cond(x, env) for x in c.args)
    v = ev_poly(c.args[0], env)
    return {"ge": v >= 0, "gt": v > 0, "eq": v == 0, "ne": v != 0}[c.op]


def sample_ok(env, facts):
    try:
        return all(ev_poly(g, env) >= 0 for g in facts.ge) and all(ev_cond(c, env) for c in facts.other)
    except NoValue:
        return False


#: symbols that stand for a named quantity of the contract: symbol -> its definition
DEFS: dict = {}


def draw(facts, rnd, start=None):
    env = dict(start or {})
    syms = facts.syms()
    todo = sorted((a for a in syms if a not in env), key=lambda a: a.uid)
    if DEFS and any(a in DEFS for a in todo):
        more = set()
        for a in todo:
            if a in DEFS:
                more |= syms_of(DEFS[a])
        todo = sorted(set(todo) | {a for a in more if a not in env}, key=lambda a: a.uid)
    spread = rnd.choice((2, 3, 5))
    for _ in range(6):
        nxt = []
        for a in todo:
            lo, hi = facts.ranges.get(a, (None, None))
            if a in DEFS:
                lo = hi = DEFS[a]
            need = (syms_of(lo) if lo is not None else frozenset()) | (syms_of(hi) if hi is not None else frozenset())
            if any(x not in env and x is not a for x in need):
                nxt.append(a)
                continue
            try:
                l = int(ev_poly(lo, env)) if lo is not None else -2
                h = int(ev_poly(hi, env)) if hi is not None else l + spread
            except NoValue:
                return None
            if h < l:
                return None
            env[a] = rnd.randint(l, h) if a.isint else Fraction(rnd.randint(2 * l, 2 * h), 2)
        todo = nxt
        if not todo:
            break
    return env if not todo and sample_ok(env, facts) else None


_samples: dict = {}


def samples(facts):
    k = facts.key()
    r = _samples.get(k)
    if r is None:
        rnd = random.Random(7)
        r = []
        par = getattr(facts, "parent", None)
        if par is not None and par.key() in _samples:
            ps = _samples[par.key()]
            if ps and facts.syms() <= set(ps[0]):
                r = [e for e in ps if sample_ok(e, facts)]
            else:
                for e in ps:
                    for _ in range(3):
                        e2 = draw(facts, rnd, e)
                        if e2 is not None:
                            r.append(e2)
                            break
        tries = 0
        while len(r) < 12 and tries < (40 if r else 200):
            tries += 1
            e = draw(facts, rnd)
            if e is not None:
                r.append(e)
        _samples[k] = r
    return r


def refuted(c, facts):
    """True when some sample of the facts falsifies c."""
    for e in samples(facts):
        try:
            if not ev_cond(c, dict(e)):
                return True
        except NoValue:
            continue
    return False


def int_atoms_deep(p, acc):
    """Collect fdiv/floor/max2/min2/ite atoms inside p (for definitional facts)."""
    for m in p.t:
        for a, _ in m:
            if a in acc:
                continue
            if a.kind in ("fdiv", "max2", "min2", "floor"):
                acc.add(a)
                for x in a.args:
                    int_atoms_deep(x, acc)
            elif a.kind == "ite":
                acc.add(a)
                int_atoms_deep(a.args[1], acc)
                int_atoms_deep(a.args[2], acc)
    return acc


def positive(q, facts):
    """q > 0 for an integer term, by the ranges of its symbols alone."""
    c = q.const()
    if c is not None:
        return c > 0
    key = (q, facts.key())
    r = _positive.get(key)
    if r is None:
        _positive[key] = False
        ranged = any(a.kind != "sym" for a in q.atoms())
        r = _positive[key] = q - 1 in facts.ge or (nonneg(q - 1, facts) if ranged else _subst_cert(q - 1, facts))
    return r


_positive: dict = {}


def defs_of(atoms_, facts):
    """Definitional inequalities of integer atoms."""
    out = []
    for a in atoms_:
        p = poly(a)
        if a.kind == "fdiv":
            x, q = a.args
            if not positive(q, facts):
                continue
            out.append(x - q * p)
            out.append(q - 1 - x + q * p)
        elif a.kind == "floor":
            out.append(a.args[0] - p)
            out.append(p + 1 - a.args[0])
        elif a.kind == "max2":
            for x in a.args:
                out.append(p - x)
        elif a.kind == "min2":
            for x in a.args:
                out.append(x - p)
        elif a.kind == "sum":
            pass
    return out


_budget = [0]


def _subst_cert(p, facts, depth=0):
    """Lower-bound p by eliminating ranged symbols; True if all coefficients end up >= 0."""
    if depth == 0:
        _budget[0] = 600
    _budget[0] -= 1
    if _budget[0] < 0:
        return False
    if all(c >= 0 for c in p.t.values()) and all(
            all(a.kind == "sym" and _nonneg_sym(a, facts) for a, _ in m) for m in p.t):
        return True
    if depth > 14:
        return False
    if all(c < 0 for c in p.t.values()) and all(
            all(a.kind == "sym" and _nonneg_sym(a, facts) for a, _ in m) for m in p.t):
        return False
    cands = []
    # p is not linear in the symbols of its other atoms
    nested = {s for b in p.atoms() if b.kind != "sym" for s in syms_of_atom(b)}
    for a in p.atoms():
        if a.kind != "sym" or a not in facts.ranges or a in nested:
            continue
        lo, hi = facts.ranges[a]
        # is p linear in a?
        if any(dict(m).get(a, 0) > 1 for m in p.t):
            # only lower shift
            if lo is not None and not lo.is_zero() and lo.const() is not None:
                cands.append((2, a, "shift"))
            continue
        cands.append((0 if hi is not None else 1, a, "lin"))
    # the leading digit first
    deg = {a: max((sum(e for _, e in m) for m in p.t if dict(m).get(a)), default=0) for _, a, _ in cands}
    cands.sort(key=lambda x: (x[0], -deg[x[1]], x[1].uid))
    for _, a, how in cands:
        lo, hi = facts.ranges[a]
        if how == "lin":
            coef = P({_mono_divides(((a, 1),), m): c for m, c in p.t.items()
                      if dict(m).get(a, 0) == 1})
            # coefficient sign
            if _subst_cert(coef, _without(facts, a), depth + 1):
                if lo is not None and a not in syms_of(lo):
                    q = subst(p, {a: lo})
                    if q != p and _subst_cert(q, facts if not lo.is_zero() else _without(facts, a), depth + 1):
                        return True
                if lo is not None and lo.const() is not None and lo.const() > 0:
                    return False
                continue
            if hi is not None and a not in syms_of(hi) and _subst_cert(-coef, _without(facts, a), depth + 1):
                q = subst(p, {a: hi})
                return _subst_cert(q, _without(facts, a), depth + 1)
    # shift all dims to their lower bound
    env = {}
    f2 = None
    for a in p.atoms():
        if a.kind == "sym" and a in facts.ranges:
            lo, hi = facts.ranges[a]
            if hi is None and lo is not None and lo.const() is not None and lo.const() > 0:
                env[a] = poly(a) + lo
    if env:
        f2 = facts.copy()
        # other ranges may mention shifted symbols: drop those
        for k in list(f2.ranges):
            lo, hi = f2.ranges[k]
            if lo is not None and syms_of(lo) & set(env):
                lo = subst(lo, env)
            if hi is not None and syms_of(hi) & set(env):
                hi = subst(hi, env)
            f2.ranges[k] = (ZERO, None) if k in env else (lo, hi)
        return _subst_cert(subst(p, env), f2, depth + 1)
    return False


def _without(facts, a):
    return facts


def _nonneg_sym(a, facts):
    r = facts.ranges.get(a)
    return r is not None and r[0] is not None and r[0].const() is not None and r[0].const() >= 0


def nonneg(p, facts):
    """Prove p >= 0 from facts. True means a checked certificate exists."""
    import time
    p = poly(p)
    c = p.const()
    if c is not None:
        return c >= 0
    key = (p, facts.key())
    if key in _proofs:
        return _proofs[key]
    t0 = time.time()
    ok = False
    a0 = p.single_atom()
    if a0 is not None and a0.kind == "floor" and len(p.t) == 1 and real_nonneg(a0.args[0], facts):
        ok = True
        STATS.subst += 1
    elif p in facts.ge:
        ok = True
        STATS.subst += 1
    elif refuted(_mk("ge", (p,)), facts):
        STATS.refuted += 1
    elif _subst_cert(p, facts):
        ok = True
        STATS.subst += 1
    else:
        at = {a for a in p.atoms()}
        ok = _special(p, facts)
        if ok:
            STATS.subst += 1
        elif _handelman(p, facts):
            ok = True
            STATS.handelman += 1
        elif _z3_prove(p, facts):
            ok = True
            STATS.z3 += 1
        else:
            STATS.failed += 1
    STATS.solver_time += time.time() - t0
    _proofs[key] = ok
    return ok


def restrict(facts, syms):
    """The facts over the given symbols and those of the bounds of their ranges."""
    syms = set(syms)
    while True:
        more = set(syms)
        for s in syms:
            for b in facts.ranges.get(s, ()):
                if b is not None:
                    more |= syms_of(b)
        if more == syms:
            break
        syms = more
    f = Facts()
    f.ge = [g for g in facts.ge if syms_of(g) <= syms]
    f.other = [c for c in facts.other if syms_of_cond(c) <= syms]
    f.ranges = {s: r for s, r in facts.ranges.items() if s in syms}
    return f


def poly_div_exact(p, q):
    """p / q when the division is exact, else None."""
    a, b = poly_divmod_mono(p, q)
    return a if b.is_zero() and not p.is_zero() else None


_digits: dict = {}


def digit_range(a, facts):
    """Proved bounds (facts over a stand-in symbol) of an integer term: 0 <= a, a <= D - 1 for sizes D."""
    p = poly(a)
    small = restrict(facts, syms_of(p))
    key = (p, small.key())
    r = _digits.get(key)
    if r is None:
        _digits[key] = (False, [])
        lo = nonneg(p, small)
        his = []
        if lo:
            for d in sorted(small.syms(), key=lambda x: x.uid):
                if d.isint and (d not in small.ranges or small.ranges[d][1] is None) and \
                        nonneg(poly(d) - 1 - p, small):
                    his.append(poly(d) - 1)
        r = _digits[key] = (lo, his)
    return r


def _rounded(fs, cur):
    """The combinations of rounded atoms that have the same cofactor in cur: (combination, cofactor)."""
    groups = {}
    for a in sorted(fs, key=lambda x: x.uid):
        if a not in cur.atoms() or any(dict(m).get(a, 0) > 1 for m in cur.t):
            continue
        co = P({_mono_divides(((a, 1),), m): c for m, c in cur.t.items() if dict(m).get(a)})
        if any(x in fs for x in co.atoms()):
            continue
        k = min(co.t.items(), key=lambda x: str(P({x[0]: 1})))[1]
        groups.setdefault(co * (Fraction(1) / k), []).append((k, a))
    out = []
    for co, ks in groups.items():
        k0 = Fraction(abs(ks[0][0]))
        comb = sum((poly(a) * (k / k0) for k, a in ks), ZERO)
        if all((k / k0).denominator == 1 for k, _ in ks):
            out.append((comb, co * k0))
            out.append((-comb, -co * k0))
    return out


def _abstract(p, facts):
    """Prove p >= 0 with each integer conditional replaced by a symbol that has its proved range, and each
    x - q*floor(x/q) by a symbol in [0, q)."""
    cs = [a for a in p.atoms() if a.kind in ("ite", "max2", "min2", "floor") and a.isint]
    fs = [a for a in p.atoms() if a.kind == "fdiv"]
    if len(cs) + len(fs) < 2:
        return False
    f = facts.copy()
    cur = p
    done = 0
    for a in sorted(cs, key=lambda x: x.uid):
        lo, his = digit_range(a, facts)
        if lo and his:
            s = fresh("dg")
            f._bind(s, his[0] + 1)
            for h in his[1:]:
                f.ge.append(h - poly(s))
            if any(a in g.atoms() for g in f.ge):
                f.ge += [subst(g, {a: poly(s)}) for g in f.ge if a in g.atoms()]
            cur = subst(cur, {a: poly(s)})
            done += 1
    if len(fs) > (1 if not cs else 0):
        for comb, co in _rounded(fs, cur):
            if not any(a in cur.atoms() for a in comb.atoms()):
                continue
            lo, his = digit_range(comb, facts)
            if lo and his:
                s = fresh("dg")
                f._bind(s, his[0] + 1)
                for h in his[1:]:
                    f.ge.append(h - poly(s))
                # one atom of the combination in terms of the others and of its value
                (m, k), = [(m, k) for m, k in comb.t.items()][:1]
                a = m[0][0]
                env = {a: (poly(s) - (comb - poly(a) * k)) * (Fraction(1) / k)}
                f.ge += [subst(g, env) for g in f.ge if a in g.atoms()]
                cur = subst(cur, env)
                done += 1
    for a in sorted(fs, key=lambda x: x.uid):
        if a not in cur.atoms() or any(dict(m).get(a, 0) > 1 for m in cur.t):
            continue
        x, q = a.args
        co = P({_mono_divides(((a, 1),), m): c for m, c in cur.t.items() if dict(m).get(a)})
        rest = P({m: c for m, c in cur.t.items() if not dict(m).get(a)})
        k = poly_div_exact(co, q)
        if k is None:
            lo, his = digit_range(a, facts)
            if lo and his:
                s = fresh("dg")
                f._bind(s, his[0] + 1)
                for h in his[1:]:
                    f.ge.append(h - poly(s))
                f.ge += [subst(g, {a: poly(s)}) for g in f.ge if a in g.atoms()]
                cur = subst(cur, {a: poly(s)})
                done += 1
            continue
        if not nonneg(q - 1, facts):
            continue
        s = fresh("dg")
        f._bind(s, q)
        cur = k * (x - poly(s)) + rest
        done += 1
    if not done:
        return False
    f._key = None
    keep = syms_of(cur)
    g = restrict(f, keep)
    return nonneg(cur, g)


class _Rest:
    """Stand-ins for remainders: x - q*floor(x/q) becomes a symbol in [0, q)."""

    def __init__(self, facts):
        self.facts, self.table = facts, {}

    def symbol(self, f):
        s = self.table.get(f)
        if s is None:
            if not nonneg(f.args[1] - 1, self.facts):
                return None
            s = self.table[f] = fresh("rm")
        return s

    def term(self, p):
        cur = ZERO
        for m, c in p.t.items():
            t = poly(c)
            for a, e in m:
                v = self.atom(a)
                for _ in range(e):
                    t = t * v
            cur = cur + t
        for a in sorted(cur.atoms(), key=lambda x: x.uid):
            if a.kind == "fdiv":
                qs = [a.args[1]]
            elif a.kind == "ite":
                qs = sorted({f.args[1] for b in a.args[1:] for f in b.atoms() if f.kind == "fdiv"}, key=str)
            else:
                continue
            if any(dict(m).get(a, 0) > 1 for m in cur.t):
                continue
            co = _cofactor(cur, a)
            rest = P({m: c for m, c in cur.t.items() if not dict(m).get(a)})
            for q in qs:
                k = poly_div_exact(co, q)
                if k is None:
                    continue
                if a.kind == "ite":
                    cur = k * ite(a.args[0], self.term(q * a.args[1]), self.term(q * a.args[2])) + rest
                else:
                    s = self.symbol(a)
                    if s is not None:
                        cur = k * (a.args[0] - poly(s)) + rest
                break
        return cur

    def atom(self, a):
        k, g = a.kind, a.args
        if k == "ite":
            return ite(self.cond(g[0]), self.term(g[1]), self.term(g[2]))
        if k in ("max2", "min2"):
            return mm2(k, [self.term(x) for x in g])
        return poly(a)

    def cond(self, c):
        if c.op in ("true", "false"):
            return c
        if c.op in ("and", "or"):
            return (c_and if c.op == "and" else c_or)(*[self.cond(x) for x in c.args])
        return {"ge": c_ge, "gt": c_gt, "eq": c_eq, "ne": c_ne}[c.op](self.term(c.args[0]))

    def finish(self):
        f = self.facts.copy()
        for a, s in self.table.items():
            f._bind(s, a.args[1])
        items = list(self.table.items())
        for i, (a, s) in enumerate(items):
            for b, t in items[i + 1:]:
                (x, q), (y, r) = a.args, b.args
                if q != r:
                    continue
                n, z = poly_divmod_mono(x + y, q)
                if z.is_zero():
                    # the two remainders add up to a multiple of q
                    f = f.assume(c_or(c_eq(poly(s) + poly(t)), c_eq(poly(s) + poly(t) - q)))
        return f


def _remainders(p, facts):
    if not any(a.kind == "fdiv" for a in int_atoms_deep(p, set())):
        return False
    r = _Rest(facts)
    cur = r.term(p)
    if not r.table:
        return False
    f = r.finish()
    return nonneg(cur, restrict(f, syms_of(cur)))


def _special(p, facts):
    """max2/min2/ite elimination by cases."""
    if any(a.kind in ("ite", "max2", "min2") for a in p.atoms()) and _remainders(p, facts):
        return True
    if _abstract(p, facts):
        return True
    for a in p.atoms():
        if a.kind in ("max2", "min2") and all(dict(m).get(a, 0) <= 1 for m in p.t):
            oks = []
            for x in a.args:
                f = facts
                for y in a.args:
                    if y is not x:
                        f = f.assume(c_ge(x - y if a.kind == "max2" else y - x))
                oks.append(nonneg(subst(p, {a: x}), f))
            return all(oks)
        if a.kind == "ite":
            return (nonneg(subst(p, {a: a.args[1]}), facts.assume(a.args[0]))
                    and nonneg(subst(p, {a: a.args[2]}), facts.assume(c_not(a.args[0]))))
    return False


def relevant(p, facts, rounds=3):
    """Facts connected to p through shared atoms, with definitional facts."""
    pool = list(dict.fromkeys(facts.ge))
    acc = int_atoms_deep(p, set())
    for g in pool:
        int_atoms_deep(g, acc)
    pool += defs_of(acc, facts)
    pool = [g for g in dict.fromkeys(pool) if g.const() is None]
    cur = set(p.atoms())
    chosen = []
    for _ in range(rounds):
        new = set()
        for g in pool:
            if g not in chosen and g.atoms() & cur:
                chosen.append(g)
                new |= g.atoms()
        cur |= new
    return chosen


def _handelman(p, facts, maxprod=260):
    """A nonnegative combination of products of facts equal to p (exact LP, checked)."""
    gens = relevant(p, facts)
    if len(gens) > 60:
        gens = gens[:60]
    if _lp(p, [ONE] + list(gens)):
        return True
    pat = set(p.atoms())
    deg = max(1, p.degree())
    prods = [ONE] + list(gens)
    # products of pairs which are relevant to p's monomials
    close = [g for g in gens if g.atoms() & pat]
    two = []
    for i, g in enumerate(close):
        for h in close[i:]:
            two.append(g * h)
    two.sort(key=lambda q: (q.degree(), len(q.t)))
    prods += two[:maxprod]
    if deg >= 3:
        close = [g for g in gens if g.atoms() & pat and g.degree() <= 2][:9]
        three = []
        for i, g in enumerate(close):
            for j, h in enumerate(close[i:], i):
                for k in close[j:]:
                    three.append(g * h * k)
        three.sort(key=lambda q: (q.degree(), len(q.t)))
        prods += three[:maxprod]
    return _lp(p, list(dict.fromkeys(prods)))


def _prune(p, prods):
    """Drop products with a monomial that nothing can cancel."""
    while True:
        pos, neg = set(), set()
        for q in prods:
            for m, k in q.t.items():
                (pos if k > 0 else neg).add(m)
        keep = []
        for q in prods:
            for m, k in q.t.items():
                need = p.t.get(m, 0)
                if k > 0 and m not in neg and need <= 0:
                    break
                if k < 0 and m not in pos and need >= 0:
                    break
            else:
                keep.append(q)
        if len(keep) == len(prods):
            return keep
        prods = keep


def _lp(p, prods):
    prods = _prune(p, prods)
    if not prods:
        return False
    rows = {m: [] for m in p.t}
    for i, q in enumerate(prods):
        for m, k in q.t.items():
            rows.setdefault(m, []).append((i, k))
    out = [f"(declare-const c{i} Real)(assert (>= c{i} 0))" for i in range(len(prods))]
    for m, r in rows.items():
        if not r:
            return False
        ts = " ".join(f"c{i}" if k == 1 else f"(* {_num(k)} c{i})" for i, k in r)
        out.append(f"(assert (= (+ {ts} 0) {_num(p.t.get(m, 0))}))")
    s = z3.SolverFor("QF_LRA")
    s.set("rlimit", RLIMIT)
    s.from_string("\n".join(out))
    if s.check() != z3.sat:
        return False
    mdl = s.model()
    # exact check of the certificate
    tot = ZERO
    for v in mdl.decls():
        x = mdl[v]
        fr = Fraction(x.numerator_as_long(), x.denominator_as_long())
        if fr < 0:
            return False
        if fr:
            tot = tot + prods[int(v.name()[1:])] * q_(fr)
    return tot == p


def _num(k):
    k = Fraction(k)
    s = str(abs(k.numerator)) if k.denominator == 1 else f"(/ {abs(k.numerator)} {k.denominator})"
    return s if k >= 0 else f"(- {s})"


def _to_z3(p, env):
    out = []
    for m, c in p.t.items():
        c = Fraction(c)
        term = z3.IntVal(c.numerator) if c.denominator == 1 else z3.RealVal(str(c))
        for a, e in m:
            v = env.get(a)
            if v is None:
                v = env[a] = (z3.Int if a.isint else z3.Real)(f"v{len(env)}")
            for _ in range(e):
                term = term * v
        out.append(term)
    return z3.Sum(out) if out else z3.IntVal(0)


def cond_z3(c, env):
    if c is TRUE:
        return z3.BoolVal(True)
    if c is FALSE:
        return z3.BoolVal(False)
    if c.op == "and":
        return z3.And([cond_z3(x, env) for x in c.args])
    if c.op == "or":
        return z3.Or([cond_z3(x, env) for x in c.args])
    e = _to_z3(c.args[0], env)
    return {"ge": e >= 0, "gt": e > 0, "eq": e == 0, "ne": e != 0}[c.op]


def cond_polys(c):
    if c.op in ("true", "false"):
        return []
    r = []
    for x in c.args:
        r += [x] if isinstance(x, P) else cond_polys(x)
    return r


def _z3_query(extra, facts, rel=None):
    """Check satisfiability of facts + extra conditions."""
    env = {}
    s = z3.Solver()
    s.set("rlimit", RLIMIT)
    acc = set()
    ps = list(facts.ge) if rel is None else list(rel)
    for c in extra:
        for q in cond_polys(c):
            int_atoms_deep(q, acc)
    for q in ps:
        int_atoms_deep(q, acc)
    for c in facts.other:
        for q in cond_polys(c):
            int_atoms_deep(q, acc)
    for a in acc:
        if a.kind in ("max2", "min2"):
            v = _to_z3(poly(a), env)
            s.add(z3.Or([v == _to_z3(x, env) for x in a.args]))
        if a.kind == "ite":
            v = _to_z3(poly(a), env)
            s.add(z3.If(cond_z3(a.args[0], env), v == _to_z3(a.args[1], env),
                        v == _to_z3(a.args[2], env)))
    for q in ps + defs_of(acc, facts):
        s.add(_to_z3(q, env) >= 0)
    for c in facts.other:
        s.add(cond_z3(c, env))
    for c in extra:
        s.add(cond_z3(c, env))
    return s.check(), s, env


def _z3_prove(p, facts):
    r, _, _ = _z3_query([c_not(c_ge(p)) if p.isint() else _mk("gt", (-p,))], facts)
    return r == z3.unsat


def feasible(c, facts):
    """False only if facts and c are contradictory (proved)."""
    if refuted(c_not(c), facts):
        return True
    r, _, _ = _z3_query([c], facts)
    return r != z3.unsat


def proves(c, facts):
    """Prove a condition from facts."""
    if c is TRUE:
        return True
    if c is FALSE:
        return inconsistent(facts)
    if c in facts.other:
        return True
    if refuted(c, facts):
        return False
    if c.op == "and":
        return all(proves(x, facts) for x in c.args)
    if c.op == "ge":
        return nonneg(c.args[0], facts)
    if c.op == "eq":
        if normal(c.args[0], facts).is_zero():
            return True
        return nonneg(c.args[0], facts) and nonneg(-c.args[0], facts)
    if c.op == "ne":
        if c.args[0].isint() and (nonneg(c.args[0] - 1, facts) or nonneg(-c.args[0] - 1, facts)):
            return True
    if c.op == "or":
        if any(proves(x, facts) for x in c.args):
            return True
    r, _, _ = _z3_query([c_not(c)], facts)
    return r == z3.unsat


_incons: dict = {}


def inconsistent(facts):
    k = facts.key()
    if k not in _incons and samples(facts):
        _incons[k] = False
    if k not in _incons:
        r, _, _ = _z3_query([], facts)
        _incons[k] = r == z3.unsat
    return _incons[k]


# --------------------------------------------------------------------------
# Normalisation under facts
# --------------------------------------------------------------------------

_normal_cache: dict = {}


def clear_normal():
    _normal_cache.clear()


def normal(p, facts):
    """Normalise a term: simplify divisions, conditionals, folds and reads."""
    key = (p, facts.key())
    r = _normal_cache.get(key)
    if r is not None:
        return r
    cur = p
    for _ in range(12):
        nxt = _normal1(cur, facts)
        if nxt == cur:
            break
        cur = nxt
    cur = cancel(cur)
    _normal_cache[key] = cur
    return cur


def _normal1(p, facts):
    out = ZERO
    for m, c in p.t.items():
        cur = P({(): c})
        for a, e in m:
            v = normal_atom(a, facts)
            for _ in range(e):
                cur = cur * v
        out = out + cur
    return out


def _digit_div(num, den, facts):
    """floor((M*a + r) / (M*e)) = floor(a / e) when 0 <= r < M."""
    if len(den.t) != 1:
        return None
    (mono, c), = den.t.items()
    cands = []

    def subs(i, cur):
        if i == len(mono):
            if cur:
                cands.append(P({tuple(cur): Fraction(1)}))
            return
        a, e = mono[i]
        for k in range(e + 1):
            subs(i + 1, cur + [(a, k)] if k else cur)
    subs(0, [])
    for M in sorted(cands, key=lambda m: (-m.degree(), str(m))):
        if M == den:
            continue
        a, r = poly_divmod_mono(num, M)
        if a.is_zero() or r.is_zero():
            continue
        if nonneg(r, facts) and nonneg(M - 1 - r, facts):
            return fdiv(a, poly_exact_div(den, M))
    return None


def simp_div(x, q, facts):
    """Simplify floor(x / q) when a digit decomposition is provable."""
    d = fdiv(x, q)
    a = d.single_atom()
    # fdiv already pulled multiples of q out: look at the residual atom
    out = d
    for at in list(d.atoms()):
        if at.kind == "fdiv":
            num, den = at.args
            if nonneg(num, facts) and nonneg(den - 1 - num, facts):
                out = subst(out, {at: ZERO})
            else:
                r = _digit_div(num, den, facts)
                if r is not None:
                    out = subst(out, {at: r})
                    continue
                # try moving one multiple: -q <= num < 0
                for k in (-1, 1):
                    if nonneg(num - k * den, facts) and nonneg((k + 1) * den - 1 - num, facts):
                        out = subst(out, {at: poly(k)})
                        break
    return out


def normal_atom(a, facts):
    k, g = a.kind, a.args
    if k == "sym":
        return poly(a)
    if k == "fdiv":
        return simp_div(normal(g[0], facts), normal(g[1], facts), facts)
    if k == "floor":
        return floor_(normal(g[0], facts))
    if k == "inv":
        return inv(normal(g[0], facts))
    if k == "app":
        return app(g[0], *[normal(x, facts) for x in g[1]], isint=a.isint)
    if k in ("max2", "min2"):
        xs = list(dict.fromkeys(normal(x, facts) for x in g))
        drop = set()
        for i, x in enumerate(xs):
            for j, y in enumerate(xs):
                if i != j and i not in drop and j not in drop:
                    if dominated(x, y, k, facts):
                        drop.add(i)
        return mm2(k, [x for i, x in enumerate(xs) if i not in drop])
    if k == "ite":
        c = normal_cond(g[0], facts)
        if c is TRUE:
            return normal(g[1], facts)
        if c is FALSE:
            return normal(g[2], facts)
        x, y = normal(g[1], facts.assume(c)), normal(g[2], facts.assume(c_not(c)))
        for k, u, o in ((c, x, y), (c_not(c), y, x)):
            m = u.single_atom()
            if m is not None and m.kind == "min2" and k.op in ("ge", "gt"):
                # v >= o ? min(v, w) : o = max(min(v, w), o) when w >= o
                for v in m.args:
                    if _prim(v - o) == k.args[0] and all(nonneg(w - o, facts) for w in m.args if w is not v):
                        return rmax(u, o)
        return ite(c, x, y)
    if k == "read":
        ver, idx = g
        idx = tuple(normal(i, facts) for i in idx)
        return ver.resolve(idx, facts)
    if k in FOLDS:
        return normal_fold(a, facts)
    raise Unsupported(k)


def has_inv(p):
    return any(a.kind == "inv" or a.kind in ("min2", "max2") and any(has_inv(x) for x in a.args)
               or a.kind == "ite" and any(has_inv(x) for x in a.args[1:]) for a in p.atoms())


def cleared(p, facts):
    """p multiplied by its denominators, when they are provably positive, else None."""
    for _ in range(4):
        invs = sorted({a for m in p.t for a, _ in m if a.kind == "inv"}, key=str)
        if not invs:
            return p
        q = invs[0].args[0]
        if not (nonneg(q - 1, facts) if q.isint() else c_gt(q) in facts.other):
            if not q.isint() or not nonneg(-q - 1, facts):
                return None
            q = -q
        p = cancel(p * q)
    return None


def real_nonneg(p, facts):
    """p >= 0 for a real term with denominators."""
    a = p.single_atom()
    if a is not None and a.kind == "min2":
        return all(real_nonneg(x, facts) for x in a.args)
    if a is not None and a.kind == "max2":
        return any(real_nonneg(x, facts) for x in a.args)
    q = cleared(p, facts)
    if q is None:
        return False
    L = denominator(q)
    return nonneg(q * L, facts)


def dominated(x, y, kind, facts):
    """x can be dropped from max2/min2 because y covers it."""
    d = (y - x) if kind == "max2" else (x - y)
    if d.isint():
        if nonneg(d, facts):
            return True
    elif has_inv(d) and real_nonneg(d, facts):
        return True
    xa, ya = x.single_atom(), y.single_atom()
    other = "min2" if kind == "max2" else "max2"
    if xa is not None and xa.kind == other:
        # min(.., z, ..) <= z <= y
        for z in xa.args:
            e = (y - z) if kind == "max2" else (z - y)
            if e.is_zero() or e.isint() and nonneg(e, facts):
                return True
    if xa is not None and xa.kind == "app":
        if xa.args[0] == ("const_-inf" if kind == "max2" else "const_inf"):
            return True
    if ya is not None and ya.kind == kind[:3]:
        # x is one of the folded elements
        binders, guard, body = ya.args
        sol = match_body(body, [b for b, _ in binders], x)
        if sol is not None:
            ok = all(nonneg(sol[b], facts) and nonneg(c - 1 - sol[b], facts) for b, c in
                     [(b, subst(c, sol)) for b, c in binders])
            if ok and proves(subst_cond(guard, sol), facts):
                return True
    return False


def match_body(body, binders, target):
    """Find binder values such that body == target (body a single read)."""
    ba, ta = body.single_atom(), target.single_atom()
    if ba is None or ta is None or ba.kind != "read" or ta.kind != "read":
        return None
    if ba.args[0] is not ta.args[0]:
        return None
    try:
        sol = {}
        for bi, ti in zip(ba.args[1], ta.args[1]):
            cands = solve_candidates(bi, binders, ti)
            if cands is None:
                return None
            sol.update(cands)
        for b in binders:
            sol.setdefault(b, ZERO)
        if subst(body, sol) == target:
            return sol
    except Unsupported:
        return None
    return None


def solve_candidates(template, binders, target):
    """Guess integer binder values b with template(b) == target (checked by the caller)."""
    bs = [b for b in binders if b in syms_of(template)]
    z = {b: ZERO for b in bs}
    base = subst(template, z)
    if base == target:
        return z
    # try to solve each binder by exact division of the difference
    diff = target - base
    coefs = {}
    for b in bs:
        coefs[b] = P({_mono_divides(((b, 1),), m): c for m, c in template.t.items()
                      if dict(m).get(b, 0) == 1})
    sol = dict(z)
    rest = diff
    for b in sorted(bs, key=lambda b: -coefs[b].degree()):
        a, r = poly_divmod_mono(rest, coefs[b]) if len(coefs[b].t) == 1 else (ZERO, rest)
        sol[b] = a
        rest = r
    return sol


def normal_cond(c, facts):
    if c in (TRUE, FALSE):
        return c
    if c.op == "and":
        out = []
        f = facts
        for x in sorted(c.args, key=str):
            y = normal_cond(x, f)
            if y is FALSE:
                return FALSE
            if y is TRUE:
                continue
            out.append(y)
        # second pass: drop conjuncts implied by the others
        keep = list(out)
        for x in sorted(out, key=lambda s: -len(str(s))):
            f = facts
            for y in keep:
                if y is not x:
                    f = f.assume(y)
            if x in keep and len(keep) > 1 and x.op == "ge" and nonneg(x.args[0], f):
                keep.remove(x)
        return c_and(*keep)
    if c.op == "or":
        return c_or(*[normal_cond(x, facts) for x in sorted(c.args, key=str)])
    p = normal(c.args[0], facts)
    c2 = {"ge": c_ge, "gt": c_gt, "eq": c_eq, "ne": c_ne}[c.op](p)
    if c2 in (TRUE, FALSE):
        return c2
    if c2 in facts.other:
        return TRUE
    if c_not(c2) in facts.other:
        return FALSE
    if p.isint():
        if c2.op == "ge":
            if nonneg(p, facts):
                return TRUE
            if nonneg(-p - 1, facts):
                return FALSE
        elif c2.op == "eq":
            if nonneg(p - 1, facts) or nonneg(-p - 1, facts):
                return FALSE
        elif c2.op == "ne":
            if nonneg(p - 1, facts) or nonneg(-p - 1, facts):
                return TRUE
    elif c2.op in ("ge", "gt") and has_inv(p):
        q = cleared(p, facts)
        if q is not None:
            q = q * denominator(q)
            if q.isint():
                k = (c_ge if c2.op == "ge" else c_gt)(q)
                if k in (TRUE, FALSE):
                    return k
                if nonneg(k.args[0], facts):
                    return TRUE
                if nonneg(-k.args[0] - 1, facts):
                    return FALSE
            elif c2.op == "ge" and nonneg(q, facts):
                return TRUE
            elif c2.op == "gt" and nonneg(-q, facts):
                return FALSE
    return c2


def normal_fold(a, facts):
    kind = a.kind
    binders, guard, body = a.args
    ren = {b: poly(fresh("n")) for b, _ in binders}
    binders = [(ren[b].single_atom(), normal(subst(c, ren), facts)) for b, c in binders]
    guard, body = subst_cond(guard, ren), subst(body, ren)
    f = facts
    for b, c in binders:
        f = f.bind(b, c)
    guard = normal_cond(guard, f)
    if guard is FALSE:
        return fold(kind, binders, FALSE, body)
    body = normal(body, f.assume(guard))
    if kind == "sum":
        n = count_of(binders, guard, body)
        if n is not None:
            return normal(n, facts)
    # split flat binders that are taken apart by division
    binders, guard, body, again = split_binders(binders, guard, body, facts)
    res = fold(kind, binders, guard, body)
    return res


def count_of(binders, guard, body):
    """Closed form of a sum whose body does not depend on the binders and whose guard is a box."""
    bs = {b for b, _ in binders}
    if syms_of(body) & bs or any(syms_of(c) & bs for _, c in binders):
        return None
    los, his = {b: [ZERO] for b in bs}, {b: [c] for b, c in binders}
    for c in conjuncts(guard):
        if c is TRUE:
            continue
        if c.op != "ge":
            return None
        p = c.args[0]
        on = syms_of(p) & bs
        if len(on) != 1:
            return None
        b, = on
        rest = p - poly(b) * p.t.get(((b, 1),), 0)
        k = p.t.get(((b, 1),), 0)
        if b in syms_of(rest) or k not in (1, -1):
            return None
        if k == 1:
            los[b].append(-rest)
        else:
            his[b].append(rest + 1)
    r = body
    for b in bs:
        r = r * rmax(rmin(*his[b]) - rmax(*los[b]), ZERO)
    return r


def same_fold(fx, fy, facts):
    """Is fold fy the fold fx under a change of binders b_y = b_x + shift?"""
    (bx, gx, ox), (by, gy, oy) = fx.args, fy.args
    if fx.kind != fy.kind or len(bx) != len(by):
        return False
    ren = {b: poly(fresh("y")) for b, _ in by}
    by = [(ren[b].single_atom(), subst(c, ren)) for b, c in by]
    gy, oy = subst_cond(gy, ren), subst(oy, ren)
    ren = {b: poly(fresh("x")) for b, _ in bx}
    bx = [(ren[b].single_atom(), subst(c, ren)) for b, c in bx]
    gx, ox = subst_cond(gx, ren), subst(ox, ren)
    sx, sy = {b for b, _ in bx}, {b for b, _ in by}
    rx, ry = _first_read(ox, sx), _first_read(oy, sy)
    if rx is None or ry is None:
        return False
    sol = match_body(poly(ry), [b for b, _ in by], poly(rx))
    if sol is None:
        return False
    back = {}
    for b, _ in by:
        p = sol.get(b)
        on = syms_of(p) & sx if p is not None else ()
        if len(on) != 1:
            return False
        x, = on
        shift = p - poly(x)
        if syms_of(shift) & sx or x in back:
            return False
        back[x] = poly(b) - shift
    fxs, fys = facts, facts
    for b, c in bx:
        fxs = fxs.bind(b, c)
    for b, c in by:
        fys = fys.bind(b, c)
    fxs, fys = fxs.assume(gx), fys.assume(gy)
    if normal(subst(oy, sol) - ox, fxs) != ZERO:
        return False
    goal = c_and(subst_cond(gy, sol), *[c_and(c_ge(sol[b]), c_gt(subst(c, sol) - sol[b])) for b, c in by])
    if not proves(normal_cond(goal, fxs), fxs):
        return False
    goal = c_and(subst_cond(gx, back), *[c_and(c_ge(back[b]), c_gt(subst(c, back) - back[b])) for b, c in bx])
    return proves(normal_cond(goal, fys), fys)


def _first_read(p, bs):
    for m in p.t:
        for a, _ in m:
            r = _first_read_atom(a, bs)
            if r is not None:
                return r
    return None


def _first_read_atom(a, bs):
    if a.kind == "read" and syms_of_atom(a) & bs:
        return a
    for x in a.args if a.kind != "app" else a.args[1]:
        if isinstance(x, P):
            r = _first_read(x, bs)
            if r is not None:
                return r
    return None


def folds_in(p, acc):
    for m in p.t:
        for a, _ in m:
            if a.kind in FOLDS:
                acc[a] = None
            elif a.kind == "app":
                for x in a.args[1]:
                    folds_in(x, acc)
            elif a.kind in ("inv", "max2", "min2", "ite", "floor"):
                for x in a.args:
                    if isinstance(x, P):
                        folds_in(x, acc)
    return acc


def match_folds(x, y, facts):
    """Replace in y the folds that are re-indexed folds of x."""
    inx, iny = folds_in(x, {}), folds_in(y, {})
    left = [a for a in inx if a not in iny]
    env = {}
    for b in iny:
        if b in inx:
            continue
        for a in left:
            if same_fold(a, b, facts):
                env[b] = poly(a)
                break
    return rewrite(y, env.get) if env else y


def rewrite(p, fn):
    """Replace atoms outside folds, bottom-up, by what fn gives for them."""
    out = ZERO
    for m, c in p.t.items():
        cur = poly(c)
        for a, e in m:
            v = _rewrite_atom(a, fn)
            for _ in range(e):
                cur = cur * v
        out = out + cur
    return out


def _rewrite_atom(a, fn):
    v = fn(a)
    if v is not None:
        return v
    k, g = a.kind, a.args
    if k == "app":
        return app(g[0], *[rewrite(x, fn) for x in g[1]], isint=a.isint)
    if k == "inv":
        return inv(rewrite(g[0], fn))
    if k == "ite":
        return ite(g[0], rewrite(g[1], fn), rewrite(g[2], fn))
    return poly(a)


def plain_max(a):
    """Integer max2 / min2 of two terms in the form max2(x, 0)."""
    if a.kind not in ("max2", "min2") or len(a.args) != 2 or not a.isint:
        return None
    x, y = a.args
    if a.kind == "min2":
        # min(x, y) = y - max(y - x, 0)
        return y - pos_part(y - x)
    return y + pos_part(x - y)


def pos_part(x):
    if str(x) > str(-x):
        return rmax(-x, ZERO) + x
    return rmax(x, ZERO)


def _fdivs_on(p, b, acc):
    for m in p.t:
        for a, _ in m:
            _fdivs_on_atom(a, b, acc)


def _fdivs_on_atom(a, b, acc):
    if b not in syms_of_atom(a):
        return
    k, g = a.kind, a.args
    if k == "fdiv":
        x, q = g
        if b not in syms_of(q):
            acc.add((x, q))
        _fdivs_on(x, b, acc)
    elif k == "read":
        for i in g[1]:
            _fdivs_on(i, b, acc)
        g[0].each_poly(lambda p: _fdivs_on(p, b, acc))
    elif k in FOLDS:
        _fdivs_on(g[2], b, acc)
        for p in cond_polys(g[1]):
            _fdivs_on(p, b, acc)
    elif k == "ite":
        for p in cond_polys(g[0]):
            _fdivs_on(p, b, acc)
        _fdivs_on(g[1], b, acc)
        _fdivs_on(g[2], b, acc)
    elif k == "app":
        for x in g[1]:
            _fdivs_on(x, b, acc)
    elif k != "sym":
        for x in g:
            _fdivs_on(x, b, acc)


def split_binders(binders, guard, body, facts):
    """Replace a binder b < D*Q whose body uses b div D by two digits."""
    for i, (b, c) in enumerate(binders):
        acc = set()
        _fdivs_on(body, b, acc)
        for p in cond_polys(guard):
            _fdivs_on(p, b, acc)
        divs = sorted({q for x, q in acc if x == poly(b)}, key=lambda q: (-q.degree(), str(q)))
        for q in divs:
            quo = poly_exact_div(c, q)
            if quo is None or not quo.isint():
                continue
            lo, hi = poly(fresh("d")), poly(fresh("d"))
            env = {b: lo + q * hi}
            nb = binders[:i] + [(lo.single_atom(), q), (hi.single_atom(), quo)] + binders[i + 1:]
            f = facts
            for bb, cc in nb:
                f = f.bind(bb, cc)
            g2 = normal_cond(subst_cond(guard, env), f)
            b2 = normal(subst(body, env), f.assume(g2))
            return split_binders(nb, g2, b2, facts)
    return binders, guard, body, False


def pinned(facts):
    """Symbols that the facts determine: {symbol: term}."""
    env = {}
    ges = set(facts.ge)
    for g in facts.ge:
        # 1 - s1*..*sk >= 0 with every s >= 1
        if len(g.t) == 2 and g.t.get(()) == 1:
            (m, c), = [(m, c) for m, c in g.t.items() if m]
            if c == -1 and all(a.kind == "sym" and poly(a) - 1 in ges for a, _ in m):
                env.update({a: ONE for a, _ in m if a not in env})
    while True:
        ges = {subst(g, env) for g in facts.ge} if env else ges
        n = len(env)
        for g in facts.ge:
            g = subst(g, env)
            if g.const() is not None or -g not in ges:
                continue
            for m, c in g.t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("sym", "floor", "fdiv") and c in (1, -1):
                    s = m[0][0]
                    rest = g - poly(s) * c
                    if rest.const() is not None or s.kind == "sym" and s not in syms_of(rest):
                        v = rest * -c
                        env = {k: subst(p, {s: v}) for k, p in env.items()}
                        env[s] = v
                        break
        if len(env) == n:
            break
    if any(a.kind != "sym" for a in env):
        return Deep(env)
    return env


def equal(a, b, facts):
    """Prove equality of two terms under facts; returns (ok, normal a, normal b)."""
    x, y = normal(poly(a), facts), normal(poly(b), facts)
    if x == y:
        return True, x, y
    env = pinned(facts)
    if env:
        x2, y2 = normal(subst(x, env), facts), normal(subst(y, env), facts)
        if x2 == y2:
            return True, x2, y2
        x, y = x2, y2
    if x.isint() and y.isint():
        d = x - y
        if nonneg(d, facts) and nonneg(-d, facts):
            return True, x, y
    if inconsistent(facts):
        return True, x, y
    y2 = match_folds(x, y, facts)
    if y2 != y:
        y = normal(y2, facts)
        if x == y:
            return True, x, y
        if normal(rewrite(x, plain_max), facts) == normal(rewrite(y, plain_max), facts):
            return True, x, y
    if congruent(x, y, facts):
        return True, x, y
    # case split on the first conditional
    c = first_cond(x) or first_cond(y)
    if c is not None and _depth(facts) < 6:
        f1, f2 = facts.assume(c), facts.assume(c_not(c))
        f1.splits = f2.splits = _depth(facts) + 1
        r1 = equal(x, y, f1)
        if not r1[0]:
            return r1
        return equal(x, y, f2)
    return False, x, y


def congruent(x, y, facts):
    """x = y because they apply the same symbol to arguments that are proved equal."""
    if x == y:
        return True
    a, b = x.single_atom(), y.single_atom()
    if a is None or b is None or a.kind != b.kind:
        return False
    if a.kind == "app" and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
        return all(congruent(p, q, facts) for p, q in zip(a.args[1], b.args[1]))
    if a.kind == "read" and a.args[0] is b.args[0] and len(a.args[1]) == len(b.args[1]):
        return all(equal_index(p, q, facts) for p, q in zip(a.args[1], b.args[1]))
    return False


def equal_index(p, q, facts):
    """Equality of two indices, digit by digit: conditionals with the same coefficient are compared on their own."""
    d = p - q
    if d.is_zero():
        return True
    groups = {}
    for m, c in d.t.items():
        for a, e in m:
            if a.kind in ("ite", "max2", "min2") and e == 1:
                r = _mono_divides(((a, 1),), m)
                groups.setdefault((r, abs(c)), []).append((a, c))
    for (_, _), g in groups.items():
        if len(g) == 2 and g[0][1] == -g[1][1]:
            a, b = g[0][0], g[1][0]
            small = restrict(facts, syms_of(poly(a)) | syms_of(poly(b)))
            e = poly(a) - poly(b)
            if nonneg(e, small) and nonneg(-e, small):
                d = d + (poly(b) - poly(a)) * P({m2: c2 for m2, c2 in _cofactor(d, a).t.items()})
    return d.is_zero() or (nonneg(d, facts) and nonneg(-d, facts))


def _cofactor(d, a):
    return P({_mono_divides(((a, 1),), m): c for m, c in d.t.items() if dict(m).get(a, 0) == 1})


def _depth(f):
    return getattr(f, "splits", 0)


def first_cond(p):
    for m in p.t:
        for a, _ in m:
            c = first_cond_atom(a)
            if c is not None:
                return c
    return None


def first_cond_atom(a):
    k, g = a.kind, a.args
    if k == "ite":
        cs = conjuncts(g[0])
        for c in cs:
            if not any(s.key.startswith("%") for s in syms_of_cond(c)):
                return c if c.op not in ("or",) else sorted(c.args, key=str)[0]
        return None
    if k == "read":
        for i in g[1]:
            c = first_cond(i)
            if c is not None:
                return c
    if k == "app":
        for x in g[1]:
            c = first_cond(x)
            if c is not None:
                return c
    if k in ("inv", "floor", "fdiv", "max2", "min2"):
        for x in g:
            c = first_cond(x)
            if c is not None:
                return c
    if k in FOLDS:
        c = first_cond(g[2])
        if c is not None and not any(s.key.startswith("%") for s in syms_of_cond(c)):
            return c
    return None
