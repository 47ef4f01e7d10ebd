"""Array versions: initial content and functional updates over index families."""
from __future__ import annotations

import itertools

import core
from core import (FALSE, ONE, TRUE, ZERO, P, Unsupported, c_and, c_eq, c_ge, cond_polys, fdiv, fresh,
                  ite, nonneg, normal, normal_cond, poly, read, subst, subst_cond, syms_of,
                  syms_of_cond, level, level_cond, _mono_divides)


#: leave reads of a tensor through a flat loop index as they are (while a program is executed)
LAZY = [False]


class Base(core.Stable):
    """Arbitrary initial content of an array."""

    def __init__(self, name, isint=False, undef=False):
        self.name, self.isint, self.undef = name, isint, undef

    def free_syms(self):
        return frozenset()

    def subst(self, env):
        return self

    def level(self):
        return 0

    def each_poly(self, fn):
        pass

    def resolve(self, idx, facts):
        return read(self, idx)

    def __repr__(self):
        return self.name


class Const(core.Stable):
    """Array filled with one value."""

    def __init__(self, name, val, isint=False):
        self.name, self.val, self.isint = name, poly(val), isint

    free_syms = Base.free_syms
    subst = Base.subst
    level = Base.level
    each_poly = Base.each_poly

    def resolve(self, idx, facts):
        return self.val


class Update(core.Stable):
    """prev with cells idx(b) := val(b) for all binder values in range that satisfy guard.

    The family idx is injective in the binders (proved before construction, with
    `order` the witness order of the digits per dimension).
    """

    _table: dict = {}

    def __new__(cls, prev, binders, guard, idx, val, order):
        key = (prev, binders, guard, idx, val)
        o = cls._table.get(key)
        if o is None:
            o = core.Stable.__new__(cls)
            o.prev, o.binders, o.guard, o.idx, o.val, o.order = prev, binders, guard, idx, val, order
            o.name = prev.name + "'"
            o.isint = prev.isint
            o._syms = o._lvl = None
            cls._table[key] = o
        return o

    def free_syms(self):
        if self._syms is None:
            r = syms_of(self.val) | syms_of_cond(self.guard)
            for i in self.idx:
                r |= syms_of(i)
            for _, c in self.binders:
                r |= syms_of(c)
            self._syms = (r - frozenset(b for b, _ in self.binders)) | self.prev.free_syms()
        return self._syms

    def level(self):
        if self._lvl is None:
            self._lvl = max([self.prev.level(), level(self.val), level_cond(self.guard)]
                            + [level(i) for i in self.idx] + [level(c) for _, c in self.binders])
        return self._lvl

    def each_poly(self, fn):
        pass

    def subst(self, env):
        if not (self.free_syms() & set(env)):
            return self
        ren = {b: poly(fresh("u")) for b, _ in self.binders}
        nb = tuple((ren[b].single_atom(), subst(c, env)) for b, c in self.binders)
        f = lambda p: subst(subst(p, ren), env)
        return Update(self.prev.subst(env), nb, subst_cond(subst_cond(self.guard, ren), env),
                      tuple(f(i) for i in self.idx), f(self.val),
                      tuple(tuple(ren[b].single_atom() for b in o) for o in self.order))

    def resolve(self, idx, facts):
        sol, conds = solve(self, idx, facts)
        if LAZY[0] and len(sol) > 1 and all(i.single_atom() is not None and i.single_atom().kind == "sym" for i in idx) \
                and any(a.kind == "fdiv" for q in sol.values() for a in q.atoms()):
            # a flat copy of a tensor: the digits of the index are known when the copy is read
            return read(self, idx)
        conds = conds + [subst_cond(self.guard, sol)]
        unknown = []
        for c in conds:
            for x in core.conjuncts(normal_cond(c, facts)):
                if x is FALSE:
                    return self.prev.resolve(idx, facts)
                if x is not TRUE:
                    unknown.append(x)
        if not unknown:
            return normal(subst(self.val, sol), facts)
        g = c_and(*unknown)
        if g is FALSE:
            return self.prev.resolve(idx, facts)
        a = normal(subst(self.val, sol), facts.assume(g))
        b = self.prev.resolve(idx, facts.assume(core.c_not(g)))
        return ite(g, a, b)


def linear_parts(t, binders):
    """Split t = c0 + sum(coef_b * b); None if not linear with binder-free coefficients."""
    bs = set(binders)
    coefs = {}
    c0 = {}
    for m, c in t.t.items():
        hit = [(a, e) for a, e in m if a in bs]
        if not hit:
            if any(core.syms_of_atom(a) & bs for a, _ in m):
                return None
            c0[m] = c
            continue
        if len(hit) > 1 or hit[0][1] > 1:
            return None
        if any(core.syms_of_atom(a) & bs for a, _ in m if a not in bs):
            return None
        b = hit[0][0]
        r = _mono_divides(((b, 1),), m)
        coefs.setdefault(b, {})[r] = c
    return P(c0), {b: P(v) for b, v in coefs.items()}


def injective(idx, binders, facts):
    """Digit order (per dimension) proving that idx is injective in the binders, or None."""
    counts = dict(binders)
    left = set(counts)
    order = []
    for t in idx:
        here = [b for b in counts if b in syms_of(t)]
        if not here:
            order.append(())
            continue
        lp = linear_parts(t, list(counts))
        if lp is None:
            return None
        _, coefs = lp
        # binders already pinned by an earlier dimension act as constants
        new = [b for b in coefs if b in left]
        if any(b not in left for b in coefs):
            return None
        best = None
        new.sort(key=lambda b: (coefs[b].degree(), len(coefs[b].t), str(coefs[b])))
        perms = [new] if len(new) <= 1 else itertools.permutations(new)
        for n, perm in enumerate(perms):
            if n > 24:
                break
            rest = ZERO
            ok = True
            for b in perm:
                if not nonneg(coefs[b] - 1 - rest, facts):
                    ok = False
                    break
                rest = rest + coefs[b] * (counts[b] - 1)
            if ok:
                best = tuple(reversed(perm))
                break
        if best is None:
            return None
        order.append(best)
        left -= set(best)
    # binders that occur in no index: only fine when they have at most one value
    for b in left:
        if not nonneg(1 - counts[b], facts):
            return None
    return tuple(order)


def solve(upd, idx, facts, extra=None):
    """Digits of idx in the family, and the conditions under which they are a solution."""
    return solve_family(upd.idx, upd.binders, upd.order, idx, facts)


def solve_family(templates, binders, order, idx, facts):
    counts = dict(binders)
    sol = {}
    conds = []
    if len(templates) != len(idx):
        raise Unsupported("rank mismatch")
    for t, o, x in zip(templates, order, idx):
        if not o:
            conds.append(c_eq(normal(x - t, facts)))
            continue
        c0, coefs = linear_parts(t, list(counts))
        rem = x - c0
        for b in o:
            c = coefs[b]
            rem = normal(rem, facts)
            q = guess_digit(rem, c, coefs, o, b, counts, facts)
            sol[b] = q
            rem = rem - c * q
            conds.append(c_ge(q))
            conds.append(c_ge(counts[b] - 1 - q))
        rem = normal(rem, facts)
        conds.append(c_eq(rem))
    for b, c in binders:
        if b not in sol:
            sol[b] = ZERO
            conds.append(c_ge(c - 1))
    return sol, conds


def guess_digit(rem, c, coefs, o, b, counts, facts):
    """floor(rem / c), simplified when possible."""
    if c == ONE:
        return rem
    if len(c.t) == 1:
        return normal(fdiv(rem, c), facts)
    # polynomial coefficient: try exact splitting on the leading monomial
    q = core.poly_exact_div(rem, c)
    if q is not None and q.isint():
        return q
    r = long_div(rem, c)
    if r is not None:
        q, rest = r
        if nonneg(rest, facts) and nonneg(c - 1 - rest, facts):
            return q
    return normal(fdiv(rem, c), facts)


def long_div(p, q):
    """Multivariate division p = q*quo + rest by leading monomials (all orders of leading term)."""
    for lead in q.t:
        if not lead:
            continue
        rem, quo = p, ZERO
        for _ in range(40):
            step = None
            for m in sorted(rem.t, key=lambda m: -sum(e for _, e in m)):
                r = _mono_divides(lead, m)
                if r is not None:
                    k = core.Fraction(rem.t[m]) / q.t[lead]
                    if k.denominator == 1:
                        step = P({r: k.numerator})
                        break
            if step is None:
                break
            quo = quo + step
            rem = rem - step * q
        if not quo.is_zero():
            return quo, rem
    return None


def disjoint(t1, b1, o1, idx, facts):
    """Prove that cell idx is outside the family t1 (over all its binder values)."""
    try:
        sol, conds = solve_family(t1, b1, o1, idx, facts)
    except Unsupported:
        return False
    for c in conds:
        if normal_cond(c, facts) is FALSE:
            return True
    f = facts
    for c in conds:
        f = f.assume(c)
    return core.inconsistent(f)
