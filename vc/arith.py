"""Integer terms of the core decided by Z3 (nonlinear integer arithmetic).

Quotients x // q are named by a fresh integer k with k*q <= x < k*q + q, for positive q (a negative or zero divisor leaves
k unconstrained, so nothing false can be proved from it)."""
from __future__ import annotations

from fractions import Fraction

import core
import z3
from core import FALSE, TRUE, Unsupported, poly


class Ints:
    def __init__(self):
        self.env, self.side, self.fns = {}, [], {}

    def var(self, a):
        if a not in self.env:
            self.env[a] = z3.Int(f"i{len(self.env)}")
        return self.env[a]

    def term(self, p):
        out = z3.IntVal(0)
        p = poly(p)
        for m, c in p.t.items():
            c = Fraction(c)
            if c.denominator != 1:
                raise Unsupported(f"fractional integer term {p}")
            t = z3.IntVal(int(c))
            for a, e in m:
                v = self.atom(a)
                for _ in range(e):
                    t = t * v
            out = out + t
        return out

    def atom(self, a):
        if a in self.env:
            return self.env[a]
        k = a.kind
        if k == "fdiv":
            x, q = [self.term(t) for t in a.args]
            v = self.var(a)
            self.side.append(z3.Implies(q > 0, z3.And(v * q <= x, x < v * q + q)))
            return v
        if k == "ite":
            r = z3.If(self.cond(a.args[0]), self.term(a.args[1]), self.term(a.args[2]))
        elif k in ("max2", "min2"):
            x, y = [self.term(t) for t in a.args]
            r = z3.If(x >= y if k == "max2" else x <= y, x, y)
        else:
            return self.var(a)
        self.env[a] = r
        return r

    def cond(self, c):
        if c is TRUE or c is FALSE:
            return z3.BoolVal(c is TRUE)
        if c.op in ("and", "or"):
            return {"and": z3.And, "or": z3.Or}[c.op]([self.cond(x) for x in c.args])
        e = self.term(c.args[0])
        return {"ge": e >= 0, "gt": e > 0, "eq": e == 0, "ne": e != 0}[c.op]

    def facts(self, F):
        return [self.term(g) >= 0 for g in F.ge] + [self.cond(c) for c in F.other]


def prove(goal, F, timeout=30000):
    """goal: a Cond.  (proved, counterexample text or None)."""
    R = Ints()
    g = R.cond(goal)
    fs = R.facts(F)
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*R.side, *fs, z3.Not(g))
    r = s.check()
    if r == z3.unsat:
        return True, None
    if r == z3.sat:
        m = s.model()
        return False, {str(k): str(m.eval(v, model_completion=True)) for k, v in R.env.items() if k.kind == "sym"}
    return False, None


def conds_in(p, acc):
    """Conditions of the ite atoms and the arguments of max / min in p."""
    for m in poly(p).t:
        for a, _ in m:
            if a.kind == "ite":
                acc.append(a.args[0])
                conds_in(a.args[1], acc)
                conds_in(a.args[2], acc)
            elif a.kind in ("max2", "min2"):
                acc.append(core.c_ge(a.args[0] - a.args[1]))
                for x in a.args:
                    conds_in(x, acc)
            elif a.kind == "fdiv":
                for x in a.args:
                    conds_in(x, acc)
    return acc


def conds_of(c, acc):
    if c is TRUE or c is FALSE:
        return acc
    if c.op in ("and", "or"):
        for x in c.args:
            conds_of(x, acc)
        return acc
    return conds_in(c.args[0], acc)


def prove_split(goal, F, depth=0):
    """Normalise under the facts, split on the conditions inside the goal, then Z3."""
    if core.inconsistent(F):
        return True, None
    g = core.normal_cond(goal, F)
    if g is TRUE:
        return True, None
    cs = [c for c in conds_of(g, []) if not conds_of(c, [])]
    if cs and depth < 8:
        for c in (cs[0], core.c_not(cs[0])):
            ok, cx = prove_split(g, F.assume(c), depth + 1)
            if not ok:
                return ok, cx
        return True, None
    if core.proves(g, F):
        return True, None
    return prove(g, F)
