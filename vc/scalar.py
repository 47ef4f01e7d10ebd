"""Real-valued terms of the core decided by Z3's nonlinear real arithmetic, with exp characterised by its functional
equation (exp(a) > 0, exp(a + b) = exp(a) * exp(b), exp(a) > 1 exactly when a > 0); other functions are uninterpreted."""
from __future__ import annotations

from fractions import Fraction

import z3

from core import FALSE, TRUE, P, Unsupported, poly, subst


class Reals:
    def __init__(self):
        self.env = {}
        self.exps = {}
        self.side = []
        self.fns = {}

    def var(self, a):
        if a not in self.env:
            self.env[a] = z3.Real(f"r{len(self.env)}")
        return self.env[a]

    def num(self, c):
        c = Fraction(c)
        return z3.RatVal(c.numerator, c.denominator)

    def real(self, p):
        out = self.num(0)
        for m, c in poly(p).t.items():
            t = self.num(c)
            for a, e in m:
                v = self.atom(a)
                for _ in range(e):
                    t = t * v
            out = out + t
        return out

    def atom(self, a):
        if a in self.env:
            return self.env[a]
        k = a.kind
        if k == "inv":
            d = self.real(a.args[0])
            v = self.var(a)
            self.side.append(z3.Implies(d != 0, v * d == 1))
            return v
        if k == "ite":
            r = z3.If(self.cond(a.args[0]), self.real(a.args[1]), self.real(a.args[2]))
        elif k in ("max2", "min2"):
            x, y = [self.real(t) for t in a.args]
            r = z3.If(x >= y if k == "max2" else x <= y, x, y)
        elif k == "app" and a.args[0] == "exp":
            r = self.exp(a.args[1][0])
        elif k == "app":
            name, args = a.args
            f = self.fns.setdefault((name, len(args)), z3.Function("f_" + name, *[z3.RealSort()] * (len(args) + 1)))
            r = f(*[self.real(t) for t in args])
        else:
            return self.var(a)
        self.env[a] = r
        return r

    def exp(self, p):
        # exp of a choice is a choice of exponentials
        for m, c in p.t.items():
            for a, _ in m:
                if a.kind in ("ite", "max2", "min2"):
                    if a.kind == "ite":
                        g, x, y = self.cond(a.args[0]), a.args[1], a.args[2]
                    else:
                        x, y = a.args
                        u, v = self.real(x), self.real(y)
                        g = u >= v if a.kind == "max2" else u <= v
                    return z3.If(g, self.exp(subst(p, {a: x})), self.exp(subst(p, {a: y})))
        # exp of a sum is the product over its monomials
        r = self.num(1)
        for m, c in p.t.items():
            if Fraction(c).denominator != 1:
                raise Unsupported("exp of a fractional multiple")
            if m not in self.exps:
                e, i = z3.Real(f"exp{len(self.exps)}"), z3.Real(f"expneg{len(self.exps)}")
                x = self.real(P({m: Fraction(1)})) if m else self.num(1)
                self.side += [e > 0, i > 0, e * i == 1, (x > 0) == (e > 1), (x == 0) == (e == 1)]
                self.exps[m] = (e, i)
            e, i = self.exps[m]
            for _ in range(abs(int(c))):
                r = r * (e if c > 0 else i)
        return r

    def cond(self, c):
        if c is TRUE or c is FALSE:
            return z3.BoolVal(c is TRUE)
        if c.op in ("and", "or"):
            return {"and": z3.And, "or": z3.Or}[c.op]([self.cond(x) for x in c.args])
        e = self.real(c.args[0])
        return {"ge": e >= 0, "gt": e > 0, "eq": e == 0, "ne": e != 0}[c.op]


def prove_equal(a, b, assume=(), timeout=20000):
    """(proved, counterexample {atom text: value} or None)."""
    R = Reals()
    x, y = R.real(a), R.real(b)
    pre = [R.cond(c) for c in assume]
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*R.side, *pre, x != y)
    r = s.check()
    if r == z3.unsat:
        return True, None
    if r == z3.sat:
        m = s.model()
        return False, {str(k): str(m.eval(v, model_completion=True)) for k, v in R.env.items()}
    return False, None
