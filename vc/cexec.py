"""Symbolic execution of generated C with loop summarisation.

A loop body is executed once for an arbitrary iteration with havoced carried
state; the effect of the whole loop is then a family of array updates plus
closed forms (folds) for carried scalars and cells.  Every step that makes the
summary exact (injectivity of the written family, non-interference between
iterations, index bounds, definedness) is an obligation that must be proved.
"""
from __future__ import annotations

from fractions import Fraction

import arrays
import core
from arrays import Base, Const, Update, disjoint, injective, solve_family
from core import (FALSE, ONE, TRUE, ZERO, P, Unsupported, app, c_and, c_eq, c_ge, c_gt, c_ne, c_not, c_or,
                  fdiv, floor_, fold, fresh, ite, let, nonneg, normal, normal_cond, poly, rdiv, read, rmax,
                  rmin, subst, subst_cond, syms_of, syms_of_cond)
from cparse import CSyntax, continues, mentioned, parse, without_continue


class Ptr:
    __slots__ = ("arr", "prefix", "off")

    def __init__(self, arr, prefix, off):
        self.arr, self.prefix, self.off = arr, prefix, poly(off)


class Failed(Exception):
    """An obligation failed in a way that makes continuing meaningless."""


class NotInjective(Unsupported):
    pass


class Obl:
    __slots__ = ("kind", "text", "ok", "detail")

    def __init__(self, kind, text, ok, detail=""):
        self.kind, self.text, self.ok, self.detail = kind, text, ok, detail


MATH1 = {"exp": "exp", "expf": "exp", "sqrt": "sqrt", "sqrtf": "sqrt", "tanh": "tanh", "tanhf": "tanh",
         "log": "log", "logf": "log", "sin": "sin", "cos": "cos"}


def is_undef(s):
    return s.args[0].startswith("undef")


class Exec:
    def __init__(self, facts, symtab, defines=None):
        self.facts = facts
        self.symtab = symtab
        self.vars = {}
        self.arr = {}
        self.meta = {}
        self.obl = []
        self.loopsyms = []
        self.readonly = set()
        self.frozen = frozenset()  # versions a branch started from, which an update must not absorb
        self.defines = defines or {}
        self.functions = {}
        self.tensors = {}
        self.opaque = False

    # -- declarations ------------------------------------------------------
    def declare_array(self, name, dims, isint=False, const=False, version=None):
        dims = [poly(d) for d in dims]
        self.arr[name] = version or Base(name, isint)
        self.meta[name] = (dims, isint, const)
        return self.arr[name]

    def declare_scalar(self, name, ty, val=None):
        self.vars[name] = (ty, poly(fresh("undef_" + name, ty == "i")) if val is None else val)

    def oblige(self, kind, text, ok, detail=""):
        self.obl.append(Obl(kind, text, bool(ok), detail))
        return ok

    # -- expressions -------------------------------------------------------
    def num(self, t):
        s = t.rstrip("fFlLuU") if not t.lower().startswith("0x") else t.rstrip("lLuU")
        if s.lower().startswith("0x") and ("p" in s.lower() or "." in s):
            return poly(Fraction(float.fromhex(s))), "r"
        if s.lower().startswith("0x"):
            return poly(int(s, 16)), "i"
        if any(c in s for c in ".eE") or t[-1:] in "fF":
            return poly(Fraction(s)), "r"
        return poly(int(s)), "i"

    def ev(self, e):
        k = e[0]
        if k == "num":
            return self.num(e[1])
        if k == "id":
            return self.ident(e[1])
        if k == "bin":
            return self.binop(e)
        if k == "un":
            return self.unop(e)
        if k == "cond":
            c = normal_cond(self.cond(e[1]), self.facts)
            if c is TRUE:
                return self.ev(e[2])
            if c is FALSE:
                return self.ev(e[3])
            f = self.facts
            self.facts = f.assume(c)
            a = self.rv(self.ev(e[2]))
            self.facts = f.assume(c_not(c))
            b = self.rv(self.ev(e[3]))
            self.facts = f
            ty = "i" if a[1] == b[1] == "i" else "r"
            return ite(c, a[0], b[0]), ty
        if k == "cast":
            v = self.ev(e[3])
            if isinstance(v, Ptr):
                return v
            if e[2]:
                raise Unsupported("cast to pointer")
            if e[1] == "int":
                return self.to_int(v), "i"
            return v[0], "r"
        if k == "idx":
            return self.load(self.addr(e))
        if k == "call":
            return self.call(e)
        if k == "assign":
            return self.do_assign(e)
        if k in ("preinc", "postinc"):
            lhs = e[2]
            old = self.ev(lhs)
            self.do_assign(("assign", "+=" if e[1] == "++" else "-=", lhs, ("num", "1")))
            return self.ev(lhs) if k == "preinc" else old
        if k == "comma":
            self.ev(e[1])
            return self.ev(e[2])
        if k == "bool":
            return e[1], "i"
        raise Unsupported(f"expression {k}")

    def rv(self, v):
        if isinstance(v, Ptr):
            raise Unsupported("pointer used as a value")
        return v

    def to_int(self, v):
        p, ty = v
        if ty == "i" or p.isint():
            return p
        if p.single_atom() is not None and p.single_atom().isint:
            return p
        if core.has_inv(p):
            p = normal(p, self.facts)
        q = floor_(p)
        if q == p or nonneg(p, self.facts):
            return q
        return ite(c_ge(p), q, -floor_(-p))

    def ident(self, name):
        if name in self.symtab:
            t = self.symtab[name]
            return (t, "i") if t.isint() else (t, "r")
        if name in self.vars:
            ty, v = self.vars[name]
            if isinstance(v, Ptr):
                return v
            bad = [s for s in syms_of(v) if is_undef(s)]
            if bad:
                v2 = normal(v, self.facts)
                if any(is_undef(s) for s in syms_of(v2)):
                    self.oblige("initialised", f"{name} is assigned before it is read", False)
                v = v2
            return v, ty
        if name in self.arr:
            return Ptr(name, (), ZERO)
        if name in ("INFINITY",):
            return app("const_inf"), "r"
        if name in ("FLT_MAX", "DBL_MAX"):
            return app("const_inf"), "r"
        if name in self.defines:
            return self.defines[name]
        self.oblige("declared", f"identifier {name} is declared in the generated program", False)
        raise Failed(f"undeclared identifier {name}")

    def binop(self, e):
        op = e[1]
        if op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
            return ite(self.cond(e), ONE, ZERO), "i"
        a, b = self.ev(e[2]), self.ev(e[3])
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(b, Ptr):
                a, b = b, a
            if isinstance(b, Ptr) or op not in "+-":
                raise Unsupported("pointer arithmetic")
            return Ptr(a.arr, a.prefix, a.off + b[0] if op == "+" else a.off - b[0])
        ty = "i" if a[1] == b[1] == "i" else "r"
        x, y = a[0], b[0]
        if op == "+":
            return x + y, ty
        if op == "-":
            return x - y, ty
        if op == "*":
            return x * y, ty
        if op == "/":
            self.nonzero(y, ty, e)
            if ty == "r":
                return rdiv(x, y), "r"
            return self.cdiv(x, y), "i"
        if op == "%":
            if ty == "r":
                raise CSyntax("% applied to a floating-point operand")
            self.nonzero(y, ty, e)
            return x - y * self.cdiv(x, y), "i"
        if op == "&" and ty == "i":
            f = lambda t: t in (ZERO, ONE) or (t.single_atom() is not None and t.single_atom().kind == "ite"
                                               and {t.single_atom().args[1], t.single_atom().args[2]} <= {ZERO, ONE})
            if f(x) and f(y):
                return ite(c_and(c_ne(x), c_ne(y)), ONE, ZERO), "i"
        if op == "<<" and ty == "i":
            return x * app("pow2", y, isint=True) if y.const() is None else x * (2 ** int(y.const())), "i"
        if op == ">>" and ty == "i":
            k = y.const()
            if k is not None:
                return fdiv(x, poly(2 ** int(k))), "i"
        raise Unsupported(f"operator {op}")

    def nonzero(self, y, ty, e):
        c = y.const()
        if c is not None:
            if c == 0:
                self.oblige("divisor", "division by zero", False)
                raise Failed("division by zero")
            return
        if ty == "i":
            ok = nonneg(y - 1, self.facts) or nonneg(-y - 1, self.facts)
            self.oblige("divisor", f"divisor {y} is never zero", ok)
            if not ok:
                raise Failed("possible integer division by zero")

    def cdiv(self, x, y):
        """C integer division (truncation)."""
        if not nonneg(y - 1, self.facts):
            return -self.cdiv(x, -y) if nonneg(-y - 1, self.facts) else fdiv(x, y)
        if nonneg(x, self.facts):
            return normal(fdiv(x, y), self.facts)
        if nonneg(-x, self.facts):
            return -normal(fdiv(-x, y), self.facts)
        return ite(c_ge(x), fdiv(x, y), -fdiv(-x, y))

    def unop(self, e):
        op = e[1]
        if op == "!":
            return ite(c_not(self.cond(e[2])), ONE, ZERO), "i"
        if op == "&":
            arr, idx = self.addr(e[2])
            return Ptr(arr, idx[:-1], idx[-1])
        if op == "*":
            v = self.ev(e[2])
            if not isinstance(v, Ptr):
                raise CSyntax("indirection of a non-pointer value")
            return self.load((v.arr, v.prefix + (v.off,)))
        v = self.rv(self.ev(e[2]))
        if op == "-":
            a = v[0].single_atom()
            if a is not None and a.kind == "app" and a.args[0] == "const_inf":
                return app("const_-inf"), v[1]
            return -v[0], v[1]
        if op == "+":
            return v
        raise Unsupported(f"unary {op}")

    def cond(self, e):
        k = e[0]
        if k == "bin" and e[1] in ("<", ">", "<=", ">=", "==", "!="):
            a, b = self.rv(self.ev(e[2])), self.rv(self.ev(e[3]))
            d = a[0] - b[0]
            return {"<": lambda: c_gt(-d), ">": lambda: c_gt(d), "<=": lambda: c_ge(-d),
                    ">=": lambda: c_ge(d), "==": lambda: c_eq(d), "!=": lambda: c_ne(d)}[e[1]]()
        if k == "bin" and e[1] in ("&&", "||"):
            a = self.cond(e[2])
            f = self.facts
            self.facts = f.assume(a if e[1] == "&&" else c_not(a))
            b = self.cond(e[3])
            self.facts = f
            return c_and(a, b) if e[1] == "&&" else c_or(a, b)
        if k == "bin" and e[1] == "&":
            return c_and(self.cond(e[2]), self.cond(e[3]))
        if k == "un" and e[1] == "!":
            return c_not(self.cond(e[2]))
        v = self.rv(self.ev(e))[0]
        a = v.single_atom()
        if a is not None and a.kind == "ite" and a.args[1:] == (ONE, ZERO):
            return a.args[0]
        if a is not None and a.kind == "ite" and a.args[1:] == (ZERO, ONE):
            return c_not(a.args[0])
        return c_ne(v)

    # -- memory ------------------------------------------------------------
    def addr(self, e):
        if e[0] == "idx":
            base = self.ev(e[1])
            i = self.rv(self.ev(e[2]))
            if not isinstance(base, Ptr):
                raise CSyntax("subscript of a non-array")
            if i[1] != "i":
                raise CSyntax("array subscript is not an integer")
            off = base.off + i[0]
            idx = base.prefix + (off,)
            return base.arr, idx
        if e[0] == "un" and e[1] == "*":
            v = self.ev(e[2])
            return v.arr, v.prefix + (v.off,)
        raise Unsupported("address of " + e[0])

    def load(self, a):
        arr, idx = a
        dims, isint, _ = self.meta[arr]
        if len(idx) < len(dims):
            return Ptr(arr, idx, ZERO)
        idx = self.bounds(arr, idx)
        return read(self.arr[arr], idx), "i" if isint else "r"

    def bounds(self, arr, idx):
        dims, _, _ = self.meta[arr]
        out = []
        for i, d in zip(idx, dims):
            i = normal(i, self.facts)
            out.append(i)
            lo = nonneg(i, self.facts)
            hi = nonneg(d - 1 - i, self.facts)
            if not (lo and hi) and core.inconsistent(self.facts):
                lo = hi = True
            self.oblige("bounds", f"0 <= {i} < {d} for {arr}", lo and hi,
                        "" if lo and hi else ("lower" if not lo else "upper"))
        return tuple(out)

    def store(self, a, v, ty):
        arr, idx = a
        dims, isint, const = self.meta[arr]
        if const:
            self.oblige("frame", f"{arr} is read-only", False)
            raise Failed(f"write to constant {arr}")
        if len(idx) != len(dims):
            raise CSyntax(f"assignment to array {arr}")
        idx = self.bounds(arr, idx)
        if isint and ty == "r":
            v = self.to_int((v, ty))
        order = tuple(() for _ in idx)
        if self.arr[arr] in self.frozen:
            # the version a branch started from: keep it recognisable for the merge
            self.arr[arr] = Update(self.arr[arr], (), TRUE, idx, v, order)
        else:
            self.arr[arr] = update(self.arr[arr], (), TRUE, idx, v, order)

    def do_assign(self, e):
        _, op, lhs, rhs = e
        r = self.ev(rhs)
        if op != "=":
            old = self.ev(lhs)
            if isinstance(old, Ptr):
                if op not in ("+=", "-="):
                    raise Unsupported("pointer op-assign")
                r = Ptr(old.arr, old.prefix, old.off + r[0] if op == "+=" else old.off - r[0])
            else:
                r = self.binop(("bin", op[:-1], ("val", old), ("val", r)))
        if lhs[0] == "id":
            name = lhs[1]
            if name not in self.vars:
                self.oblige("declared", f"identifier {name} is declared in the generated program", False)
                raise Failed(f"undeclared {name}")
            ty, _ = self.vars[name]
            if isinstance(r, Ptr):
                self.vars[name] = (ty, r)
                return r
            v = self.to_int(r) if ty == "i" else let(r[0], self.facts) if self.opaque and ty == "r" else r[0]
            self.vars[name] = (ty, v)
            return v, ty
        r = self.rv(r)
        self.store(self.addr(lhs), r[0], r[1])
        return r

    def call(self, e):
        if e[1][0] != "id":
            raise Unsupported("call")
        name = e[1][1]
        if name in self.functions:
            return self.functions[name](self, e[2])
        args = [self.rv(self.ev(a)) for a in e[2]]
        a = [x[0] for x in args]
        if name == "ACT":
            return app("ACT", *a), "r"
        if name in MATH1 and len(a) == 1:
            return app(MATH1[name], a[0]), "r"
        if name in ("pow", "powf") and len(a) == 2:
            return app("pow", *a), "r"
        if name in ("fmax", "fmaxf", "max"):
            return rmax(*a), "r"
        if name in ("fmin", "fminf", "min"):
            return rmin(*a), "r"
        if name in ("fabs", "fabsf", "abs"):
            return rmax(a[0], -a[0]), args[0][1]
        if name in ("floor", "floorf", "ceil", "ceilf", "round", "roundf") and core.has_inv(a[0]):
            a = [normal(a[0], self.facts), *a[1:]]
        if name in ("floor", "floorf"):
            return floor_(a[0]), "r"
        if name in ("ceil", "ceilf"):
            return -floor_(-a[0]), "r"
        if name in ("round", "roundf"):
            h = poly(Fraction(1, 2))
            return ite(c_ge(a[0]), floor_(a[0] + h), -floor_(-a[0] + h)), "r"
        self.oblige("declared", f"function {name} is known", False)
        raise Failed(f"unknown function {name}")

    # -- statements --------------------------------------------------------
    def run(self, src, after=None):
        """Run the statements; after() is called after each of the outermost ones."""
        prog = parse(src)
        self.readonly = only_read(prog)
        arrays.LAZY[0] = True
        try:
            for s in prog:
                self.st(s)
                if after:
                    after()
        finally:
            arrays.LAZY[0] = False
            core.clear_normal()

    def block(self, stmts):
        outer = dict(self.vars)
        outer_arr = set(self.arr)
        shadow = {}
        declared = set()
        for s in stmts:
            for d in ([s] if s[0] == "decl" else s[1] if s[0] == "decls" else []):
                n = d[2]
                if n in outer and n not in declared:
                    shadow[n] = ("v", None)
                if n in self.arr and n not in declared:
                    shadow[n] = ("a", (self.arr[n], self.meta[n]))
                    del self.arr[n], self.meta[n]
                declared.add(n)
            self.st(s)
        for n in declared:
            if n in self.vars:
                if n in outer:
                    self.vars[n] = outer[n]
                else:
                    del self.vars[n]
            if n in self.arr and n not in shadow:
                del self.arr[n], self.meta[n]
            if n in shadow and shadow[n][0] == "a":
                self.arr[n], self.meta[n] = shadow[n][1]

    def st(self, s):
        k = s[0]
        if k == "block":
            self.block(s[1])
        elif k == "decls":
            for d in s[1]:
                self.st(d)
        elif k == "decl":
            self.decl(s)
        elif k == "expr":
            self.ev(s[1])
        elif k == "if":
            c = normal_cond(self.cond(s[1]), self.facts)
            if c is TRUE:
                self.block([s[2]])
            elif c is FALSE:
                if s[3]:
                    self.block([s[3]])
            else:
                self.branch(c, s[2], s[3])
        elif k == "for":
            self.for_(s)
        elif k == "while":
            self.for_(as_for(s))
        elif k == "py":
            s[1]()
        elif k == "return":
            if s[1] is not None:
                self.ev(s[1])
        else:
            raise Unsupported(f"statement {k}")

    def decl(self, s):
        _, ty, name, dims, init, ptr, _ = s
        t = "i" if ty == "int" else "r"
        if ptr:
            if dims:
                raise Unsupported("array of pointers")
            v = self.ev(init) if init else None
            if init and not isinstance(v, Ptr):
                raise CSyntax("pointer initialised from a non-pointer")
            self.vars[name] = ("p", v)
            return
        if dims:
            ds = [self.ev(d)[0] for d in dims]
            if init is None:
                ver = Base(f"undef_{name}", t == "i", undef=True)
            elif init[0] == "init" and len(init[1]) == 1 and init[1][0][0] == "id" and init[1][0][1] in self.tensors:
                ver, n = self.tensors[init[1][0][1]]
                self.oblige("bounds", f"initialiser of {name} fits", len(ds) == 1 and nonneg(ds[0] - n, self.facts))
            elif init[0] == "init" and all(i == ("num", "0") or i[0] == "init" for i in init[1]):
                ver = Const(name + "0", ZERO, t == "i")
            elif init[0] == "init":
                ver = Const(name + "0", ZERO, t == "i")
                for n, x in enumerate(init[1]):
                    v = self.rv(self.ev(x))
                    ver = update(ver, (), TRUE, (poly(n),), v[0], ((),))
            else:
                raise Unsupported("array initialiser")
            self.declare_array(name, ds, t == "i", const=init is not None and name in self.readonly, version=ver)
            return
        self.vars.pop(name, None)
        if init is not None:
            v = self.rv(self.ev(init))
            self.vars[name] = (t, self.to_int(v) if t == "i" else let(v[0], self.facts) if self.opaque else v[0])
        else:
            self.declare_scalar(name, t)

    def branch(self, c, a, b):
        f, v0, a0 = self.facts, dict(self.vars), dict(self.arr)
        outer = self.frozen
        self.frozen = outer | {v for v in a0.values() if isinstance(v, Update)}
        self.facts = f.assume(c)
        if not core.inconsistent(self.facts):
            self.block([a])
        va, aa = self.vars, self.arr
        self.vars, self.arr = dict(v0), dict(a0)
        self.facts = f.assume(c_not(c))
        if b and not core.inconsistent(self.facts):
            self.block([b])
        vb, ab = self.vars, self.arr
        self.facts = f
        self.frozen = outer
        out = {}
        for n in v0:
            (ty, x), (_, y) = va[n], vb[n]
            if isinstance(x, Ptr) or isinstance(y, Ptr) or x is None or y is None:
                if x is not y and not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.arr == y.arr
                                       and x.prefix == y.prefix):
                    raise Unsupported("pointer merge")
                out[n] = (ty, x if x is y else Ptr(x.arr, x.prefix, ite(c, x.off, y.off)))
                continue
            out[n] = (ty, x if x == y else ite(c, x, y))
        self.vars = out
        arr = {}
        for n in a0:
            ver = a0[n]
            for chain, g in ((chain_of(aa[n], a0[n]), c), (chain_of(ab[n], a0[n]), c_not(c))):
                for u in chain:
                    ver = update(ver, u.binders, c_and(g, u.guard), u.idx, u.val, u.order)
            arr[n] = ver
        self.arr = arr

    # -- loops -------------------------------------------------------------
    def for_(self, s):
        _, init, cnd, step, body = s
        if cnd is None or step is None:
            raise Unsupported("for loop form")
        if continues(body):
            body = without_continue(body)
        local = init is not None and init[0] == "decl"
        if step[0] in ("preinc", "postinc"):
            by, inc_e = step[1] == "++", ("num", "1")
        elif step[0] == "assign" and step[1] in ("+=", "-="):
            by, inc_e = step[1] == "+=", step[3]
        elif step[0] == "assign" and step[1] == "=" and step[3][0] == "bin" and step[3][1] in ("+", "-") and (
                step[2] in step[3][2:] and (step[3][1] == "+" or step[3][2] == step[2])):
            by, inc_e = step[3][1] == "+", step[3][2] if step[3][3] == step[2] else step[3][3]
        else:
            raise Unsupported("for loop step")
        if step[2][0] != "id":
            raise Unsupported("for loop step")
        name = step[2][1]
        if local:
            if init[2] != name:
                raise Unsupported("for loop form")
            saved = self.vars.get(name)
            lo = self.rv(self.ev(init[4]))[0]
        elif init is None:
            if name not in self.vars or self.vars[name][0] != "i":
                raise Unsupported("for loop form")
            lo = self.vars[name][1]
        else:
            if init[1][0] != "assign" or init[1][1] != "=" or init[1][2] != ("id", name):
                raise Unsupported("for loop initialisation")
            if name not in self.vars:
                self.oblige("declared", f"loop variable {name} is declared", False)
                raise Failed(name)
            lo = self.rv(self.ev(init[1][3]))[0]
        flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}
        if cnd[0] != "bin" or cnd[1] not in flip:
            raise Unsupported("for loop condition")
        if cnd[2] == ("id", name):
            op, hi_e = cnd[1], cnd[3]
        elif cnd[3] == ("id", name):
            op, hi_e = flip[cnd[1]], cnd[2]
        else:
            raise Unsupported("for loop condition")
        if name in ids_of(hi_e):
            raise Unsupported("loop bound depends on the loop variable")
        assigned = assigned_ids(body)
        if name in assigned or ids_of(hi_e) & assigned:
            raise Unsupported("loop control modified in the body")
        if op not in ("!=", *(("<", "<=") if by else (">", ">="))):
            raise Unsupported("for loop condition")
        self.vars[name] = ("i", lo)
        hi = self.rv(self.ev(hi_e))
        if hi[1] != "i":
            raise Unsupported("non-integer loop bound")
        hi = hi[0]
        if inc_e == ("num", "1"):
            inc = ONE
        else:
            if ids_of(inc_e) & (assigned | {name}):
                raise Unsupported("loop step modified in the body")
            inc = self.rv(self.ev(inc_e))[0]
        if inc != ONE and not nonneg(inc - 1, self.facts):
            raise Unsupported("loop step not provably positive")
        if op == "!=" and not (inc == ONE and nonneg(hi - lo if by else lo - hi, self.facts)):
            raise Unsupported("loop condition != that may be stepped over")
        if op == "<=":
            hi = hi + 1
        if op == ">=":
            hi = hi - 1
        lo, hi = normal(lo, self.facts), normal(hi, self.facts)
        state = dict(self.vars), dict(self.arr), self.facts, dict(self.meta), list(self.loopsyms), len(self.obl)
        try:
            if by:
                radices = self.digits(name, lo, hi, inc, body)
                if radices:
                    self.nest(name, radices, body)
                else:
                    self.loop(name, lo, hi, inc, body)
            elif inc == ONE:
                self.loop(name, normal(hi + 1, self.facts), normal(lo + 1, self.facts), ONE, body, down=True)
            else:
                raise NotInjective("step")
        except NotInjective:
            self.vars, self.arr, self.facts, self.meta, self.loopsyms = state[:5]
            del self.obl[state[5]:]
            if inc == ONE:
                # the same iterations in the same order, numbered from the other end
                a, z = (lo, hi) if by else (normal(hi + 1, self.facts), normal(lo + 1, self.facts))
                try:
                    self.loop(name, a, z, ONE, body, down=not by, mirror=True)
                except NotInjective as e:
                    raise Unsupported(str(e)) from None
            elif by:
                raise
            else:
                down = f"@{name}down"
                outer = self.vars.get(down)
                self.vars[down] = ("i", ZERO)

                def once():
                    self.vars[name] = ("i", lo - self.vars[down][1])
                    self.block([body])
                self.loop(down, ZERO, normal(lo - hi, self.facts), inc, ("py", once, body))
                if outer is None:
                    self.vars.pop(down, None)
                else:
                    self.vars[down] = outer
        if local:
            if saved is not None:
                self.vars[name] = saved
            else:
                self.vars.pop(name, None)
        elif inc != ONE:
            self.vars[name] = ("i", poly(fresh("undef_" + name)))
        elif by:
            self.vars[name] = ("i", hi if nonneg(hi - lo, self.facts) else rmax(lo, hi))
        else:
            self.vars[name] = ("i", hi if nonneg(lo - hi, self.facts) else -rmax(-lo, -hi))

    def digits(self, name, lo, hi, inc, body):
        """Radices r0..rk with hi = r0*..*rk when the body takes the counter apart with / and %."""
        if inc != ONE or not lo.is_zero() or hi.const() is not None or len(hi.t) != 1:
            return None
        need, may = set(), set()

        def weight(e):
            if e == ("id", name):
                return ONE
            if e[0] == "bin" and e[1] in ("/", "%"):
                w = weight(e[2])
                if w is None or ids_of(e[3]) & (assigned_ids(body) | {name}):
                    return None
                try:
                    q, ty = self.rv(self.ev(e[3]))
                except (Unsupported, Failed):
                    return None
                if ty != "i":
                    return None
                (need if e[1] == "%" else may).add(w * q)
                if e[1] == "%":
                    need.add(w)
                    return None
                return w * q
            return None

        def go(x):
            if isinstance(x, tuple):
                if len(x) == 4 and x[0] == "bin":
                    weight(x)
                for y in x:
                    go(y)
            elif isinstance(x, list):
                for y in x:
                    go(y)
        saved = list(self.obl)
        go(body)
        self.obl[:] = saved
        chain = [ONE]
        for q in sorted(need, key=lambda q: (q.degree(), str(q))) + sorted(
                may, key=lambda q: (-q.degree(), str(q))) + [hi]:
            if q in chain:
                continue
            lower = [c for c in chain if core.poly_exact_div(q, c) is not None]
            upper = [c for c in chain if core.poly_exact_div(c, q) is not None]
            if len(lower) + len(upper) == len(chain) and core.poly_exact_div(hi, q) is not None:
                chain.append(q)
        chain.sort(key=lambda q: q.degree())
        if chain[-1] != hi or len(chain) < 3:
            return None
        rad = [core.poly_exact_div(chain[i + 1], chain[i]) for i in range(len(chain) - 1)]
        if any(r is None or not r.isint() or not nonneg(r - 1, self.facts) for r in rad):
            return None
        return list(zip(chain[:-1], rad))[::-1]

    def nest(self, name, radices, body):
        """for (i < r0*r1*..) as the nest over the digits of i: the same iterations, in the same order."""
        ds = [f"@{name}{k}" for k in range(len(radices))]
        outer = {d: self.vars.get(d) for d in ds}

        def level(k):
            if k == len(radices):
                v = ZERO
                for d, (w, _) in zip(ds, radices):
                    v = v + self.vars[d][1] * w
                self.vars[name] = ("i", v)
                self.block([body])
                return
            self.vars[ds[k]] = ("i", ZERO)
            self.loop(ds[k], ZERO, radices[k][1], ONE, ("py", lambda: level(k + 1), body))
        level(0)
        for d, v in outer.items():
            if v is None:
                self.vars.pop(d, None)
            else:
                self.vars[d] = v

    def loop(self, name, lo, hi, inc, body, down=False, mirror=False):
        """The iterations lo, lo+inc, .. below hi; down (with inc 1): from hi-1 to lo.

        They are numbered from the low end; mirror: from the high end.
        """
        F = self.facts
        span = hi - lo
        k = span.const()
        if inc == ONE and k is not None and k <= 6:
            for i in reversed(range(max(0, int(k)))) if down else range(max(0, int(k))):
                self.vars[name] = ("i", lo + i)
                self.block([body])
            return
        if nonneg(-span, F):
            return
        guards = []
        if inc == ONE:
            los, his = parts(lo, "max2"), parts(hi, "min2")
            lo0 = next((x for x in los if x.const() is not None), los[0])
            ls = set(self.loopsyms)
            his.sort(key=lambda h: (bool(syms_of(h) & ls), len(str(h))))
            hi0 = his[0]
            b = fresh("b_" + name)
            v = lo0 + poly(b)
            guards = [c_ge(v - x) for x in los if x != lo0] + [c_ge(x - 1 - v) for x in his[1:]]
            n = hi0 - lo0
            if mirror:
                if len(los) + len(his) > 2:
                    raise Unsupported("bounds of a loop numbered from its end")
                v = hi0 - 1 - poly(b)
                down = not down
        else:
            b = fresh("b_" + name)
            v = lo + inc * poly(b)
            n = normal(fdiv(span + inc - 1, inc), F)
        if not nonneg(n, F):
            n = rmax(n, ZERO)
        n = normal(n, F)
        G = F.bind(b, n)
        lg = normal_cond(c_and(*guards), G)
        if lg is FALSE:
            return
        G = G.assume(lg)
        if core.inconsistent(G):
            return
        # carried state
        assigned = assigned_ids(body)
        v0, a0 = dict(self.vars), dict(self.arr)
        known = {}  # integer scalars whose value at the start of iteration b is known in closed form
        mark = len(self.obl)
        while True:
            carr, csym = {}, {}
            self.vars, self.arr = dict(v0), dict(a0)
            for x in self.arr:
                if not self.meta[x][2]:
                    carr[x] = Base(f"{x}@", self.meta[x][1])
                    self.arr[x] = carr[x]
            for x in assigned:
                if x in v0:
                    ty, val = v0[x]
                    if x in known:
                        self.vars[x] = (ty, known[x][0])
                    elif ty == "p":
                        if val is None:
                            self.vars[x] = ("p", None)
                            continue
                        s = fresh("carry_" + x)
                        csym[x] = s
                        self.vars[x] = ("p", Ptr(val.arr, val.prefix, poly(s)))
                    else:
                        s = fresh("carry_" + x, ty == "i")
                        csym[x] = s
                        self.vars[x] = (ty, poly(s))
            self.vars[name] = ("i", v)
            self.facts = G
            self.loopsyms.append(b)
            self.block([body])
            self.loopsyms.pop()
            self.facts = F
            vb, ab = self.vars, self.arr
            carried_syms = set(csym.values())
            pre = {s: (v0[x][1].off if isinstance(v0[x][1], Ptr) else v0[x][1]) for x, s in csym.items()}
            after = {}
            for x, s in csym.items():
                w = vb[x][1]
                if isinstance(w, Ptr):
                    if w.arr != v0[x][1].arr or w.prefix != v0[x][1].prefix:
                        raise Unsupported("pointer re-targeted in a loop")
                    w = w.off
                after[s] = normal(w, G)
            if known or all(o.ok for o in self.obl[mark:]):
                break
            # obligations of the body failed for an arbitrary value of the carried scalars: use the
            # invariant "x = its initial value plus the increments so far", which holds by induction
            for x, s in csym.items():
                e = after[s] - poly(s)
                if v0[x][0] == "i" and not e.is_zero() and not (syms_of(e) & carried_syms) and not reads_any(e, carr):
                    known[x] = self.closed_sum(pre[s], e, b, n, lg, down)
            if not known:
                break
            del self.obl[mark:]
        # entries of modified arrays
        entries = {}
        for x in carr:
            ch = chain_of(ab[x], carr[x])
            if ch:
                entries[x] = [dict(binders=u.binders, guard=u.guard, idx=u.idx, val=u.val, order=u.order)
                              for u in ch]
        # 1. scalars whose increment does not depend on carried state
        closed, final = {}, {}
        todo = dict(after)

        def carry_free(p):
            return not (syms_of(p) & carried_syms) and not reads_any(p, carr)

        for s, w in list(todo.items()):
            if w == poly(s):
                closed[s] = final[s] = pre[s]
                del todo[s]
                continue
            e = w - poly(s)
            if carry_free(e):
                closed[s], final[s] = self.closed_sum(pre[s], e, b, n, lg, down)
                del todo[s]
        G2 = G
        sub = lambda p: subst(p, closed)
        # 2. templates
        for x, es in entries.items():
            for en in es:
                en["idx"] = tuple(normal(sub(i), F2(G, en)) for i in en["idx"])
                en["guard"] = normal_cond(subst_cond(en["guard"], closed), binds(G, en["binders"]))
                en["binders"] = tuple((bb, normal(sub(c), G)) for bb, c in en["binders"])
                for p in list(en["idx"]) + [c for _, c in en["binders"]]:
                    if syms_of(p) & carried_syms or reads_any(p, carr):
                        raise Unsupported(f"index of {x} depends on carried state")
                en["dep"] = any(b in syms_of(i) for i in en["idx"])
                if en["dep"]:
                    full = en["binders"] + ((b, n),)
                    o = injective(en["idx"], full, binds(G, en["binders"]))
                    if o is None:
                        raise NotInjective(f"writes to {x} not provably injective: {en['idx']} over "
                                          f"{[(str(q), str(c)) for q, c in full]}")
                    en["full"], en["forder"] = full, o
                else:
                    for _, c in en["binders"]:
                        if b in syms_of(c):
                            raise Unsupported("in-cell family with varying range")
        # 3. map reads of carried arrays
        def fix(p, facts, own=None):
            p = normal(sub(p), facts)
            return map_reads(p, facts, carr, lambda arr, idx, fa: self.noninterf(
                arr, idx, fa, entries.get(arr, ()), a0[arr], b, own, down))

        for x, es in entries.items():
            merge_cells(es, G)
            for en in es:
                fa = F2(G, en)
                own = None if en["dep"] else (x, en)
                en["cell"] = poly(sym_cell()) if not en["dep"] else None
                en["val"] = fix(en["val"], fa, own)
                if reads_any_cond(en["guard"], carr):
                    en["guard"] = map_reads_cond(en["guard"], binds(G, en["binders"]), carr,
                                                 lambda arr, idx, fb, es=entries: self.noninterf(
                                                     arr, idx, fb, es.get(arr, ()), a0[arr], b, own, down))
        for s in todo:
            todo[s] = fix(todo[s], G)
        # 4. remaining scalars
        progress = True
        while todo and progress:
            progress = False
            for s, w in list(todo.items()):
                w = subst(w, closed)
                others = (syms_of(w) & carried_syms) - {s}
                if others:
                    if s not in syms_of(w) and all(o in closed for o in others):
                        pass
                    else:
                        continue
                r = self.classify(w, s, pre[s], b, n, lg, F, down)
                if r is None:
                    continue
                closed[s], final[s] = r
                del todo[s]
                progress = True
        for s in todo:
            final[s] = poly(fresh("undef_havoc", s.isint))
        live = set(todo)
        # 5. final arrays
        self.arr = dict(a0)
        for x, es in entries.items():
            ver = a0[x]
            self.check_order(x, es, G, b, down)
            for en in es:
                val = subst(en["val"], closed)
                guard = subst_cond(en["guard"], closed)
                bad = (syms_of(val) | syms_of_cond(guard)) & live
                if bad:
                    raise Unsupported(f"value stored in {x} depends on unsummarised state")
                if en["dep"]:
                    if reads_any(val, carr) or reads_any_cond(guard, carr):
                        raise Unsupported(f"unresolved carried read in {x}")
                    ver = update(ver, en["full"], c_and(lg, guard), en["idx"], val, en["forder"])
                else:
                    cell = en["cell"]
                    w = ite(guard, val, cell) if guard is not TRUE else val
                    w = normal(w, binds(G, en["binders"]))
                    r = self.classify(w, cell.single_atom(), read(ver, en["idx"]), b, n, lg,
                                      binds(F, en["binders"]), down)
                    if r is None:
                        raise Unsupported(f"cell of {x} carried in an unsupported way: {w}")
                    ver = update(ver, en["binders"], TRUE, en["idx"], r[1], en["order"])
            self.arr[x] = ver
        # scalars
        self.vars = dict(v0)
        for x, s in csym.items():
            ty, val = v0[x]
            if ty == "p":
                self.vars[x] = ("p", Ptr(val.arr, val.prefix, final[s]))
            else:
                self.vars[x] = (ty, final[s])
        for x, (_, last) in known.items():
            self.vars[x] = (v0[x][0], last)

    def closed_sum(self, pre, e, b, n, lg, down=False):
        """Value at iteration b (after the iterations above b when going down) and at the end."""
        if lg is TRUE and b not in syms_of(e):
            return pre + e * (n - 1 - poly(b) if down else poly(b)), pre + e * n
        b2 = fresh("s")
        env = {b: poly(b2)}
        at = {b: n - 1 - poly(b2)} if down else env
        return (pre + fold("sum", [(b2, n - 1 - poly(b) if down else poly(b))], subst_cond(lg, at), subst(e, at)),
                pre + fold("sum", [(b2, n)], subst_cond(lg, env), subst(e, env)))

    def classify(self, w, s, pre, b, n, lg, F, down=False):
        """Closed form at iteration b and final value of a carried scalar with step value w."""
        if s not in syms_of(w):
            # reassigned in each iteration
            if lg is TRUE and nonneg(n - 1, F):
                return poly(fresh("undef_prev", s.isint)), subst(w, {b: ZERO if down else n - 1})
            return None
        r = fold_form(w, s)
        if r is None:
            return None
        kind, e = r
        if s in syms_of(e):
            return None
        if kind == "sum":
            return self.closed_sum(pre, e, b, n, lg, down)
        b2 = fresh("s")
        env = {b: poly(b2)}
        a = e.single_atom()
        g = lg
        neutral = app("const_-inf") if kind == "max" else app("const_inf") if kind == "min" else ONE
        if a is not None and a.kind == "ite":
            if a.args[2] == neutral:
                g, e = c_and(g, a.args[0]), a.args[1]
            elif a.args[1] == neutral:
                g, e = c_and(g, c_not(a.args[0])), a.args[2]

        def upto(cnt, env=env):
            f = fold(kind, [(b2, cnt)], subst_cond(g, env), subst(e, env))
            if kind == "prod":
                return pre * f
            return rmax(pre, f) if kind == "max" else rmin(pre, f)
        if down:
            return upto(n - 1 - poly(b), {b: n - 1 - poly(b2)}), upto(n)
        return upto(poly(b)), upto(n)

    def noninterf(self, arr, idx, facts, es, prever, b, own, down=False):
        """Replace a read of the carried array by one of the array before the loop."""
        for en in es:
            fresh_b = {bb: poly(fresh("q")) for bb, _ in en["binders"]}
            if en["dep"]:
                fresh_b[b] = poly(fresh("q"))
            ren = lambda p: subst(p, fresh_b)
            fam = en["full"] if en["dep"] else en["binders"]
            order = en["forder"] if en["dep"] else en["order"]
            # ranges may depend on b through counts: family ranges are renamed consistently
            fam2 = tuple((fresh_b[bb].single_atom(), ren(c)) for bb, c in fam)
            t2 = tuple(ren(t) for t in en["idx"])
            o2 = tuple(tuple(fresh_b[q].single_atom() for q in o) for o in order)
            if not en["dep"]:
                if own is not None and own[1] is en and tuple(normal(i, facts) for i in en["idx"]) == tuple(
                        normal(i, facts) for i in idx):
                    return en["cell"]
                if disjoint(t2, fam2, o2, idx, facts):
                    continue
                if own is not None and own[1] is en:
                    # same cell up to proof
                    if all(core.equal(i, j, facts)[0] for i, j in zip(idx, en["idx"])):
                        return en["cell"]
                raise Unsupported(f"iteration reads {arr}[{idx}] carried across iterations")
            sol, conds = solve_family(t2, fam2, o2, idx, facts)
            cs = []
            out = False
            for c in conds:
                c = normal_cond(c, facts)
                if c is FALSE:
                    out = True
                    break
                cs.append(c)
            if out:
                continue
            f = facts
            for c in cs:
                f = f.assume(c)
            bq = fresh_b[b].single_atom()
            if nonneg(poly(b) - sol[bq] if down else sol[bq] - poly(b), f):
                continue
            if core.inconsistent(f):
                continue
            raise Unsupported(f"iteration reads {arr}[{idx}] possibly written by an earlier iteration")
        return normal(read(prever, idx), facts)

    def check_order(self, x, es, G, b, down=False):
        for i, e1 in enumerate(es):
            for e2 in es[i + 1:]:
                ren = {bb: poly(fresh("q")) for bb, _ in e1["binders"]}
                f = binds(G, e2["binders"]).assume(e2["guard"])
                if e1["dep"] and e2["dep"]:
                    ren[b] = poly(fresh("q"))
                    fam = tuple((ren[bb].single_atom(), subst(c, ren)) for bb, c in e1["full"])
                    t = tuple(subst(p, ren) for p in e1["idx"])
                    o = tuple(tuple(ren[q].single_atom() for q in oo) for oo in e1["forder"])
                    sol, conds = solve_family(t, fam, o, e2["idx"], f)
                    cs = [normal_cond(c, f) for c in conds]
                    if any(c is FALSE for c in cs):
                        continue
                    for c in cs:
                        f = f.assume(c)
                    ahead = poly(b) - sol[ren[b].single_atom()]
                    if nonneg(-ahead if down else ahead, f) or core.inconsistent(f):
                        continue
                    raise Unsupported(f"order of writes to {x}")
                fam = tuple((ren[bb].single_atom(), subst(c, ren)) for bb, c in
                            e1["binders"])
                if e1["dep"]:
                    ren[b] = poly(fresh("q"))
                    fam = tuple((ren[bb].single_atom(), subst(c, ren)) for bb, c in e1["full"])
                    order = e1["forder"]
                else:
                    order = e1["order"]
                t = tuple(subst(p, ren) for p in e1["idx"])
                o = tuple(tuple(ren[q].single_atom() for q in oo) for oo in order)
                if not disjoint(t, fam, o, e2["idx"], f):
                    raise Unsupported(f"overlapping write families on {x}")


_cells = __import__("itertools").count()


def sym_cell():
    return core.sym(f"cell#{next(_cells)}", False)


def parts(p, kind):
    a = p.single_atom()
    return list(a.args) if a is not None and a.kind == kind else [p]


def binds(facts, binders):
    for bb, c in binders:
        facts = facts.bind(bb, c)
    return facts


def F2(facts, en):
    f = binds(facts, en["binders"])
    return f if en["guard"] is TRUE else f.assume(en["guard"])


def chain_of(ver, base):
    out = []
    while ver is not base:
        if not isinstance(ver, Update):
            raise Unsupported("array chain")
        out.append(ver)
        ver = ver.prev
    return out[::-1]


def same_family(u, binders, idx):
    """Renaming of binders of u onto the given ones when the templates coincide."""
    if len(u.binders) != len(binders):
        return None
    if not binders:
        return {} if u.idx == idx else None
    ren = {a: poly(bb) for (a, ca), (bb, cb) in zip(u.binders, binders) if ca == cb}
    if len(ren) == len(binders) and tuple(subst(i, ren) for i in u.idx) == idx:
        return ren
    return None


def update(prev, binders, guard, idx, val, order):
    if guard is FALSE:
        return prev
    if isinstance(prev, Update):
        ren = same_family(prev, binders, idx)
        if ren is not None:
            if guard is TRUE:
                return Update(prev.prev, binders, TRUE, idx, val, order)
            if prev.guard is TRUE:
                return Update(prev.prev, binders, TRUE, idx, ite(guard, val, subst(prev.val, ren)), order)
            pg = subst_cond(prev.guard, ren)
            if pg is c_not(guard):
                return Update(prev.prev, binders, TRUE, idx, ite(guard, val, subst(prev.val, ren)), order)
            if pg is guard:
                return Update(prev.prev, binders, guard, idx, val, order)
    return Update(prev, binders, guard, idx, val, order)


def merge_cells(es, G):
    """Merge in-cell entries with the same template (later write wins; values already refer to
    the carried content only after normalisation)."""
    i = 0
    while i < len(es):
        e1 = es[i]
        if e1["dep"]:
            i += 1
            continue
        merged = False
        for j in range(i + 1, len(es)):
            e2 = es[j]
            if e2["dep"] or len(e2["binders"]) != len(e1["binders"]):
                continue
            ren = {a: poly(bb) for (a, ca), (bb, cb) in zip(e1["binders"], e2["binders"]) if ca == cb}
            if len(ren) != len(e1["binders"]):
                continue
            if tuple(subst(p, ren) for p in e1["idx"]) != e2["idx"]:
                continue
            # e2 sees e1 through its own resolved value; fold e1 in for the cells e2 leaves alone
            v1, g1 = subst(e1["val"], ren), subst_cond(e1["guard"], ren)
            if e2["guard"] is TRUE:
                pass
            elif g1 is TRUE:
                e2["val"] = ite(e2["guard"], e2["val"], v1)
                e2["guard"] = TRUE
            else:
                e2["val"] = ite(e2["guard"], e2["val"], v1)
                e2["guard"] = c_or(e2["guard"], g1)
            del es[i]
            merged = True
            break
        if not merged:
            i += 1


def fold_form(w, s):
    """Recognise w = s op e with op in sum/prod/max/min and e free of s."""
    sp = poly(s)
    e = w - sp
    if s not in syms_of(e):
        return "sum", e
    a = w.single_atom()
    if a is not None and a.kind in ("max2", "min2") and sp in a.args:
        rest = [x for x in a.args if x != sp]
        e = core.mm2(a.kind, rest)
        if s not in syms_of(e):
            return a.kind[:3], e
    if a is not None and a.kind == "ite":
        c, x, y = a.args
        if s in syms_of_cond(c):
            return None
        neutral = {"sum": ZERO, "prod": ONE, "max": app("const_-inf"), "min": app("const_inf")}
        rx = None if x == sp else fold_form(x, s)
        ry = None if y == sp else fold_form(y, s)
        if x != sp and rx is None or y != sp and ry is None:
            return None
        kind = (rx or ry)[0]
        if rx and ry and rx[0] != ry[0]:
            return None
        ex = rx[1] if rx else neutral[kind]
        ey = ry[1] if ry else neutral[kind]
        return kind, ite(c, ex, ey)
    # product: every monomial contains s exactly once
    if w.t and all(dict(m).get(s, 0) == 1 for m in w.t):
        e = P({tuple((q, k) for q, k in m if q is not s): c for m, c in w.t.items()})
        if s not in syms_of(e):
            return "prod", e
    # sum with a conditional increment: linear in ite atoms
    ites = [q for q in w.atoms() if q.kind == "ite" and s in core.syms_of_atom(q)]
    if len(ites) == 1 and all(dict(m).get(ites[0], 0) <= 1 for m in w.t):
        c, x, y = ites[0].args
        if s in syms_of_cond(c):
            return None
        rx, ry = fold_form(subst(w, {ites[0]: x}), s), fold_form(subst(w, {ites[0]: y}), s)
        if rx and ry and rx[0] == ry[0]:
            return rx[0], ite(c, rx[1], ry[1])
    return None


def reads_any(p, carr):
    bases = set(map(id, carr.values()))
    found = []

    def visit(a):
        if a.kind == "read" and id(a.args[0]) in bases:
            found.append(a)
    walk(p, visit)
    return bool(found)


def reads_any_cond(c, carr):
    return any(reads_any(p, carr) for p in core.cond_polys(c))


def walk(p, fn):
    for m in p.t:
        for a, _ in m:
            walk_atom(a, fn)


def walk_atom(a, fn):
    fn(a)
    k, g = a.kind, a.args
    if k == "sym":
        return
    if k == "read":
        for i in g[1]:
            walk(i, fn)
        v = g[0]
        while isinstance(v, Update):
            walk(v.val, fn)
            for i in v.idx:
                walk(i, fn)
            for p in core.cond_polys(v.guard):
                walk(p, fn)
            v = v.prev
        if not isinstance(v, Const):
            fn(core.mk_atom("read", (v, g[1]), v.isint))
    elif k in core.FOLDS:
        for _, c in g[0]:
            walk(c, fn)
        for p in core.cond_polys(g[1]):
            walk(p, fn)
        walk(g[2], fn)
    elif k == "ite":
        for p in core.cond_polys(g[0]):
            walk(p, fn)
        walk(g[1], fn)
        walk(g[2], fn)
    elif k == "app":
        for x in g[1]:
            walk(x, fn)
    else:
        for x in g:
            walk(x, fn)


def map_reads(p, facts, carr, fn):
    """Rewrite reads of carried arrays, tracking the facts that hold at each read."""
    names = {id(v): k for k, v in carr.items()}

    def go(p, f):
        if not reads_any(p, carr):
            return p
        out = ZERO
        for m, c in p.t.items():
            cur = P({(): c})
            for a, e in m:
                v = atom(a, f)
                for _ in range(e):
                    cur = cur * v
            out = out + cur
        return out

    def atom(a, f):
        k, g = a.kind, a.args
        if k == "sym":
            return poly(a)
        if k == "read":
            idx = tuple(go(i, f) for i in g[1])
            if id(g[0]) in names:
                return fn(names[id(g[0])], idx, f)
            if isinstance(g[0], Update):
                raise Unsupported("unresolved array version")
            return read(g[0], idx)
        if k in core.FOLDS:
            binders, guard, body = g
            ren = {bb: poly(fresh("m")) for bb, _ in binders}
            nb = [(ren[bb].single_atom(), go(subst(c, ren), f)) for bb, c in binders]
            f2 = binds(f, nb)
            gd = cond(subst_cond(guard, ren), f2)
            return fold(k, nb, gd, go(subst(body, ren), f2.assume(gd)))
        if k == "ite":
            c = cond(g[0], f)
            return ite(c, go(g[1], f.assume(c)), go(g[2], f.assume(c_not(c))))
        if k == "app":
            return app(g[0], *[go(x, f) for x in g[1]], isint=a.isint)
        xs = [go(x, f) for x in g]
        if k == "fdiv":
            return fdiv(*xs)
        if k == "floor":
            return floor_(*xs)
        if k == "inv":
            return core.inv(*xs)
        return core.mm2(k, xs)

    def cond(c, f):
        if c.op in ("true", "false"):
            return c
        if c.op in ("and", "or"):
            xs = [cond(x, f) for x in c.args]
            return c_and(*xs) if c.op == "and" else c_or(*xs)
        q = go(c.args[0], f)
        return {"ge": c_ge, "gt": c_gt, "eq": c_eq, "ne": c_ne}[c.op](q)

    go.cond = cond
    return go(p, facts)


def map_reads_cond(c, facts, carr, fn):
    t = ite(c, ONE, ZERO)
    r = map_reads(t, facts, carr, fn)
    a = r.single_atom()
    if r == ONE:
        return TRUE
    if r == ZERO:
        return FALSE
    return a.args[0] if a.args[1:] == (ONE, ZERO) else c_not(a.args[0])


def ids_of(e):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "id":
                out.add(x[1])
            else:
                for y in x:
                    go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(e)
    return out


def as_for(s):
    """while (c) { body; i++; } as for (; c; i++) body."""
    _, c, body = s
    stmts = list(body[1]) if body[0] == "block" else [body]
    if not stmts or stmts[-1][0] != "expr":
        raise Unsupported("statement while")
    step = stmts[-1][1]
    rest = ("block", stmts[:-1])
    if continues(rest) or step[0] not in ("preinc", "postinc", "assign"):
        raise Unsupported("statement while")
    if any(d[2] in mentioned(step) for y in stmts for d in ([y] if y[0] == "decl" else y[1] if y[0] == "decls" else [])):
        raise Unsupported("statement while")
    return ("for", None, c, step, rest)


def assigned_ids(s):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == "assign" and x[2][0] == "id":
                out.add(x[2][1])
            if x and x[0] in ("preinc", "postinc") and x[2][0] == "id":
                out.add(x[2][1])
            for y in x:
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(s)
    return out


def only_read(prog):
    """Names of declared arrays that the text only ever subscripts, and never in a place that is written."""
    names, bad = set(), set()

    def root(e):
        while e[0] == "idx":
            e = e[1]
        return e[1] if e[0] == "id" else None

    def go(x, sub=False):
        if isinstance(x, tuple):
            if x and x[0] == "decl" and x[3]:
                if x[2] in names:
                    bad.add(x[2])
                names.add(x[2])
            if x and x[0] == "assign" or x and x[0] in ("preinc", "postinc"):
                bad.add(root(x[2]))
            if x and x[0] == "id" and not sub:
                bad.add(x[1])
            for n, y in enumerate(x):
                go(y, bool(x) and x[0] == "idx" and n == 1)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(prog)
    return names - bad


_ev = Exec.ev


def ev(self, e):
    if e[0] == "val":
        return e[1]
    return _ev(self, e)


Exec.ev = ev
