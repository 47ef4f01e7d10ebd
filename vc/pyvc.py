"""Deductive verification of Python functions: verification conditions from the function's own source, discharged by Z3.

The body of the real function (its syntax tree, read from the repository on every run) is executed symbolically.  A loop over
a container or range of unknown length is cut at the invariant given by the contract: the invariant holds on entry, one
iteration from any state that satisfies it re-establishes it, and the code after the loop may use only the invariant.  A
call to a function under contract uses the contract; any other repository function is executed in place.  `assert`s,
dictionary look-ups, indexing and `raise` statements are obligations, unless an enclosing `try` or the contract allows them.
Nothing bounds the number of elements or iterations.
"""
from __future__ import annotations

import ast
import inspect
import textwrap
import time
from collections import deque

import z3

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
FP = z3.Float64()


class Unsupported(Exception):
    pass


class Dead(Exception):
    """The path is infeasible, or ends here."""


class Raised(Exception):
    def __init__(self, exc):
        super().__init__(exc)
        self.exc = exc


class Return(Exception):
    def __init__(self, value):
        super().__init__()
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


UNDEF = object()


# ------------------------------------------------------------------------------------------------------ types and values
class Ref:
    """Object reference: an integer term and the name of its class description."""

    def __init__(self, t, cls):
        self.t, self.cls = t, cls

    def __repr__(self):
        return f"{self.cls}<{self.t}>"


class ListOf:
    """Type of a list field."""

    def __init__(self, elem):
        self.elem = elem


def sort_of(ty):
    if isinstance(ty, str):
        return I  # a reference
    return ty


def wrap(t, ty):
    return Ref(t, ty) if isinstance(ty, str) else t


def unwrap(v, sort):
    if isinstance(v, Ref):
        return v.t
    if isinstance(v, z3.ExprRef):
        if sort == R and v.sort() == I:
            return z3.ToReal(v)
        if sort == I and v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    if sort == FP and isinstance(v, (int, float)) and not isinstance(v, bool):
        return z3.FPVal(float(v), FP)
    if isinstance(v, bool):
        return z3.BoolVal(v) if sort == B else z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v) if sort == R else z3.IntVal(v)
    if isinstance(v, float) and sort == R:
        return z3.RealVal(repr(v))
    if isinstance(v, str) and sort == I:
        return z3.IntVal(strid(v))
    if v is None and sort == I:
        return z3.IntVal(-1000003)
    raise Unsupported(f"value {v!r} as {sort}")


STR = {}


def strid(s):
    """Distinct integers for distinct string constants."""
    return STR.setdefault(s, -2000000 - len(STR))


class Seq:
    """Elements arr[lo..hi-1]; a push at either end is one store.  pos is a ghost: the place of each element, when the elements
    are distinct (kept up to date by every push)."""
    kind = "seq"

    def __init__(self, lo, hi, arr, ty, pos=None):
        self.lo, self.hi, self.arr, self.ty, self.pos = lo, hi, arr, ty, pos

    def has(self, x):
        return z3.And(self.lo <= self.pos[x], self.pos[x] < self.hi, self.arr[self.pos[x]] == x)

    def distinct(self):
        i = z3.Int("i")
        return z3.ForAll([i], z3.Implies(z3.And(self.lo <= i, i < self.hi), self.pos[self.arr[i]] == i), patterns=[self.arr[i]])

    def push(self, at, lo, hi, v):
        pos = self.pos
        if pos is not None:
            pos = z3.Store(pos, v, at) if v.sort() == I else None
        return Seq(lo, hi, z3.Store(self.arr, at, v), self.ty, pos)

    def get(self, i):
        return wrap(self.arr[i], self.ty)

    def fresh(self, vc):
        return Seq(vc.fresh("lo", I), vc.fresh("hi", I), vc.fresh("arr", self.arr.sort()), self.ty,
                   None if self.pos is None else vc.fresh("pos", self.pos.sort()))

    def facts(self):
        return [self.lo <= self.hi]

    def same(self, o):
        return isinstance(o, Seq) and self.lo.eq(o.lo) and self.hi.eq(o.hi) and self.arr.eq(o.arr)


class Map:
    kind = "map"

    def __init__(self, dom, val, kty, vty):
        self.dom, self.val, self.kty, self.vty = dom, val, kty, vty

    def fresh(self, vc):
        return Map(vc.fresh("dom", self.dom.sort()), vc.fresh("val", self.val.sort()), self.kty, self.vty)

    def facts(self):
        return []

    def same(self, o):
        return isinstance(o, Map) and self.dom.eq(o.dom) and self.val.eq(o.val)


class Set:
    kind = "set"

    def __init__(self, dom, kty):
        self.dom, self.kty = dom, kty

    def fresh(self, vc):
        return Set(vc.fresh("dom", self.dom.sort()), self.kty)

    def facts(self):
        return []

    def same(self, o):
        return isinstance(o, Set) and self.dom.eq(o.dom)


class Handle:
    """A mutable container created by the function or passed to it."""

    def __init__(self, oid):
        self.oid = oid


class FieldList:
    """The list stored in a field of an object."""

    def __init__(self, ref, field, ty):
        self.ref, self.field, self.ty = ref, field, ty


class Empty:
    """A new container whose element type is not known yet."""
    kind = "empty"

    def __init__(self, what):
        self.what = what

    def same(self, o):
        return o is self

    def fresh(self, vc):
        return self

    def facts(self):
        return []


class View:
    """Something a loop or comprehension can range over: lo, hi, get(i), and facts about it."""

    def __init__(self, lo, hi, get, of=()):
        self.lo, self.hi, self.get, self.of = lo, hi, get, list(of)


class Obj:
    """Concrete Python object attribute access (modules, classes...)."""


# ------------------------------------------------------------------------------------------------------------- contracts
class Contract:
    """params: {name: type or callable(vc) -> value}; requires/ensures: functions of the State view; loops: list of
    invariants, in the order in which the loops are met; fields: {class: {field: type}}."""

    def __init__(self, fn, params, requires=None, ensures=None, loops=(), modifies=(), result=None, raises=None, measure=None,
                 name=None, before=None):
        self.fn, self.params = fn, params
        self.requires, self.ensures = requires or (lambda s: []), ensures or (lambda s: [])
        self.loops, self.modifies, self.result, self.raises = list(loops), modifies, result, raises
        self.measure, self.name = measure, name or fn.__qualname__
        self.before = before or {}


class State:
    def __init__(self):
        self.loc, self.store, self.heap, self.pc = {}, {}, {}, []

    def copy(self):
        s = State()
        s.loc, s.store, s.heap, s.pc = dict(self.loc), dict(self.store), dict(self.heap), list(self.pc)
        return s


class S:
    """What a contract sees of a state."""

    def __init__(self, vc, st, **kw):
        self.vc, self.st = vc, st
        self.__dict__.update(kw)

    def __getitem__(self, name):
        v = self.st.loc[name]
        return self.st.store[v.oid] if isinstance(v, Handle) else v

    def has(self, name):
        return name in self.st.loc

    def field(self, f):
        return self.st.heap[f]

    def list(self, ref, f):
        """(length, element function) of a list field."""
        t = ref.t if isinstance(ref, Ref) else ref
        n, a = self.st.heap[f + "#len"], self.st.heap[f + "#arr"]
        return n[t], lambda i: a[t][i]

    def kind(self, k, nth=0, exclude=()):
        """nth local container of a kind, in order of creation (so that names do not matter)."""
        seen = []
        for n, v in self.st.loc.items():
            if isinstance(v, Handle) and v.oid not in exclude and v.oid not in seen and self.vc.local_oid(v.oid):
                c = self.st.store[v.oid]
                if c.kind == k:
                    seen.append(v.oid)
        seen.sort()
        if nth >= len(seen):
            raise Unsupported(f"no local {k} number {nth}")
        return self.st.store[seen[nth]]


def is_z(v):
    return isinstance(v, z3.ExprRef)


class VC:
    def __init__(self, contracts=(), fields=None, isa=None, timeout=20000, floats="real", inline=True, models=None):
        self.contracts = {c.fn: c for c in contracts}
        self.fields = fields or {}
        self.isa = isa or {}
        self.timeout, self.floats = timeout, floats
        self.models = models or {}
        self.obligations = []
        self.memo, self.feas, self.names = {}, {}, {}
        self.n = 0
        self.script, self.pos = [], 0
        self.quiet = 0
        self.pure = []
        self.handlers = []
        self.seconds = 0.0
        self.patience = 150.0
        self.functions = set()
        self.queries = 0
        self.contract = None

    # -- naming and solving
    def fresh(self, base, sort):
        self.n += 1
        return z3.Const(f"{base}!{self.n}", sort)

    def solver(self, pc, ms=None):
        s = z3.Solver()
        s.set("timeout", ms or self.timeout)
        for p in pc:
            s.add(p)
        return s

    def check(self, pc, goal, ms=None):
        t = time.time()
        self.queries += 1
        r, s = z3.unknown, None
        total = ms or self.timeout
        plain = {"smt.mbqi": False, "smt.auto_config": False}
        rounds = [(0.1, {}), (0.15, plain), (0.3, {"smt.random_seed": 7}), (0.3, dict(plain, **{"smt.random_seed": 3})), (0.6, {"smt.random_seed": 11})]
        if ms is None:
            # obligations only: longer rounds (a loaded machine, a refactored function), within a budget for the whole function
            rounds += [(1.5, dict(plain, **{"smt.random_seed": 5})), (2.5, {"smt.random_seed": 23})]
        for k, (part, opts) in enumerate(rounds):
            if k >= 5:
                if self.patience <= 0:
                    break
                part = min(part, self.patience / self.timeout * 1000)
            t1 = time.time()
            s = self.solver(pc, int(total * part))
            for o, v in opts.items():
                s.set(o, v)
            s.add(z3.Not(goal))
            r = s.check()
            if k >= 5:
                self.patience -= time.time() - t1
            if r != z3.unknown:
                break
        self.seconds += time.time() - t
        return r, (s.model() if r == z3.sat else None)

    def feasible(self, pc):
        key = tuple(p.get_id() for p in pc)
        if key not in self.feas:
            s = self.solver(pc, 500)
            self.queries += 1
            t = time.time()
            r = s.check()
            self.seconds += time.time() - t
            self.feas[key] = (r != z3.unsat, list(pc))
        return self.feas[key][0]

    def assume(self, c):
        if isinstance(c, (list, tuple)):
            for x in c:
                if isinstance(x, tuple):
                    self.label(x[0], x[1])
                self.assume(x[1] if isinstance(x, tuple) else x)
            return
        if isinstance(c, bool):
            if not c:
                raise Dead
            return
        if self.pure:
            raise Unsupported("assumption under a quantifier")
        self.st.pc.append(c)

    def label(self, name, f):
        if is_z(f):
            self.names.setdefault(f.get_id(), (set(), f))[0].add(name)

    def assume_as(self, name, f):
        self.label(name, f)
        self.assume(f)

    def facts(self, *names):
        """The assumptions with one of these names (a name ending in * stands for a prefix)."""
        pre = tuple(n[:-1] for n in names if n.endswith("*"))
        return [p for p in self.st.pc if any(n in names or n.startswith(pre) and pre for n in self.names.get(p.get_id(), ((), 0))[0])]

    def require(self, kind, name, goal, using=None):
        """An obligation at this point (proved from the named assumptions only, when they are given)."""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        for vs, guard in reversed(self.pure):
            goal = z3.ForAll(vs, z3.Implies(z3.And(*guard), goal))
        if z3.is_true(z3.simplify(goal)):
            ok, det = True, ""
        elif self.quiet:
            ok, det = True, ""
        else:
            self.label(name, goal)
            pc = self.st.pc if using is None else self.facts(*using)
            key = (tuple(p.get_id() for p in pc), goal.get_id(), name)
            if key in self.memo:
                self.obligation_done(self.memo[key][0], goal)
                return
            r, m = self.check(pc, goal)
            self.memo[key] = (r == z3.unsat, goal, list(pc))
            ok = r == z3.unsat
            det = "" if ok else f"{r}; goal {str(goal)[:500]}" + (f"; counter-model {str(m)[:600]}" if m is not None else "")
        if not self.quiet:
            self.obligations.append((kind, f"{self.where()}{name}", ok, det))
        if not self.pure:
            self.st.pc.append(goal)

    def obligation_done(self, ok, goal):
        if not self.pure:
            self.st.pc.append(goal)

    def where(self):
        return f"{self.contract.name}: " if self.contract else ""

    def truth(self, v):
        """Value as a condition: bool or Z3 Bool."""
        if isinstance(v, Handle) or isinstance(v, FieldList):
            s = self.as_seq(v)
            if isinstance(s, Seq):
                return s.lo < s.hi
        if isinstance(v, (bool, int, float, str, type(None), tuple, list)):
            return bool(v)
        if is_z(v):
            if v.sort() == B:
                return z3.simplify(v) if False else v
            if v.sort() in (I, R):
                return v != 0
        if isinstance(v, Ref):
            if v.cls.startswith("?"):
                return v.t != unwrap(None, I)
            return True
        if callable(v) or inspect.ismodule(v):
            return True
        raise Unsupported(f"truth of {v!r}")

    def decide(self, cond):
        """Follow both outcomes of a condition, one per exploration run."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pure:
            raise Unsupported("a branch under a quantifier")
        r = self.choose(2)
        self.st.pc.append(cond if r == 0 else z3.Not(cond))
        if not self.feasible(self.st.pc):
            raise Dead
        return r == 0

    def choose(self, n):
        if self.pos < len(self.script):
            r = self.script[self.pos][0]
        else:
            r = 0
            self.script.append([0, n])
        self.pos += 1
        return r

    def explore(self, fn, st):
        """[(state, outcome)] for every path of fn from st; outcome is None or an exception object."""
        saved = self.script, self.pos
        self.script, self.pos = [], 0
        out = []
        # the same names on every run: a prefix shared by several paths gives the very same obligations
        n0, top = self.n, self.n
        try:
            while True:
                self.pos = 0
                self.n = n0
                self.st = st.copy()
                try:
                    fn()
                    out.append((self.st, None))
                except Dead:
                    pass
                except (Return, Break, Continue, Raised) as e:
                    out.append((self.st, e))
                top = max(top, self.n)
                if len(out) > 400:
                    raise Unsupported("too many paths")
                del self.script[self.pos:]
                while self.script and self.script[-1][0] + 1 >= self.script[-1][1]:
                    self.script.pop()
                if not self.script:
                    break
                self.script[-1][0] += 1
        finally:
            self.script, self.pos = saved
            self.n = max(top, self.n)
        return out

    def may_raise(self, exc, cond, what):
        """The operation raises exc when cond."""
        if isinstance(cond, bool) and not cond:
            return
        if any(issubclass(exc, h) for hs in self.handlers for h in hs) or (
                self.contract is not None and self.contract.raises and exc in self.contract.raises and not self.pure):
            if self.decide(cond):
                raise Raised(exc)
            return
        self.require("safe", f"{what}: no {exc.__name__}", z3.Not(cond) if is_z(cond) else not cond)

    # -- containers
    def new(self, c):
        self.n += 1
        oid = self.n
        self.st.store[oid] = c
        return Handle(oid)

    def local_oid(self, oid):
        return oid not in self.param_oids

    def empty_seq(self, ty):
        return Seq(z3.IntVal(0), z3.IntVal(0), z3.K(I, self.default(sort_of(ty))), ty,
                   z3.K(I, z3.IntVal(-1)) if sort_of(ty) == I else None)

    def default(self, sort):
        return {I: z3.IntVal(0), B: z3.BoolVal(False), R: z3.RealVal(0)}.get(sort, z3.Const("dflt", sort))

    def seq(self, name, ty, lo=None):
        """An arbitrary list."""
        s = Seq(z3.IntVal(0) if lo is None else lo, self.fresh(name + "_n", I), self.fresh(name, z3.ArraySort(I, sort_of(ty))), ty,
                self.fresh(name + "_pos", z3.ArraySort(I, I)) if sort_of(ty) == I else None)
        self.assume(s.lo <= s.hi)
        return self.new(s)

    def map(self, name, kty, vty):
        return self.new(Map(self.fresh(name + "_dom", z3.ArraySort(sort_of(kty), B)),
                            self.fresh(name, z3.ArraySort(sort_of(kty), sort_of(vty))), kty, vty))

    def set(self, name, kty):
        return self.new(Set(self.fresh(name, z3.ArraySort(sort_of(kty), B)), kty))

    def ref(self, name, cls):
        return Ref(self.fresh(name, I), cls)

    def type_of(self, v):
        if isinstance(v, Ref):
            return v.cls
        if is_z(v):
            return v.sort()
        if isinstance(v, bool):
            return B
        if isinstance(v, int):
            return I
        if isinstance(v, float):
            return FP if self.floats == "fp" else R
        if isinstance(v, str) or v is None:
            return I
        raise Unsupported(f"type of {v!r}")

    def as_seq(self, v):
        """Seq behind a value, or Unsupported."""
        if isinstance(v, Handle):
            c = self.st.store[v.oid]
            if isinstance(c, Empty):
                return Seq(z3.IntVal(0), z3.IntVal(0), z3.K(I, z3.IntVal(0)), I)
            return c
        if isinstance(v, FieldList):
            n, a = self.st.heap[v.field + "#len"][v.ref.t], self.st.heap[v.field + "#arr"][v.ref.t]
            return Seq(z3.IntVal(0), n, a, v.ty)
        return v

    def put_seq(self, v, s):
        if isinstance(v, Handle):
            self.st.store[v.oid] = s
        else:
            h = self.st.heap
            lo = z3.simplify(s.lo)
            if not (z3.is_int_value(lo) and lo.as_long() == 0):
                a = self.fresh("shift", s.arr.sort())
                i = z3.Int("i")
                self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.hi - s.lo), a[i] == s.arr[i + s.lo]), patterns=[a[i]]))
                s = Seq(z3.IntVal(0), s.hi - s.lo, a, s.ty)
            h[v.field + "#len"] = z3.Store(h[v.field + "#len"], v.ref.t, s.hi)
            h[v.field + "#arr"] = z3.Store(h[v.field + "#arr"], v.ref.t, s.arr)

    # -- running a function under its contract
    def verify(self, contract):
        self.contract = contract
        self.functions.add(contract.name)
        tree = fn_tree(contract.fn)
        self.st = State()
        self.param_oids = set()
        init = State()
        self.st = init
        for name, mk in contract.params.items():
            init.loc[name] = mk(self) if callable(mk) and not isinstance(mk, z3.SortRef) else wrap(self.fresh(name, sort_of(mk)), mk)
        for n, c in init.store.items():
            self.param_oids.add(n)
        self.init_heap(init)
        pre = S(self, init, vc_=self)
        for c in init.store.values():
            init.pc += c.facts()
        req = contract.requires(pre)
        self.assume(req)
        if not self.feasible(self.st.pc):
            self.obligations.append(("vacuity", f"{contract.name}: the precondition is satisfiable", False, ""))
        self.entry = init.copy()
        self.init_measure = contract.measure(pre) if contract.measure else None
        # default parameters that the contract does not fix
        defaults = default_args(contract.fn)
        for k, v in defaults.items():
            init.loc.setdefault(k, v)
        self.loop_no = {}
        self.depth = 0
        self.alive = {}

        def body():
            self.loop_no = {}
            self.globals = contract.fn.__globals__
            try:
                self.block(tree.body)
            except Return as r:
                self.result = r.value
            else:
                self.result = None
            self.at_exit(contract)
        ends = self.explore(body, init)
        self.living("the end of the function", [st for st, _ in ends])
        for what, ok in self.alive.items():
            self.obligations.append(("vacuity", f"{contract.name}: {what} can be reached", ok, "the assumptions are contradictory"))
        for st, e in ends:
            if isinstance(e, Raised):
                self.st = st
                if contract.raises and e.exc in contract.raises:
                    post = S(self, st, pre=S(self, self.entry))
                    self.require("post", f"{e.exc.__name__} only where allowed", contract.raises[e.exc](post))
                else:
                    self.require("safe", f"{getattr(e.exc, '__name__', e.exc)} is not raised", z3.BoolVal(False))
        self.contract = None

    def living(self, what, states):
        """The assumptions on some of these paths are not contradictory (as far as the solver can tell)."""
        if self.quiet or self.alive.get(what):
            return
        self.alive[what] = any(self.check(st.pc, z3.BoolVal(False), 1000)[0] != z3.unsat for st in states)

    def at_exit(self, contract):
        post = S(self, self.st, pre=S(self, self.entry), result=self.result)
        if isinstance(self.result, Handle):
            post.result = self.st.store[self.result.oid]
        post.value = self.result
        for name, g, *u in contract.ensures(post):
            self.require("post", name, g, *u)

    def init_heap(self, st):
        for cls, fs in self.fields.items():
            for f, ty in fs.items():
                if isinstance(ty, ListOf):
                    if f + "#len" not in st.heap:
                        st.heap[f + "#len"] = self.fresh(f + "_len", z3.ArraySort(I, I))
                        st.heap[f + "#arr"] = self.fresh(f, z3.ArraySort(I, z3.ArraySort(I, sort_of(ty.elem))))
                        r = z3.Int("r")
                        st.pc.append(z3.ForAll([r], st.heap[f + "#len"][r] >= 0))
                elif f not in st.heap and (isinstance(ty, (str, z3.SortRef))):
                    st.heap[f] = self.fresh(f, z3.ArraySort(I, sort_of(ty)))

    # -- statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, n):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(n).__name__}")
        m(n)

    def s_Expr(self, n):
        if not isinstance(n.value, ast.Constant):
            self.ev(n.value)

    def s_Pass(self, n):
        pass

    def s_Return(self, n):
        raise Return(None if n.value is None else self.ev(n.value))

    def s_Break(self, n):
        raise Break

    def s_Continue(self, n):
        raise Continue

    def s_Assert(self, n):
        c = self.truth(self.ev(n.test))
        self.require("assert", f"assert {ast.unparse(n.test)}", c)

    def s_Raise(self, n):
        v = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
        exc = self.ev(v)
        raise Raised(exc)

    def s_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v)

    def s_AnnAssign(self, n):
        if n.value is not None:
            v = self.ev(n.value)
            if isinstance(v, Handle) and isinstance(self.st.store[v.oid], Empty):
                self.annotate(v, n.annotation)
            self.assign(n.target, v)

    def annotate(self, v, a):
        """Element types of a new container, from its annotation when that is simple."""
        names = {"int": I, "bool": B, "float": FP if self.floats == "fp" else R, "str": I, "Layer": "Layer"}
        try:
            if isinstance(a, ast.Subscript):
                base = ast.unparse(a.value)
                el = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
                ts = [names[ast.unparse(e).split(" |")[0]] for e in el]
                self.fix(v, *ts)
                del base
        except (KeyError, AttributeError):
            pass

    def fix(self, v, *ts):
        c = self.st.store[v.oid]
        if not isinstance(c, Empty):
            return c
        if c.what == "list":
            c = self.empty_seq(ts[0])
        elif c.what == "map":
            c = Map(z3.K(sort_of(ts[0]), z3.BoolVal(False)), z3.K(sort_of(ts[0]), self.default(sort_of(ts[1]))), ts[0], ts[1])
        else:
            c = Set(z3.K(sort_of(ts[0]), z3.BoolVal(False)), ts[0])
        self.st.store[v.oid] = c
        return c

    def s_AugAssign(self, n):
        t = n.target
        cur = self.ev(ast.copy_location(to_load(t), t))
        v = self.ev(n.value)
        if isinstance(n.op, ast.Add) and isinstance(cur, Handle):
            self.call_method(cur, "extend", [v], {})
            return
        self.assign(t, self.binop(n.op, cur, v))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.st.loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for a, b in zip(t.elts, vs):
                self.assign(a, b)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev(t.slice), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        else:
            raise Unsupported(f"assignment to {ast.unparse(t)}")

    def unpack(self, v, n):
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise Raised(ValueError)
            return list(v)
        raise Unsupported(f"unpacking {v!r}")

    def s_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                o, k = self.ev(t.value), self.ev(t.slice)
                c = self.st.store[o.oid]
                if isinstance(c, Map):
                    kk = unwrap(k, sort_of(c.kty))
                    self.may_raise(KeyError, z3.Not(c.dom[kk]), ast.unparse(t))
                    self.st.store[o.oid] = Map(z3.Store(c.dom, kk, z3.BoolVal(False)), c.val, c.kty, c.vty)
                    continue
            raise Unsupported("del")

    def s_If(self, n):
        if self.decide(self.cond(n.test)):
            self.block(n.body)
        else:
            self.block(n.orelse)

    def cond(self, e):
        return self.truth(self.ev(e))

    def s_Try(self, n):
        kinds = []
        for h in n.handlers:
            if h.type is None:
                kinds.append(BaseException)
            else:
                t = self.ev(h.type)
                kinds += list(t) if isinstance(t, tuple) else [t]
        self.handlers.append(kinds)
        try:
            try:
                self.block(n.body)
            finally:
                self.handlers.pop()
        except Raised as r:
            for h in n.handlers:
                t = BaseException if h.type is None else self.ev(h.type)
                if issubclass(r.exc, t):
                    self.block(h.body)
                    break
            else:
                raise
        else:
            self.block(n.orelse)
        if n.finalbody:
            raise Unsupported("finally")

    def s_With(self, n):
        for i in n.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        self.block(n.body)

    # -- loops
    def view(self, v):
        if isinstance(v, View):
            return v
        if isinstance(v, (list, tuple)) and not any(False for _ in v):
            return v
        if isinstance(v, range):
            return v
        if isinstance(v, Handle):
            c = self.st.store[v.oid]
            if isinstance(c, Empty):
                return []
            if isinstance(c, Seq):
                return View(c.lo, c.hi, c.get, [v])
            w = self.keys(c)
            w.of.append(v)
            return w
        if isinstance(v, FieldList):
            s = self.as_seq(v)
            return View(s.lo, s.hi, s.get, [v])
        raise Unsupported(f"iterating over {v!r}")

    def keys(self, c):
        """The keys of a map or set in some order: every key once."""
        ty = c.kty
        s = Seq(z3.IntVal(0), self.fresh("nkeys", I), self.fresh("keys", z3.ArraySort(I, sort_of(ty))), ty)
        pos = self.fresh("keypos", z3.ArraySort(sort_of(ty), I))
        i = z3.Int("i")
        x = z3.Const("x", sort_of(ty))
        self.assume(s.hi >= 0)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.hi), z3.And(c.dom[s.arr[i]], pos[s.arr[i]] == i)),
                              patterns=[s.arr[i]]))
        self.assume(z3.ForAll([x], z3.Implies(c.dom[x], z3.And(0 <= pos[x], pos[x] < s.hi, s.arr[pos[x]] == x)),
                              patterns=[c.dom[x]]))
        return View(s.lo, s.hi, s.get)

    def collects(self, n):
        """for x in xs: [if c:] L.append(e)  (or D[k] = v) into a new container: (its name, the same as a comprehension)."""
        body, ifs = list(n.body), []
        while len(body) > 1 and isinstance(body[0], ast.If) and not body[0].orelse and [type(x) for x in body[0].body] == [ast.Continue]:
            ifs.append(ast.UnaryOp(ast.Not(), body[0].test))
            del body[0]
        while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
            ifs.append(body[0].test)
            body = body[0].body
        if len(body) != 1 or n.orelse:
            return None
        b = body[0]
        gens = [ast.comprehension(n.target, n.iter, ifs, 0)]
        if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Subscript) and isinstance(b.targets[0].value, ast.Name):
            name, what, e = b.targets[0].value.id, "map", ast.DictComp(b.targets[0].slice, b.value, gens)
        elif (isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append"
              and isinstance(b.value.func.value, ast.Name) and len(b.value.args) == 1 and not b.value.keywords):
            name, what, e = b.value.func.value.id, "list", ast.ListComp(b.value.args[0], gens)
        else:
            return None
        h = self.st.loc.get(name)
        if not isinstance(h, Handle) or not isinstance(self.st.store[h.oid], Empty) or self.st.store[h.oid].what != what:
            return None
        targets = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(e)) or name in targets:
            return None
        return h, ast.fix_missing_locations(ast.copy_location(e, n)), targets

    def s_For(self, n):
        c = self.collects(n) if not self.pure else None
        if c is not None and isinstance(self.view(self.ev(n.iter)), View):
            state = self.st.copy()
            try:
                v = self.ev(c[1])
                self.st.store[c[0].oid] = self.st.store[v.oid]
                for x in c[2]:
                    self.st.loc[x] = UNDEF
                return
            except Unsupported:
                self.st = state
        it = self.view(self.ev(n.iter))
        if not isinstance(it, View):
            # a container whose elements are all known: no cut needed
            broke = False
            for x in it:
                self.assign(n.target, x)
                try:
                    self.block(n.body)
                except Break:
                    broke = True
                    break
                except Continue:
                    continue
            if not broke:
                self.block(n.orelse)
            return
        self.cut(n, it)

    def s_While(self, n):
        self.cut(n, None)

    def loop_id(self, n):
        return self.loop_no.setdefault(id(n), len(self.loop_no))

    def cut(self, n, it):
        no = self.loop_id(n)
        if self.pure:
            raise Unsupported("loop under a quantifier")
        if no >= len(self.contract.loops):
            raise Unsupported(f"loop {no} ({ast.unparse(n).splitlines()[0]}) has no invariant")
        inv = self.contract.loops[no]
        label = f"loop {no}"
        start = self.st.copy()
        k = self.fresh("k", I)

        def view(st, kk, **kw):
            return S(self, st, k=kk, it=it, pre=S(self, self.entry), start=S(self, start), **kw)

        def bodyrun():
            if it is not None:
                self.assume(z3.And(it.lo <= k, k < it.hi))
                self.assign(n.target, it.get(k))
            else:
                if not self.decide(self.cond(n.test)):
                    raise Dead
            self.block(n.body)

        # what the body may change (found by running it until no more changes appear)
        mod_loc, mod_store, mod_heap = set(), set(), set()
        tainted = set()
        self.quiet += 1
        try:
            for _ in range(12):
                st = self.havoc(start, mod_loc, mod_store, mod_heap)
                before = (len(mod_loc), len(mod_store), len(mod_heap), len(tainted))
                fixes = {}
                for s2, e in self.explore(bodyrun, st):
                    for name, v in s2.loc.items():
                        if name not in st.loc or not same_value(st.loc[name], v):
                            mod_loc.add(name)
                            if name not in start.loc or start.loc[name] is UNDEF:
                                tainted.add(name)
                    for oid, c in s2.store.items():
                        if oid in st.store and not st.store[oid].same(c):
                            mod_store.add(oid)
                            if isinstance(st.store[oid], Empty):
                                fixes[oid] = c
                    for f, a in s2.heap.items():
                        if not a.eq(st.heap[f]):
                            mod_heap.add(f)
                for oid, c in fixes.items():
                    # the element type of a new container becomes known
                    if oid in start.store and isinstance(start.store[oid], Empty):
                        tys = (c.ty,) if isinstance(c, Seq) else (c.kty, c.vty) if isinstance(c, Map) else (c.kty,)
                        self.st = start
                        self.fix(Handle(oid), *tys)
                if before == (len(mod_loc), len(mod_store), len(mod_heap), len(tainted)) and not fixes:
                    break
            else:
                raise Unsupported("loop changes do not settle")
        finally:
            self.quiet -= 1
        targets = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)} if it is not None else set()
        # entry
        self.st = start.copy()
        lo = it.lo if it is not None else z3.IntVal(0)
        for name, g in inv(view(self.st, lo)):
            self.require("inv", f"{label}: {name} holds on entry", g)
        # preservation
        st = self.havoc(start, mod_loc - tainted, mod_store, mod_heap)
        for x in tainted | targets:
            st.loc[x] = UNDEF
        self.st = st
        if it is None:
            self.assume(k >= 0)
        else:
            self.assume(z3.And(it.lo <= k, k <= it.hi))
        self.assume(list(inv(view(st, k))))
        measure = getattr(inv, "measure", None)
        m0 = measure(view(st, k)) if measure else None
        exits = []

        def run():
            try:
                bodyrun()
            except Continue:
                pass
            for o in (it.of if it is not None else ()):
                # Python iterates over the list itself, not over a copy
                a, b = (self.content(o, x) for x in (start, self.st))
                if any(not x.eq(y) for x, y in zip(a, b)):
                    self.require("frame", f"{label}: the container iterated over does not change", z3.And(*[x == y for x, y in zip(a, b)]))
            for name, g in inv(view(self.st, k + 1)):
                self.require("inv", f"{label}: {name} is preserved", g)
            if it is None:
                if m0 is None:
                    raise Unsupported("while loop without measure")
                m1 = measure(view(self.st, k + 1))
                self.require("term", f"{label}: the measure decreases", z3.And(m1 >= 0, m1 < m0) if not isinstance(m0, tuple) else lex(m1, m0))
        base = self.st.copy()
        paths = self.explore(run, base)
        self.living(f"the end of {label}'s body", [s2 for s2, _ in paths])
        for s2, e in paths:
            if isinstance(e, (Break, Return, Raised)):
                exits.append((s2, e))
        # after the loop
        w = self.choose(1 + len(exits))
        if w:
            s2, e = exits[w - 1]
            self.st = s2.copy()
            if isinstance(e, Break):
                return
            raise e
        self.st = base.copy()
        if it is not None:
            self.st.pc.append(k == it.hi)
        else:
            c = self.cond(n.test)
            self.assume(z3.Not(c) if is_z(c) else not c)
        if not self.feasible(self.st.pc):
            raise Dead
        self.block(n.orelse)

    def content(self, v, st):
        if isinstance(v, Handle):
            c = st.store[v.oid]
            return (c.lo, c.hi, c.arr) if isinstance(c, Seq) else (c.dom,)
        return st.heap[v.field + "#len"][v.ref.t], st.heap[v.field + "#arr"][v.ref.t]

    def havoc(self, start, loc, store, heap):
        st = start.copy()
        for name in loc:
            if name in st.loc:
                st.loc[name] = self.havoc_value(st.loc[name])
        for oid in store:
            c = st.store[oid].fresh(self)
            st.store[oid] = c
            st.pc += c.facts()
        for f in heap:
            st.heap[f] = self.fresh(f.replace("#", "_"), st.heap[f].sort())
            if f.endswith("#len"):
                r = z3.Int("r")
                st.pc.append(z3.ForAll([r], st.heap[f][r] >= 0))
        return st

    def havoc_value(self, v):
        if isinstance(v, Ref):
            return Ref(self.fresh("ref", I), v.cls)
        if is_z(v):
            return self.fresh("v", v.sort())
        if isinstance(v, bool):
            return self.fresh("b", B)
        if isinstance(v, int):
            return self.fresh("n", I)
        if isinstance(v, float):
            return self.fresh("x", FP if self.floats == "fp" else R)
        if v is UNDEF:
            return v
        if isinstance(v, str):
            return self.fresh("s", I)
        if isinstance(v, tuple):
            return tuple(self.havoc_value(x) for x in v)
        raise Unsupported(f"a loop changes a variable holding {v!r}")

    # -- expressions
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n)

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        if n.id in self.st.loc:
            v = self.st.loc[n.id]
            if v is UNDEF:
                raise Unsupported(f"variable {n.id} may be unbound")
            return v
        g = self.globals
        if n.id in g:
            return g[n.id]
        b = __builtins__ if isinstance(__builtins__, dict) else vars(__builtins__)
        if n.id in b:
            return b[n.id]
        raise Unsupported(f"unbound {n.id}")

    def e_Tuple(self, n):
        return tuple(self.ev(e) for e in n.elts)

    def e_JoinedStr(self, n):
        return "<text>"

    def e_List(self, n):
        vs = [self.ev(e) for e in n.elts]
        if not vs:
            return self.new(Empty("list"))
        if all(is_z(v) or isinstance(v, (Ref, int, float)) for v in vs) and len({str(self.type_of(v)) for v in vs}) == 1:
            ty = self.type_of(vs[0])
            c = self.empty_seq(ty)
            for v in vs:
                c = Seq(c.lo, c.hi + 1, z3.Store(c.arr, c.hi, unwrap(v, sort_of(ty))), ty)
            if len(vs) > 1 and any(isinstance(v, Ref) or isinstance(v, int) for v in vs):
                return list(vs)
            return self.new(c)
        return list(vs)

    def e_Dict(self, n):
        if not n.keys:
            return self.new(Empty("map"))
        raise Unsupported("dict display")

    def e_Set(self, n):
        h = self.new(Empty("set"))
        for e in n.elts:
            self.call_method(h, "add", [self.ev(e)], {})
        return h

    def e_IfExp(self, n):
        c = self.cond(n.test)
        if isinstance(c, bool):
            return self.ev(n.body if c else n.orelse)
        if not self.pure:
            return self.ev(n.body if self.decide(c) else n.orelse)
        a, b = self.ev(n.body), self.ev(n.orelse)
        ty = self.type_of(a)
        return wrap(z3.If(c, unwrap(a, sort_of(ty)), unwrap(b, sort_of(ty))), ty)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)
        out = None
        for k, e in enumerate(n.values):
            if out is not None and self.pure:
                self.pure.append(([], [out if is_and else z3.Not(out)])) if is_z(out) else None
                try:
                    c = self.cond(e)
                finally:
                    if is_z(out):
                        self.pure.pop()
            else:
                c = self.cond(e)
            if isinstance(c, bool):
                if c != is_and:
                    return c if out is None or True else out
                continue
            if not self.pure and k + 1 < len(n.values):
                # short circuit: the remaining operands are evaluated only on one side
                if self.decide(c) != is_and:
                    return not is_and
                continue
            out = c if out is None else (z3.And(out, c) if is_and else z3.Or(out, c))
        return is_and if out is None else out

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            c = self.cond(n.operand)
            return (not c) if isinstance(c, bool) else z3.Not(c)
        v = self.ev(n.operand)
        if isinstance(n.op, ast.USub):
            return z3.fpNeg(v) if is_z(v) and v.sort() == FP else -v
        return v

    def e_BinOp(self, n):
        return self.binop(n.op, self.ev(n.left), self.ev(n.right))

    def binop(self, op, a, b):
        if isinstance(a, str) or isinstance(b, str):
            return "<text>"
        if isinstance(a, (Handle, FieldList)) or isinstance(b, (Handle, FieldList)):
            if isinstance(op, ast.Add):
                return self.concat(a, b)
            raise Unsupported("list arithmetic")
        if isinstance(a, Ref) or isinstance(b, Ref):
            raise Unsupported("arithmetic on objects")
        if not is_z(a) and not is_z(b):
            return eval(compile(ast.Expression(ast.fix_missing_locations(ast.BinOp(ast.Name("a", ast.Load()), op, ast.Name("b", ast.Load())))), "", "eval"),
                        {"a": a, "b": b})
        srt = self.join(a, b)
        if srt == FP:
            x, y = unwrap(a, FP), unwrap(b, FP)
            rm = z3.RNE()
            f = {ast.Add: z3.fpAdd, ast.Sub: z3.fpSub, ast.Mult: z3.fpMul, ast.Div: z3.fpDiv}.get(type(op))
            if f is None:
                raise Unsupported("float operation")
            if isinstance(op, ast.Div):
                self.may_raise(ZeroDivisionError, z3.fpIsZero(y), "division")
            return f(rm, x, y)
        if srt == B:
            x, y = unwrap(a, B), unwrap(b, B)
            if isinstance(op, ast.BitAnd):
                return z3.And(x, y)
            if isinstance(op, ast.BitOr):
                return z3.Or(x, y)
            if isinstance(op, ast.BitXor):
                return z3.Xor(x, y)
            srt = I
        x, y = unwrap(a, srt), unwrap(b, srt)
        if isinstance(op, ast.Add):
            return x + y
        if isinstance(op, ast.Sub):
            return x - y
        if isinstance(op, ast.Mult):
            return x * y
        if isinstance(op, ast.Div):
            x, y = unwrap(a, R), unwrap(b, R)
            self.may_raise(ZeroDivisionError, y == 0, "division")
            return x / y
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and srt == I:
            self.may_raise(ZeroDivisionError, y == 0, "division")
            self.require("model", "positive divisor", y > 0)
            return x / y if isinstance(op, ast.FloorDiv) else x % y
        if isinstance(op, ast.Pow) and not is_z(a) and a == 2 and srt == I:
            return POW2(y)
        raise Unsupported(f"operator {type(op).__name__} on {srt}")

    def concat(self, a, b):
        x, y = self.as_seq(a), self.as_seq(b)
        if isinstance(a, Handle) and isinstance(self.st.store[a.oid], Empty):
            x = Seq(x.lo, x.hi, y.arr, y.ty, y.pos)
        if isinstance(b, Handle) and isinstance(self.st.store[b.oid], Empty):
            y = Seq(z3.IntVal(0), z3.IntVal(0), x.arr, x.ty, x.pos)
        r = Seq(z3.IntVal(0), (x.hi - x.lo) + (y.hi - y.lo), self.fresh("concat", x.arr.sort()), x.ty)
        i = z3.Int("i")
        n = x.hi - x.lo
        self.assume_as('concat', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r.hi),
                                              r.arr[i] == z3.If(i < n, x.arr[x.lo + i], y.arr[y.lo + i - n])), patterns=[r.arr[i]]))
        j = z3.Int("j")
        self.assume_as('concat', z3.ForAll([j], z3.Implies(z3.And(x.lo <= j, j < x.hi), r.arr[j - x.lo] == x.arr[j]), patterns=[x.arr[j]]))
        self.assume_as('concat', z3.ForAll([j], z3.Implies(z3.And(y.lo <= j, j < y.hi), r.arr[j - y.lo + n] == y.arr[j]), patterns=[y.arr[j]]))
        if x.pos is not None and y.pos is not None:
            r.pos = self.fresh("pos", x.pos.sort())
            e = z3.Int("e")
            self.assume_as('concat', z3.ForAll([e], r.pos[e] == z3.If(x.has(e), x.pos[e] - x.lo, y.pos[e] - y.lo + n), patterns=[r.pos[e]]))
        return self.new(r)

    def join(self, a, b):
        ss = {v.sort() if is_z(v) else self.type_of(v) for v in (a, b)}
        for s in (FP, R, I, B):
            if s in ss:
                return s
        raise Unsupported(f"operands {a!r} {b!r}")

    def e_Compare(self, n):
        left = self.ev(n.left)
        out = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            c = self.compare(op, left, right)
            out = c if out is None else (c if out is True else False if out is False or c is False else out if c is True else z3.And(out, c))
            left = right
        return out

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(b, a)
            return c if isinstance(op, ast.In) else (not c if isinstance(c, bool) else z3.Not(c))
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            c = self.equal(a, b, isinstance(op, (ast.Is, ast.IsNot)))
            return c if isinstance(op, (ast.Is, ast.Eq)) else (not c if isinstance(c, bool) else z3.Not(c))
        if not is_z(a) and not is_z(b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        s = self.join(a, b)
        x, y = unwrap(a, s), unwrap(b, s)
        if s == FP:
            return {ast.Lt: z3.fpLT, ast.LtE: z3.fpLEQ, ast.Gt: z3.fpGT, ast.GtE: z3.fpGEQ}[type(op)](x, y)
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]

    def equal(self, a, b, identity=False):
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.t == b.t
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, Ref):
                return o.t == unwrap(None, I) if o.cls.startswith("?") else False
            if is_z(o) and o.sort() == I and getattr(self, "none_int", False):
                return o == unwrap(None, I)
            return False
        if isinstance(a, Ref) != isinstance(b, Ref):
            o = b if isinstance(a, Ref) else a
            r = a if isinstance(a, Ref) else b
            if isinstance(o, str) or is_z(o):
                return r.t == unwrap(o, I)
            return False
        if not is_z(a) and not is_z(b):
            if isinstance(a, Handle) or isinstance(b, Handle):
                if identity:
                    return isinstance(a, Handle) and isinstance(b, Handle) and a.oid == b.oid
                raise Unsupported("container equality")
            return (a is b) if identity and not isinstance(a, (int, str, float)) else bool(a == b)
        if isinstance(a, str) or isinstance(b, str):
            return unwrap(a, I) == unwrap(b, I)
        s = self.join(a, b)
        if s == FP:
            return z3.fpEQ(unwrap(a, FP), unwrap(b, FP))
        return unwrap(a, s) == unwrap(b, s)

    def contains(self, c, v):
        if isinstance(c, Handle):
            c = self.st.store[c.oid]
            if isinstance(c, Empty):
                return False
            if isinstance(c, (Map, Set)):
                return c.dom[unwrap(v, sort_of(c.kty))]
        if isinstance(c, FieldList):
            c = self.as_seq(c)
        if isinstance(c, View) or isinstance(c, Seq):
            i = self.fresh("i", I)
            x = unwrap(c.get(i), None)
            return z3.Exists([i], z3.And(c.lo <= i, i < c.hi, x == unwrap(v, x.sort())))
        if isinstance(c, (tuple, list)):
            cs = [self.equal(x, v) for x in c]
            if all(isinstance(x, bool) for x in cs):
                return any(cs)
            return z3.Or(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in cs])
        raise Unsupported(f"membership in {c!r}")

    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr)

    def getattr(self, o, f):
        if isinstance(o, Ref):
            ty = self.fields.get(o.cls.lstrip("?"), {}).get(f)
            if ty is None:
                raise Unsupported(f"field {o.cls}.{f}")
            if o.cls.startswith("?"):
                self.may_raise(AttributeError, o.t == unwrap(None, I), f".{f}")
            if callable(ty) and not isinstance(ty, (z3.SortRef, ListOf)):
                return ty(self, o)
            if isinstance(ty, ListOf):
                return FieldList(o, f, ty.elem)
            return wrap(self.st.heap[f][o.t], ty)
        if isinstance(o, (Handle, FieldList, View, Seq)):
            return Method(o, f)
        if is_z(o):
            return Method(o, f)
        return getattr(o, f)

    def setattr(self, o, f, v):
        if not isinstance(o, Ref):
            raise Unsupported(f"attribute assignment on {o!r}")
        ty = self.fields.get(o.cls, {}).get(f)
        if ty is None:
            raise Unsupported(f"field {o.cls}.{f}")
        if isinstance(ty, ListOf):
            s = self.as_seq(v)
            if isinstance(v, Handle) and isinstance(self.st.store[v.oid], Empty):
                s = Seq(z3.IntVal(0), z3.IntVal(0), self.st.heap[f + "#arr"][o.t], ty.elem)
            self.put_seq(FieldList(o, f, ty.elem), s)
            return
        if self.pure:
            raise Unsupported("assignment under a quantifier")
        self.st.heap[f] = z3.Store(self.st.heap[f], o.t, unwrap(v, sort_of(ty)))

    def e_Subscript(self, n):
        o = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            lo = None if n.slice.lower is None else self.ev(n.slice.lower)
            hi = None if n.slice.upper is None else self.ev(n.slice.upper)
            return self.slice(o, lo, hi)
        return self.getitem(o, self.ev(n.slice), ast.unparse(n))

    def slice(self, o, lo, hi):
        if isinstance(o, (tuple, list, str)) and not is_z(lo) and not is_z(hi):
            return o[lo:hi]
        s = self.as_seq(o)
        if not isinstance(s, Seq):
            raise Unsupported("slice")
        n = s.hi - s.lo

        def clip(v, d):
            if v is None:
                return d
            v = unwrap(v, I)
            v = z3.If(v < 0, v + n, v)
            return z3.If(v < 0, z3.IntVal(0), z3.If(v > n, n, v))
        a, b = clip(lo, z3.IntVal(0)), clip(hi, n)
        return self.new(Seq(z3.simplify(s.lo + a), z3.simplify(s.lo + z3.If(b < a, a, b)), s.arr, s.ty))

    def getitem(self, o, k, what):
        if isinstance(o, (tuple, list, str)) and not is_z(k):
            return o[k]
        c = self.st.store[o.oid] if isinstance(o, Handle) else self.as_seq(o) if isinstance(o, FieldList) else o
        if isinstance(c, Map):
            kk = unwrap(k, sort_of(c.kty))
            self.may_raise(KeyError, z3.Not(c.dom[kk]), what)
            return wrap(c.val[kk], c.vty)
        if isinstance(c, Empty):
            self.may_raise(KeyError if c.what == "map" else IndexError, z3.BoolVal(True), what)
            raise Dead
        if isinstance(c, (Seq, View)):
            i = unwrap(k, I)
            n = c.hi - c.lo
            self.may_raise(IndexError, z3.Not(z3.And(-n <= i, i < n)), what)
            if not is_z(k):
                return c.get(z3.simplify(c.lo + k if k >= 0 else c.hi + k))
            return c.get(z3.If(i >= 0, c.lo + i, c.hi + i) if not self.nonneg(i) else c.lo + i)
        if isinstance(o, dict):
            return o[k]
        raise Unsupported(f"subscript of {o!r}")

    def nonneg(self, i):
        if self.pure:
            return self.check(self.st.pc + [g for _, gs in self.pure for g in gs], i >= 0, 2000)[0] == z3.unsat
        return self.check(self.st.pc, i >= 0, 2000)[0] == z3.unsat

    def setitem(self, o, k, v):
        if self.pure:
            raise Unsupported("store under a quantifier")
        if isinstance(o, Handle):
            c = self.st.store[o.oid]
            if isinstance(c, Empty) and c.what == "map":
                c = self.fix(o, self.type_of(k), self.type_of(v))
            if isinstance(c, Map):
                kk = unwrap(k, sort_of(c.kty))
                self.st.store[o.oid] = Map(z3.Store(c.dom, kk, z3.BoolVal(True)), z3.Store(c.val, kk, unwrap(v, sort_of(c.vty))), c.kty, c.vty)
                return
        s = self.as_seq(o)
        if isinstance(s, Seq):
            i = unwrap(k, I)
            n = s.hi - s.lo
            self.may_raise(IndexError, z3.Not(z3.And(-n <= i, i < n)), "store")
            at = z3.simplify(s.lo + i) if self.nonneg(i) else z3.If(i >= 0, s.lo + i, s.hi + i)
            self.put_seq(o, Seq(s.lo, s.hi, z3.Store(s.arr, at, unwrap(v, sort_of(s.ty))), s.ty))
            return
        raise Unsupported("item assignment")

    # -- comprehensions
    def e_GeneratorExp(self, n):
        return Gen(n)

    def quantify(self, gen, is_all):
        n = gen.node
        if len(n.generators) != 1:
            raise Unsupported("nested generator")
        g = n.generators[0]
        it = self.view(self.ev(g.iter))
        saved = dict(self.st.loc)
        if not isinstance(it, View):
            out = is_all
            for x in it:
                self.assign(g.target, x)
                conds = [self.cond(c) for c in g.ifs]
                v = self.cond(n.elt)
                if all(isinstance(c, bool) for c in (*conds, v)):
                    if all(conds) and v != is_all:
                        self.st.loc = saved
                        return v
                    continue
                zs = [z3.BoolVal(c) if isinstance(c, bool) else c for c in conds]
                v = z3.BoolVal(v) if isinstance(v, bool) else v
                t = z3.Implies(z3.And(*zs), v) if is_all else z3.And(*zs, v)
                out = t if isinstance(out, bool) else (z3.And(out, t) if is_all else z3.Or(out, t))
            self.st.loc = saved
            return out
        i = self.fresh("q", I)
        guard = [it.lo <= i, i < it.hi]
        self.pure.append(([i], guard))
        try:
            self.assign(g.target, it.get(i))
            for c in g.ifs:
                x = self.cond(c)
                guard.append(z3.BoolVal(x) if isinstance(x, bool) else x)
            v = self.cond(n.elt)
        finally:
            self.pure.pop()
            self.st.loc = saved
        v = z3.BoolVal(v) if isinstance(v, bool) else v
        return z3.ForAll([i], z3.Implies(z3.And(*guard), v)) if is_all else z3.Exists([i], z3.And(*guard, v))

    def e_ListComp(self, n):
        if len(n.generators) != 1:
            raise Unsupported("nested comprehension")
        g = n.generators[0]
        it = self.view(self.ev(g.iter))
        saved = dict(self.st.loc)
        if not isinstance(it, View):
            out = []
            for x in it:
                self.assign(g.target, x)
                if all(self.decide(self.cond(c)) for c in g.ifs):
                    out.append(self.ev(n.elt))
            self.st.loc = saved
            return out if out else self.new(Empty("list"))
        i = self.fresh("q", I)
        guard = [it.lo <= i, i < it.hi]
        self.pure.append(([i], guard))
        try:
            self.assign(g.target, it.get(i))
            for c in g.ifs:
                x = self.cond(c)
                guard.append(z3.BoolVal(x) if isinstance(x, bool) else x)
            v = self.ev(n.elt)
            ty = self.type_of(v)
            t = unwrap(v, sort_of(ty))
        finally:
            self.pure.pop()
            self.st.loc = saved
        r = Seq(z3.IntVal(0), self.fresh("len", I), self.fresh("comp", z3.ArraySort(I, sort_of(ty))), ty)
        if not g.ifs:
            self.assume(r.hi == it.hi - it.lo)
            j = self.fresh("j", I)
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r.hi), r.arr[j] == z3.substitute(t, (i, it.lo + j))), patterns=[r.arr[j]]))
            src = unwrap(it.get(i), None)
            if is_z(src) and has_var(src, i) and not z3.is_var(src) and src.num_args():
                self.assume_as("comprehension", z3.ForAll([i], z3.Implies(z3.And(it.lo <= i, i < it.hi), z3.And(
                    r.arr[i - it.lo] == t, 0 <= i - it.lo, i - it.lo < r.hi)), patterns=[src]))
        else:
            # the elements that satisfy the filter, in order: src is increasing and onto
            src = self.fresh("src", z3.ArraySort(I, I))
            inv = self.fresh("dst", z3.ArraySort(I, I))
            j, j2 = self.fresh("j", I), self.fresh("j", I)
            ok = z3.And(*guard)
            self.assume(r.hi >= 0)
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r.hi), z3.And(
                z3.substitute(ok, (i, src[j])), r.arr[j] == z3.substitute(t, (i, src[j])), inv[src[j]] == j)), patterns=[r.arr[j]]))
            self.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < r.hi), src[j] < src[j2]), patterns=[z3.MultiPattern(src[j], src[j2])]))
            self.assume(z3.ForAll([i], z3.Implies(ok, z3.And(0 <= inv[i], inv[i] < r.hi, src[inv[i]] == i)), patterns=[unwrap(it.get(i), None)] if has_var(unwrap(it.get(i), None), i) else []))
            r.src, r.dst = src, inv
            if sort_of(ty) == I:
                # one place of every element
                r.pos = self.fresh("pos", z3.ArraySort(I, I))
                at = r.pos[r.arr[j]]
                self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r.hi), z3.And(0 <= at, at < r.hi, r.arr[at] == r.arr[j])), patterns=[r.arr[j]]))
        return self.new(r)

    def e_DictComp(self, n):
        """{key: value for x in xs}: the last value wins."""
        if len(n.generators) != 1 or n.generators[0].ifs:
            raise Unsupported("dict comprehension")
        g = n.generators[0]
        it = self.view(self.ev(g.iter))
        if not isinstance(it, View):
            raise Unsupported("dict comprehension over known elements")
        i = self.fresh("q", I)
        saved = dict(self.st.loc)
        self.pure.append(([i], [it.lo <= i, i < it.hi]))
        try:
            self.assign(g.target, it.get(i))
            kv, vv = self.ev(n.key), self.ev(n.value)
            kty, vty = self.type_of(kv), self.type_of(vv)
            kt, vt = unwrap(kv, sort_of(kty)), unwrap(vv, sort_of(vty))
        finally:
            self.pure.pop()
            self.st.loc = saved
        m = Map(self.fresh("dom", z3.ArraySort(sort_of(kty), B)), self.fresh("val", z3.ArraySort(sort_of(kty), sort_of(vty))), kty, vty)
        last = self.fresh("last", z3.ArraySort(sort_of(kty), I))
        x = z3.Const("x", sort_of(kty))
        rng = z3.And(it.lo <= i, i < it.hi)
        self.assume(z3.ForAll([i], z3.Implies(rng, z3.And(m.dom[kt], last[kt] >= i)), patterns=[unwrap(it.get(i), None)]))
        at = last[x]
        self.assume(z3.ForAll([x], z3.Implies(m.dom[x], z3.And(it.lo <= at, at < it.hi, z3.substitute(kt, (i, at)) == x,
                                                              m.val[x] == z3.substitute(vt, (i, at)))), patterns=[m.dom[x]]))
        return self.new(m)

    # -- calls
    def e_Call(self, n):
        f = self.ev(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                raise Unsupported("starred argument")
            args.append(self.ev(a))
        kw = {k.arg: self.ev(k.value) for k in n.keywords}
        if isinstance(f, Method):
            return self.call_method(f.obj, f.name, args, kw)
        return self.call(f, args, kw, n)

    def call(self, f, args, kw, n=None):
        if f in self.models:
            return self.models[f](self, *args, **kw)
        name = getattr(f, "__name__", "")
        h = getattr(self, "b_" + name, None)
        if h is not None and (getattr(f, "__module__", None) in ("builtins", "_collections", "collections", "itertools")):
            return h(*args, **kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return f
        fn = getattr(f, "__func__", f)
        if fn in self.contracts:
            return self.call_contract(self.contracts[fn], args, kw)
        if inspect.isfunction(fn) and (fn.__module__ or "").startswith("acetone_nnet"):
            return self.inline(fn, args, kw)
        if getattr(f, "__module__", "") == "logging" or name in ("info", "warning", "debug", "print"):
            return None
        raise Unsupported(f"call of {f!r}")

    def bind(self, fn, args, kw):
        sig = inspect.signature(fn)
        b = sig.bind(*args, **kw)
        b.apply_defaults()
        return dict(b.arguments)

    def inline(self, fn, args, kw):
        if self.pure:
            tree = fn_tree(fn)
            body = [s for s in tree.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if len(body) != 1 or not isinstance(body[0], ast.Return):
                raise Unsupported("call under a quantifier")
        self.depth = getattr(self, "depth", 0) + 1
        if self.depth > 8:
            raise Unsupported("recursion without a contract")
        saved_loc, saved_g = self.st.loc, self.globals
        self.functions.add(fn.__qualname__)
        self.st.loc = self.bind(fn, args, kw)
        self.globals = fn.__globals__
        try:
            try:
                self.block(fn_tree(fn).body)
                r = None
            except Return as e:
                r = e.value
            except (Dead, Raised, Unsupported):
                raise
        finally:
            self.st.loc, self.globals = saved_loc, saved_g
            self.depth -= 1
        return r

    def call_contract(self, c, args, kw):
        if self.pure:
            raise Unsupported("call under a quantifier")
        before = self.st.copy()
        before.loc = self.bind(c.fn, args, kw)
        pre = S(self, before, call=True)
        if self.contract is not None and c.fn in self.contract.before:
            for name, g, *u in self.contract.before[c.fn](S(self, self.st, args=pre, pre=S(self, self.entry))):
                self.require("lemma", name, g, *u)
        for item in c.requires(pre):
            name, g = item if isinstance(item, tuple) else ("precondition", item)
            u = self.contract.before.get((c.fn, name)) if self.contract else None
            self.require("pre", f"call of {c.name}: {name}", g, u)
        if c.measure is not None and self.contract is c:
            self.require("term", f"call of {c.name}: the measure decreases",
                         z3.And(c.measure(pre) >= 0, c.measure(pre) < self.init_measure))
        # what the callee may change
        after = self.st
        for m in c.modifies:
            if m.startswith("."):
                for f in [k for k in after.heap if k == m[1:] or k.split("#")[0] == m[1:]]:
                    after.heap[f] = self.fresh(f.replace("#", "_"), after.heap[f].sort())
            else:
                h = before.loc[m]
                after.store[h.oid] = after.store[h.oid].fresh(self)
                after.pc += after.store[h.oid].facts()
        res = None
        if c.result is not None:
            res = c.result(self) if callable(c.result) and not isinstance(c.result, z3.SortRef) else wrap(self.fresh("res", sort_of(c.result)), c.result)
        view = State()
        view.loc, view.store, view.heap, view.pc = before.loc, after.store, after.heap, after.pc
        post = S(self, view, pre=S(self, before), result=after.store[res.oid] if isinstance(res, Handle) else res, value=res)
        for item in c.ensures(post):
            self.label(f"{c.name}: {item[0]}", item[1])
            self.assume(item[1])
        return res

    # builtins
    def b_len(self, v):
        if isinstance(v, (tuple, list, str, dict)):
            return len(v)
        c = self.as_seq(v)
        if isinstance(c, (Seq, View)):
            return z3.simplify(c.hi - c.lo)
        raise Unsupported("len")

    def b_range(self, *a):
        if all(not is_z(x) for x in a):
            return range(*a)
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        step = a[2] if len(a) == 3 else 1
        if is_z(step) or step != 1:
            raise Unsupported("range step")
        lo, hi = unwrap(lo, I), unwrap(hi, I)
        return View(lo, z3.If(hi < lo, lo, hi), lambda i: i)

    def b_enumerate(self, v, start=0):
        it = self.view(v)
        if not isinstance(it, View):
            return [(start + k, x) for k, x in enumerate(it)]
        return View(it.lo, it.hi, lambda i: (i - it.lo + start, it.get(i)), it.of)

    def b_zip(self, *vs, strict=False):
        its = [self.view(v) for v in vs]
        if not all(isinstance(t, View) for t in its):
            its2 = []
            for t in its:
                if isinstance(t, View):
                    raise Unsupported("zip of known and unknown lengths")
                its2.append(t)
            return list(zip(*its2))
        n = its[0].hi - its[0].lo
        for t in its[1:]:
            m = t.hi - t.lo
            n = z3.If(m < n, m, n)
        return View(z3.IntVal(0), n, lambda i: tuple(t.get(t.lo + i) for t in its), sum((t.of for t in its), []))

    def b_zip_longest(self, *vs, fillvalue=None):
        its = [self.view(v) for v in vs]
        if not all(isinstance(t, View) for t in its):
            raise Unsupported("zip_longest of known lengths")
        n = its[0].hi - its[0].lo
        for t in its[1:]:
            m = t.hi - t.lo
            n = z3.If(m > n, m, n)

        def get(i):
            out = []
            for t in its:
                v = t.get(t.lo + i)
                ty = self.type_of(v)
                out.append(wrap(z3.If(i < t.hi - t.lo, unwrap(v, None), unwrap(fillvalue, sort_of(ty))), ty))
            return tuple(out)
        return View(z3.IntVal(0), n, get, sum((t.of for t in its), []))

    def b_islice(self, v, stop):
        it = self.view(v)
        n = it.hi - it.lo
        s = unwrap(stop, I)
        self.require("safe", "islice has a count that is not negative", s >= 0)
        return View(it.lo, it.lo + z3.If(s < n, s, n), it.get, it.of)

    def b_all(self, v):
        return self.quantify(v, True) if isinstance(v, Gen) else self.quant_seq(v, True)

    def b_any(self, v):
        return self.quantify(v, False) if isinstance(v, Gen) else self.quant_seq(v, False)

    def quant_seq(self, v, is_all):
        s = self.view(v)
        if not isinstance(s, View):
            cs = [self.truth(x) for x in s]
            zs = [z3.BoolVal(c) if isinstance(c, bool) else c for c in cs]
            return z3.And(*zs) if is_all else z3.Or(*zs)
        i = self.fresh("q", I)
        t = self.truth(s.get(i))
        g = z3.And(s.lo <= i, i < s.hi)
        return z3.ForAll([i], z3.Implies(g, t)) if is_all else z3.Exists([i], z3.And(g, t))

    def b_isinstance(self, v, cls):
        if isinstance(v, Ref):
            f = self.isa.get(cls)
            if f is None and hasattr(cls, "__args__"):
                fs = [self.isa.get(c) for c in cls.__args__]
                if all(fs):
                    return z3.Or(*[g(v.t) for g in fs])
            if f is None and isinstance(cls, tuple):
                return z3.Or(*[self.isa[c](v.t) for c in cls])
            if f is None:
                raise Unsupported(f"isinstance {cls}")
            return f(v.t)
        if is_z(v) or isinstance(v, (Handle, FieldList)):
            raise Unsupported("isinstance of a value")
        return isinstance(v, cls)

    def b_list(self, v=None):
        if v is None:
            return self.new(Empty("list"))
        s = self.view(v)
        if not isinstance(s, View):
            return list(s)
        e = s.get(z3.Int("i"))
        ty = self.type_of(e)
        r = Seq(z3.IntVal(0), s.hi - s.lo, self.fresh("copy", z3.ArraySort(I, sort_of(ty))), ty)
        i = z3.Int("i")
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r.hi), r.arr[i] == unwrap(s.get(s.lo + i), sort_of(ty))), patterns=[r.arr[i]]))
        return self.new(r)

    def b_deque(self, v=None):
        return self.b_list(v)

    def b_dict(self, v=None):
        if v is None:
            return self.new(Empty("map"))
        c = self.st.store[v.oid]
        return self.new(c)

    def b_set(self, v=None):
        if v is None:
            return self.new(Empty("set"))
        raise Unsupported("set of a container")

    def b_int(self, v=0):
        if is_z(v) and v.sort() == I:
            return v
        if not is_z(v):
            return int(v)
        raise Unsupported("int()")

    def b_float(self, v):
        if is_z(v) and v.sort() in (R, FP):
            return v
        if is_z(v) and v.sort() == I:
            return z3.ToReal(v)
        return float(v)

    def b_bool(self, v):
        return self.truth(v)

    def b_abs(self, v):
        if not is_z(v):
            return abs(v)
        if v.sort() == FP:
            return z3.fpAbs(v)
        return z3.If(v < 0, -v, v)

    def b_max(self, *vs, **kw):
        return self.extreme(vs, kw, True)

    def b_min(self, *vs, **kw):
        return self.extreme(vs, kw, False)

    def extreme(self, vs, kw, biggest):
        if kw:
            raise Unsupported("max/min options")
        if len(vs) == 1:
            v = vs[0]
            if isinstance(v, Gen):
                v = self.e_ListComp(ast.ListComp(v.node.elt, v.node.generators))
            s = self.view(v)
            if isinstance(s, View):
                self.may_raise(ValueError, z3.Not(s.lo < s.hi), "max/min of an empty list")
                i, w = self.fresh("q", I), self.fresh("w", I)
                t = unwrap(s.get(i), None)
                m = self.fresh("ext", t.sort())
                self.assume_as("max", z3.ForAll([i], z3.Implies(z3.And(s.lo <= i, i < s.hi), m >= t if biggest else m <= t), patterns=[t] if has_var(t, i) else []))
                self.assume(z3.And(s.lo <= w, w < s.hi, m == z3.substitute(t, (i, w))))
                return m
            vs = list(s)
        out = vs[0]
        for v in vs[1:]:
            if not is_z(out) and not is_z(v):
                out = max(out, v) if biggest else min(out, v)
                continue
            srt = self.join(out, v)
            a, b = unwrap(out, srt), unwrap(v, srt)
            # Python keeps the first unless a later one is strictly beyond
            lt = (z3.fpGT(b, a) if biggest else z3.fpLT(b, a)) if srt == FP else (b > a if biggest else b < a)
            out = z3.If(lt, b, a)
        return out

    # methods of containers
    def call_method(self, o, f, args, kw):
        if isinstance(o, Handle) and isinstance(self.st.store[o.oid], (Map, Set)) or (
                isinstance(o, Handle) and isinstance(self.st.store[o.oid], Empty) and self.st.store[o.oid].what != "list"):
            return self.map_method(o, f, args, kw)
        if isinstance(o, (Handle, FieldList)):
            return self.seq_method(o, f, args, kw)
        if isinstance(o, View):
            raise Unsupported(f"method {f} of a view")
        if (f"method {f}") in self.models:
            return self.models[f"method {f}"](self, o, *args, **kw)
        raise Unsupported(f"method {f}")

    def map_method(self, o, f, args, kw):
        c = self.st.store[o.oid]
        if self.pure and f not in ("get", "keys", "values", "items"):
            raise Unsupported("mutation under a quantifier")
        if isinstance(c, Empty):
            if f == "add":
                c = self.fix(o, self.type_of(args[0]))
            elif f in ("values", "keys", "items"):
                return []
            elif f == "get":
                return args[1] if len(args) > 1 else None
            elif f in ("copy",):
                return self.new(c)
            elif f == "clear":
                return None
            elif f == "update":
                self.st.store[o.oid] = self.st.store[args[0].oid]
                return None
        if isinstance(c, Set):
            if f == "add":
                self.st.store[o.oid] = Set(z3.Store(c.dom, unwrap(args[0], sort_of(c.kty)), z3.BoolVal(True)), c.kty)
                return None
            if f in ("discard", "remove"):
                k = unwrap(args[0], sort_of(c.kty))
                if f == "remove":
                    self.may_raise(KeyError, z3.Not(c.dom[k]), "remove")
                self.st.store[o.oid] = Set(z3.Store(c.dom, k, z3.BoolVal(False)), c.kty)
                return None
        if isinstance(c, Map):
            if f == "get":
                k = unwrap(args[0], sort_of(c.kty))
                d = args[1] if len(args) > 1 else None
                if d is None and c.vty == I:
                    return OptInt(self, c.dom[k], c.val[k])
                if d is None:
                    t = unwrap(None, I)
                    return Ref(z3.If(c.dom[k], c.val[k], t), "?" + str(c.vty).lstrip("?"))
                return wrap(z3.If(c.dom[k], c.val[k], unwrap(d, sort_of(c.vty))), c.vty)
            if f == "copy":
                return self.new(c)
            if f == "clear":
                self.st.store[o.oid] = Map(z3.K(sort_of(c.kty), z3.BoolVal(False)), c.val, c.kty, c.vty)
                return None
            if f == "keys":
                return self.keys(c)
            if f == "values":
                ks = self.keys(c)
                return View(ks.lo, ks.hi, lambda i: wrap(c.val[unwrap(ks.get(i), None)], c.vty))
            if f == "items":
                ks = self.keys(c)
                return View(ks.lo, ks.hi, lambda i: (ks.get(i), wrap(c.val[unwrap(ks.get(i), None)], c.vty)))
            if f == "pop":
                k = unwrap(args[0], sort_of(c.kty))
                if len(args) == 1:
                    self.may_raise(KeyError, z3.Not(c.dom[k]), "pop")
                    r = wrap(c.val[k], c.vty)
                else:
                    r = None
                self.st.store[o.oid] = Map(z3.Store(c.dom, k, z3.BoolVal(False)), c.val, c.kty, c.vty)
                return r
        raise Unsupported(f"method {f} of {c.kind}")

    def seq_method(self, o, f, args, kw):
        if self.pure and f not in ("index", "copy", "count"):
            raise Unsupported("mutation under a quantifier")
        s = self.as_seq(o)
        if isinstance(o, Handle) and isinstance(self.st.store[o.oid], Empty) and f in ("append", "appendleft", "insert"):
            s = self.fix(o, self.type_of(args[-1]))
        srt = sort_of(s.ty)
        if f == "append":
            self.put_seq(o, s.push(s.hi, s.lo, z3.simplify(s.hi + 1), unwrap(args[0], srt)))
            return None
        if f == "appendleft" or (f == "insert" and not is_z(args[0]) and args[0] == 0):
            lo = z3.simplify(s.lo - 1)
            self.put_seq(o, s.push(lo, lo, s.hi, unwrap(args[-1], srt)))
            return None
        if f == "popleft" or (f == "pop" and args and not is_z(args[0]) and args[0] == 0):
            self.may_raise(IndexError, z3.Not(s.lo < s.hi), f)
            self.put_seq(o, Seq(z3.simplify(s.lo + 1), s.hi, s.arr, s.ty, s.pos))
            return s.get(s.lo)
        if f == "pop" and (not args or (not is_z(args[0]) and args[0] == -1)):
            self.may_raise(IndexError, z3.Not(s.lo < s.hi), f)
            hi = z3.simplify(s.hi - 1)
            self.put_seq(o, Seq(s.lo, hi, s.arr, s.ty, s.pos))
            return s.get(hi)
        if f == "pop":
            i = unwrap(args[0], I)
            self.may_raise(IndexError, z3.Not(z3.And(-(s.hi - s.lo) <= i, i < s.hi - s.lo)), f)
            at = z3.If(i >= 0, s.lo + i, s.hi + i)
            r = s.get(at)
            self.put_seq(o, self.removed(s, at))
            return r
        if f in ("index", "remove"):
            v = unwrap(args[0], srt)
            i, j = self.fresh("i", I), self.fresh("j", I)
            self.may_raise(ValueError, z3.Not(z3.Exists([i], z3.And(s.lo <= i, i < s.hi, s.arr[i] == v))), f)
            at = self.fresh("at", I)
            self.assume(z3.And(s.lo <= at, at < s.hi, s.arr[at] == v))
            self.assume(z3.ForAll([j], z3.Implies(z3.And(s.lo <= j, j < at), s.arr[j] != v), patterns=[s.arr[j]]))
            if f == "index":
                return z3.simplify(at - s.lo)
            self.put_seq(o, self.removed(s, at))
            return None
        if f == "copy":
            return self.new(s)
        if f == "clear":
            self.put_seq(o, Seq(s.lo, s.lo, s.arr, s.ty))
            return None
        if f == "extend":
            r = self.concat(o, args[0])
            self.put_seq(o, self.st.store[r.oid])
            return None
        if f == "readlines" and isinstance(o, Handle) and o.oid in getattr(self, "files", ()):
            return self.new(s)
        if f == "close" and isinstance(o, Handle) and o.oid in getattr(self, "files", ()):
            return None
        raise Unsupported(f"list method {f}")

    def removed(self, s, at):
        a = self.fresh("rem", s.arr.sort())
        i = z3.Int("i")
        self.assume(z3.ForAll([i], z3.Implies(z3.And(s.lo <= i, i < s.hi - 1), a[i] == z3.If(i < at, s.arr[i], s.arr[i + 1])), patterns=[a[i]]))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(s.lo <= i, i < s.hi, i != at), z3.If(i < at, a[i], a[i - 1]) == s.arr[i]), patterns=[s.arr[i]]))
        return Seq(s.lo, z3.simplify(s.hi - 1), a, s.ty)


class OptInt:
    """Value of dict.get without default on integer values."""

    def __new__(cls, vc, has, val):
        if vc.pure:
            raise Unsupported("get under a quantifier")
        return val if vc.decide(has) else None


class Method:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Gen:
    def __init__(self, node):
        self.node = node


POW2 = z3.Function("pow2", I, I)


def has_var(t, v):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.eq(v):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo += x.children()
    return False


def lex(a, b):
    """Lexicographic decrease of tuples of naturals."""
    out = z3.BoolVal(False)
    eq = z3.BoolVal(True)
    for x, y in zip(a, b):
        out = z3.Or(out, z3.And(eq, 0 <= x, x < y))
        eq = z3.And(eq, x == y)
    return out


def same_value(a, b):
    if a is b:
        return True
    if is_z(a) and is_z(b):
        return a.eq(b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.t.eq(b.t)
    if isinstance(a, Handle) and isinstance(b, Handle):
        return a.oid == b.oid
    if isinstance(a, FieldList) and isinstance(b, FieldList):
        return a.field == b.field and a.ref.t.eq(b.ref.t)
    if type(a) is type(b) and isinstance(a, (int, float, str, bool, type(None))):
        return a == b
    return False


def to_load(t):
    t = ast.parse(ast.unparse(t), mode="eval").body
    return t


_TREES = {}


def fn_tree(fn):
    if fn not in _TREES:
        src = textwrap.dedent(inspect.getsource(fn))
        _TREES[fn] = ast.parse(src).body[0]
    return _TREES[fn]


def default_args(fn):
    return {k: p.default for k, p in inspect.signature(fn).parameters.items() if p.default is not inspect.Parameter.empty}


_ = deque
