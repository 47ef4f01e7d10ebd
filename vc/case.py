"""Layer contracts: one description used for the proofs, the cross-checks and the replays.

A Case gives, for one layer class in one configuration shape:
  dims     symbolic sizes and attributes, with lower bounds, and a precondition over them;
  build    the real layer object, built through the repository's own constructors;
  spec     the postcondition: the value of every output element as a term over the inputs
           and parameters.
"""
from __future__ import annotations

import random
from fractions import Fraction

import core
from arrays import Base
from core import TRUE, ZERO, Facts, P, c_ge, c_gt, fdiv, poly, read, subst, sym


class Case:
    def __init__(self, name, props, dims, build, in_shapes, out_shape, spec, pre=None, reals=(), versions=None,
                 ios="auto", python=True, py_in=None, act=True, dmax=None, choices=None, note="", code=True,
                 data_format="channels_first", gen_data_format="channels_first", py_out=None, known=None,
                 defs=None, values=None, bounded=None, weight=1, py_variants=("shaped", "flat"),
                 nn_input=None, pred=None, may_refuse=False, opaque=False):
        self.name, self.props = name, tuple(props)
        self.dims = dict(dims)
        self.build, self.in_shapes, self.out_shape, self.spec = build, in_shapes, out_shape, spec
        self.pre = pre or (lambda d: [])
        self.reals = tuple(reals)
        self.versions = versions
        self.python, self.code, self.act = python, code, act
        self.dmax = dmax or {}
        self.choices = choices or {}
        self.note = note
        self.ios = ios
        self.data_format, self.gen_data_format = data_format, gen_data_format
        self.py_in = py_in
        self.py_out = py_out
        #: generators of concrete values for named arrays; modes that are only executed (bounded)
        self.values, self.bounded = values or {}, bounded
        self.weight, self.py_variants = weight, py_variants
        #: the configuration may be refused with an error: it has to be right when it is not
        self.may_refuse = may_refuse
        #: real quotients the program computes are kept whole: see core.let
        self.opaque = opaque
        #: shape of the program's own input, when the layer reads it
        self.nn_input = nn_input
        #: (shape of the program's output, element of the layer's output each of its elements is), when it is converted
        self.pred = pred
        #: named quantities: name -> defining term over the other sizes
        self.defs = defs or (lambda d: {})

    def __repr__(self):
        return f"Case({self.name})"

    # -- symbolic side -----------------------------------------------------
    def symbols(self):
        d = {n: poly(sym(n)) for n in self.dims}
        for r in self.reals:
            d[r] = poly(sym(r, False))
        return d

    def facts(self, d=None):
        d = d or self.symbols()
        f = Facts()
        for n, lo in self.dims.items():
            f.lower(d[n], lo)
        for c in self.pre(D(d)):
            f = f.assume(c)
        for c in self.definition_facts(d):
            f = f.assume(c)
        return f

    def definition_facts(self, d):
        return [c for n, p in self.defs(D(d)).items() for c in def_facts(d[n], p)]

    def in_shapes_count(self):
        return self.in_shapes(D(self.symbols()))

    def definitions(self, d):
        return {d[n].single_atom(): p for n, p in self.defs(D(d)).items()}

    # -- concrete side -----------------------------------------------------
    def draw(self, rnd, tries=4000, scale=4):
        syms = self.symbols()
        for _ in range(tries):
            v = {}
            defs = self.defs(D(syms))
            for n, lo in self.dims.items():
                if n in defs:
                    continue
                if n in self.choices:
                    v[n] = rnd.choice(self.choices[n])
                else:
                    hi = self.dmax.get(n, scale)
                    v[n] = rnd.randint(lo, max(lo, hi))
            for r in self.reals:
                v[r] = rnd.choice(self.choices[r]) if r in self.choices else float(Fraction(rnd.randint(1, 12), 4))
            env = {syms[n].single_atom(): Fraction(x) if isinstance(x, float) else x for n, x in v.items()}
            try:
                for n, p in defs.items():
                    v[n] = env[syms[n].single_atom()] = int(core.ev_poly(p, env))
                if all(v[n] >= lo for n, lo in self.dims.items()) and \
                        all(core.ev_cond(c, env) for c in self.pre(D(syms))):
                    return v
            except core.NoValue:
                continue
        return None


def def_facts(s, p):
    """Facts that characterise s = p when p contains one integer quotient."""
    ats = [(m, c) for m, c in p.t.items() if len(m) == 1 and m[0][0].kind == "fdiv" and m[0][1] == 1]
    if len(ats) != 1 or ats[0][1] != 1:
        return [core.c_eq(s - p)]
    a = ats[0][0][0][0]
    x, q = a.args
    v = s - (p - poly(a))
    return [c_ge(x - q * v), c_ge(q * v + q - 1 - x)]


class D(dict):
    """Attribute access to the symbolic sizes."""

    __getattr__ = dict.__getitem__


def flat(idx, shape):
    r = ZERO
    for i, s in zip(idx, shape):
        r = r * poly(s) + poly(i)
    return r


def size(shape):
    r = core.ONE
    for s in shape:
        r = r * poly(s)
    return r


class Access:
    """Element access to a stored tensor in a specification."""

    def __init__(self, base, shape):
        self.base, self.shape = base, [poly(s) for s in shape]

    def __call__(self, *idx):
        assert len(idx) == len(self.shape), (self.base.name, idx, self.shape)
        return read(self.base, (flat(idx, self.shape),))

    def flat(self, k):
        return read(self.base, (poly(k),))


class Tensors:
    """The named tensors of a specification: reals by default, integers with I."""

    def __init__(self, bases):
        self.bases = bases

    def __call__(self, name, *shape):
        return Access(self.bases.setdefault(name, Base(name)), shape)

    def I(self, name, lo, hi, *shape):
        """Integer tensor with values in [lo, hi): arbitrary integers, reduced to that range."""
        a = Access(self.bases.setdefault(name, Base(name, True)), shape)
        return lambda *i: lo + core.fmod(a(*i), poly(hi) - lo)
