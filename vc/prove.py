"""Discharge the obligations of one Case on the code generated from the current source."""
from __future__ import annotations

import time
import traceback

import boot  # noqa: F401
import core
import pyfront
from arrays import Base
from case import Access, Case, D, Tensors, flat, size
from cexec import CSyntax, Exec, Failed
from core import STATS, Facts, P, Unsupported, equal, fresh, poly, read
from pyfront import Lam, SymInt, SymReal, SymTensor, explore, undim


class Io:
    """Where the inputs and the output live."""

    def __init__(self, name, paths, cst, path, own_cst=False, same=False):
        self.name, self.paths, self.cst, self.path, self.own_cst, self.same = name, paths, cst, path, own_cst, same

    def __repr__(self):
        return self.name


def ios_for(n):
    if n == 0:
        return [Io("new", [0], [], 1)]
    if n == 1:
        return [Io("inplace", [0], [], 0), Io("cst", [0], [0], 0), Io("cst-fresh", [0], [0], 1, own_cst=True)]
    if n == 2:
        return [Io("first", [0, 1], [], 0), Io("last", [0, 1], [], 1), Io("cst-first", [0, 1], [0], 1),
                Io("cst-both", [0, 1], [0, 1], 0), Io("fresh", [0, 1], [0, 1], 2, own_cst=True),
                ]
    if n == 3:
        return [Io("first", [0, 1, 2], [], 0), Io("last", [0, 1, 2], [], 2), Io("middle", [0, 1, 2], [0], 1)]
    return [Io("first", list(range(n)), [], 0), Io("last", list(range(n)), [], n - 1)]


class Obligation:
    __slots__ = ("kind", "name", "ok", "detail")

    def __init__(self, kind, name, ok, detail=""):
        self.kind, self.name, self.ok, self.detail = kind, name, bool(ok), str(detail)


class Report:
    def __init__(self, case, io, mode):
        self.case, self.io, self.mode = case, io, mode
        self.obligations = []
        self.unsupported = None
        self.seconds = 0.0
        self.paths = 0

    def add(self, kind, name, ok, detail=""):
        self.obligations.append(Obligation(kind, name, ok, detail))

    def failed(self, kinds=None):
        return [o for o in self.obligations if not o.ok and (kinds is None or o.kind in kinds)]

    def plain(self):
        return dict(case=self.case, io=self.io, mode=self.mode, unsupported=self.unsupported, paths=self.paths,
                    seconds=round(self.seconds, 2), stats=dict(vars(STATS)),
                    obligations=[(o.kind, o.name[:300], o.ok, o.detail[:1500]) for o in self.obligations])


class Builder:
    """What a Case's build function gets besides the sizes."""

    symbolic = True

    def __init__(self, case, bases, idx):
        self.case, self.bases, self.idx = case, bases, idx
        self.act = self._act() if case.act else self._linear()
        self.params = {}

    def _act(self):
        from prog import ActStub
        return ActStub()

    def _linear(self):
        from acetone_nnet.generator.activation_functions import Linear
        return Linear()

    def base(self, name, isint=False):
        if name not in self.bases:
            self.bases[name] = Base(name, isint)
        return self.bases[name]

    def T(self, name, *shape):
        b = self.base(name)
        ps = [pyfront.dim(s) for s in shape]
        return SymTensor(shape, lambda *i: read(b, (flat(i, ps),)))

    def I(self, name, lo, hi, *shape):
        """Integer tensor with values in [lo, hi)."""
        b = self.base(name, True)
        ps = [pyfront.dim(s) for s in shape]
        lo, hi = pyfront.dim(lo), pyfront.dim(hi)
        return SymTensor(shape, lambda *i: lo + core.fmod(read(b, (flat(i, ps),)), hi - lo),
                         dtype=pyfront.real_np.dtype("int64"))


def make_layers(case, b, dd, shapes, io):
    from prog import Stub
    n = len(shapes)
    stubs = []
    for k in range(n if case.nn_input else max(1, n)):
        if io.same and k:
            continue
        sz = undim(size(shapes[k])) if n else 1
        stubs.append(Stub(k + 1, sz, io.paths[k]))
    layer = case.build(D(dd), b)
    layer.path = io.path
    prev = [stubs[0]] * n if io.same else stubs[:n]
    layer.previous_layer = prev
    for s in stubs[:n]:
        s.next_layer = [layer] * (n if io.same else 1)
    dict_cst = {s.idx: k for k, s in enumerate(stubs) if k in io.cst}
    if io.own_cst:
        dict_cst[layer.idx] = 7
    return stubs, layer, dict_cst


def prove_code(case: Case, io: Io) -> Report:
    rep = Report(case.name, io.name, "code")
    t0 = time.time()
    try:
        _prove_code(case, io, rep)
    except (Unsupported, RecursionError) as e:
        rep.unsupported = f"{type(e).__name__}: {e} @ {where(e)}"
    rep.seconds = time.time() - t0
    return rep


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " < ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in reversed(tb[-4:]))


def sym_dims(case):
    d = case.symbols()
    return d, {n: (SymReal(p) if n in case.reals else SymInt(p)) for n, p in d.items()}


def _prove_code(case, io, rep):
    import prog
    pyfront.install()
    d, dd = sym_dims(case)
    pyfront.define(case.definitions(d))
    facts = case.facts(d)
    if not core.samples(facts):
        if not core.feasible(core.TRUE, facts):
            raise Unsupported("precondition is not satisfiable")
    shapes = [[poly(s) for s in sh] for sh in case.in_shapes(D(d))]
    oshape = [poly(s) for s in case.out_shape(D(d))]
    bases = {}

    def run():
        b = Builder(case, bases, 5)
        stubs, layer, dict_cst = make_layers(case, b, dd, shapes, io)
        top = max([*io.paths, io.path]) + 2
        g = prog.program([*stubs, layer], dict_cst, versions={5: case.versions} if case.versions else None,
                         symbolic=True, maxpath=top, data_format=case.data_format, gen_data_format=case.gen_data_format)
        return g, stubs, dict_cst
    paths = explore(run, facts)
    rep.paths = len(paths)
    if not paths:
        raise Unsupported("no feasible path through the generator")
    for pf, val, exc, ctx in paths:
        pyfront.CTX = ctx
        if exc is not None:
            rep.add("accept", f"{case.name}: a valid configuration is accepted by the generator", False,
                    f"{type(exc).__name__}: {exc}")
            continue
        g, stubs, dict_cst = val
        light = case.definition_facts(d)
        if light:
            # the definitions of the named quantities are rarely needed: first try without
            r2 = Report(case.name, io.name, "code")
            try:
                check_program(case, io, r2, pf.without(light), g, stubs, dict_cst, bases, shapes, oshape, d)
            except Unsupported:
                r2.add("retry", "", False)
            if not r2.failed():
                rep.obligations += r2.obligations
                continue
        check_program(case, io, rep, pf, g, stubs, dict_cst, bases, shapes, oshape, d)


def value_of(text, symtab):
    text = text.strip()
    if text in symtab:
        return symtab[text]
    return poly(int(text))


def flat_version(t):
    if hasattr(t, "data") and not isinstance(t, (SymTensor, pyfront.real_np.ndarray)):
        t = t.data
    t = pyfront.to_tensor(t)
    f = pyfront.reshape(t, (-1,)).at_fn()
    k = fresh("fl")
    body = poly(f(poly(k)))
    return Lam((k,), body), pyfront.prod_of(t._shape)


def setup_exec(pf, g, loads, symtab, nn_input=None):
    """An executor with the storage the generated header declares."""
    import prog
    ex = Exec(pf, symtab)
    ctxname, params, body = prog.split_inference(g.inference)
    fields, externs = prog.split_header(g.header)
    for ty, name, sz in fields:
        full = f"{ctxname}->{name}"
        ex.declare_array(full, [value_of(sz, symtab)], ty == "int", version=loads.get(name))
    known = prog.split_params(g.files["parameters.c"])
    for ty, name, sz, ptr in externs:
        if ptr:
            continue
        if name not in known:
            ex.declare_array(name, [value_of(sz, symtab)], ty == "int", const=True)
            continue
        pty, psz, num = known[name]
        ver, n = flat_version(pyfront.TENSORS[num])
        szp = value_of(sz, symtab)
        ex.oblige("bounds", f"declared size of {name} is its number of elements",
                  core.proves(core.c_eq(szp - n), pf), f"{szp} / {n}")
        ex.oblige("bounds", f"{name} is defined as it is declared",
                  pty == ty and core.proves(core.c_eq(szp - value_of(psz, symtab)), pf), f"{ty}[{sz}] / {pty}[{psz}]")
        ex.declare_array(name, [szp], ty == "int", const=True, version=ver)
    (t0, n0, s0), (t1, n1, s1) = params
    if nn_input is not None:
        # the program's input holds at least the elements of its input tensor (precondition of inference)
        ex.oblige("bounds", "the declared size of the program's input is that of its input layer",
                  core.proves(core.c_eq(value_of(s1, symtab) - nn_input), pf))
    ex.declare_array(n0, [value_of(s0, symtab)], t0 == "int", version=Base("prediction@"))
    ex.declare_array(n1, [value_of(s1, symtab)], t1 == "int", const=True, version=loads.get("nn_input"))
    for i, t in enumerate(pyfront.TENSORS):
        ex.tensors[f"TENSOR_{i}"] = flat_version(t)
    return ex, ctxname, n0, body


def check_program(case, io, rep, pf, g, stubs, dict_cst, bases, shapes, oshape, d):
    loads = {}
    for k, s in enumerate(stubs):
        nm = f"in{k}"
        bases.setdefault(nm, Base(nm))
        loads[f"output_{s.path}"] = bases[nm]
    loads["nn_input"] = bases.setdefault("nn_input", Base("nn_input"))
    ex, c, pred, body = setup_exec(pf, g, loads, pyfront.TOKENS, size(case.nn_input(D(d))) if case.nn_input else None)
    ex.opaque = case.opaque
    first = dict(ex.arr)
    try:
        ex.run(body)
    except CSyntax as e:
        rep.add("syntax", "the generated text is valid C", False, e)
    except Failed as e:
        take(rep, ex)
        rep.add("post", f"{case.name}[{io.name}]: output = specification", False, f"not reached: {e}")
        return
    else:
        take(rep, ex)
        X = [Access(bases["in0" if io.same else f"in{k}"], sh) for k, sh in enumerate(shapes)]
        W = Tensors(bases)
        os_ = [poly(fresh(f"o{k}")) for k in range(len(oshape))]
        F = pf
        for o, s in zip(os_, oshape):
            F = F.bind(o, s)
        want = case.spec(D(d), X, W, tuple(os_))
        targets = [f"{c}->output_{io.path}"]
        if io.own_cst:
            targets.append(f"{c}->cst_7")
        if case.data_format == case.gen_data_format:
            targets.append(pred)
        k = flat(os_, oshape)
        for t in targets:
            got = read(ex.arr[t], (k,))
            check_equal(rep, "post", f"{case.name}[{io.name}]: {t} = specification", got, want, F)
        if case.pred is not None and case.pred[1] is None:
            # the output is not converted
            check_equal(rep, "post", f"{case.name}[{io.name}]: the program's output = specification", read(ex.arr[pred], (k,)),
                        want, F)
        elif case.pred is not None:
            psh, src = case.pred
            psh = [poly(x) for x in psh(D(d))]
            ps = [poly(fresh(f"p{k}")) for k in range(len(psh))]
            G = pf
            for o, x in zip(ps, psh):
                G = G.bind(o, x)
            wantp = case.spec(D(d), X, W, tuple(src(*ps)))
            check_equal(rep, "post", f"{case.name}[{io.name}]: the program's output = specification",
                        read(ex.arr[pred], (flat(ps, psh),)), wantp, G)
        # frame
        may = {f"{c}->output_{io.path}", f"{c}->tensor_temp", pred} | {f"{c}->output_{s.path}" for s in stubs}
        may |= {f"{c}->cst_{v}" for v in dict_cst.values()}
        for a in sorted(ex.arr):
            if a not in may and a in first:
                rep.add("frame", f"{case.name}[{io.name}]: {a} is unchanged", ex.arr[a] is first[a])
        for i, s in enumerate(stubs):
            if s.idx in dict_cst:
                a = f"{c}->cst_{dict_cst[s.idx]}"
                z = poly(fresh("z"))
                G = pf.bind(z, pyfront.dim(s.size))
                check_equal(rep, "frame", f"{case.name}[{io.name}]: {a} still holds input {i}",
                            read(ex.arr[a], (z,)), read(bases[f"in{i}"], (z,)), G)


def check_equal(rep, kind, name, got, want, F):
    try:
        ok, a, b = equal(got, want, F)
    except (Unsupported, RecursionError) as e:
        rep.add(kind, name, False, f"prover: {type(e).__name__} {e} @ {where(e)}")
        return False
    rep.add(kind, name, ok, "" if ok else f"code: {a}\nspec: {b}")
    return ok


def take(rep, ex):
    for o in ex.obl:
        rep.add(o.kind, o.text, o.ok, o.detail)


# --------------------------------------------------------------------------
# Reference (Python) inference
# --------------------------------------------------------------------------


def prove_python(case: Case, variant="shaped") -> Report:
    rep = Report(case.name, variant, "python")
    t0 = time.time()
    try:
        _prove_python(case, variant, rep)
    except (Unsupported, RecursionError) as e:
        rep.unsupported = f"{type(e).__name__}: {e} @ {where(e)}"
    rep.seconds = time.time() - t0
    return rep


def _prove_python(case, variant, rep):
    from prog import Stub
    import prog
    pyfront.install()
    d, dd = sym_dims(case)
    pyfront.define(case.definitions(d))
    facts = case.facts(d)
    shapes = [[poly(s) for s in sh] for sh in case.in_shapes(D(d))]
    oshape = [poly(s) for s in case.out_shape(D(d))]
    pshapes = [[poly(s) for s in sh] for sh in (case.py_in or case.in_shapes)(D(d))]
    bases = {}
    io = ios_for(len(shapes))[0]

    def run():
        b = Builder(case, bases, 5)
        stubs, layer, dict_cst = make_layers(case, b, dd, shapes, io)
        g = prog.codegen([*stubs, layer], dict_cst, versions={5: case.versions} if case.versions else None,
                         maxpath=4, data_format=case.data_format, gen_data_format=case.gen_data_format)
        layer = g.layers[-1]
        ins = []
        for k, sh in enumerate(pshapes):
            t = b.T(f"in{k}", *[undim(s) for s in sh])
            if variant == "flat":
                t = pyfront.reshape(t, (-1,))
            t.memory()
            ins.append(t)
        before = [t.ver for t in ins]
        out = layer.forward_path_layer(ins if len(ins) > 1 else ins[0] if ins else None)
        return out, ins, before
    paths = explore(run, facts)
    rep.paths = len(paths)
    if not paths:
        raise Unsupported("no feasible path")
    for pf, val, exc, ctx in paths:
        pyfront.CTX = ctx
        if exc is not None:
            rep.add("accept", f"{case.name}: the reference inference accepts a valid input", case.may_refuse,
                    f"{type(exc).__name__}: {exc} @ {where(exc)}")
            continue
        out, ins, before = val
        out = pyfront.to_tensor(out)
        X = [Access(bases.setdefault(f"in{k}", Base(f"in{k}")), sh) for k, sh in enumerate(shapes)]
        W = Tensors(bases)
        os_ = [poly(fresh(f"o{k}")) for k in range(len(oshape))]
        F = pf
        for o, s in zip(os_, oshape):
            F = F.bind(o, s)
        rep.add("shape", f"{case.name}: number of output elements",
                core.proves(core.c_eq(pyfront.prod_of(out._shape) - size(oshape)), pf),
                f"{[str(x) for x in out._shape]}")
        want = case.spec(D(d), X, W, tuple(os_))
        fl = pyfront.reshape(out, (-1,)) if tuple(out._shape) != tuple(oshape) else None
        got = fl.at(flat(os_, oshape)) if fl is not None else out.at(*os_)
        check_equal(rep, "post", f"{case.name}: reference inference = specification", got, want, F)
        for k, (t, v) in enumerate(zip(ins, before)):
            rep.add("frame", f"{case.name}: input {k} is not modified", t.ver is v)
