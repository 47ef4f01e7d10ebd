"""Contracts of graph_interpretor: buffer assignment and execution order.

Layers are identified by their identifier (distinct identifiers are a precondition), so the field idx is the object itself.
"""
import z3
from acetone_nnet.generator.layers import ConstantLayer, InputLayer
from acetone_nnet.graph import graph_interpretor as gi
from pyvc import VC, B, Contract, I, ListOf

And, Or, Implies, Not, ForAll, Exists, Int, Ints = z3.And, z3.Or, z3.Implies, z3.Not, z3.ForAll, z3.Exists, z3.Int, z3.Ints

FIELDS = {"Layer": {"idx": lambda vc, o: o.t, "path": I, "previous_layer": ListOf("Layer"), "next_layer": ListOf("Layer")}}
IS_INPUT = z3.Function("is_input", I, B)
IS_CONST = z3.Function("is_const", I, B)
ISA = {InputLayer: IS_INPUT, ConstantLayer: IS_CONST}

NIDX = z3.Function("nidx", I, I, I)     # a link seen from the other side
PIDX = z3.Function("pidx", I, I, I)


def graph(s):
    nl, na = s.st.heap["next_layer#len"], s.st.heap["next_layer#arr"]
    pl, pa = s.st.heap["previous_layer#len"], s.st.heap["previous_layer#arr"]
    return nl, na, pl, pa


def links(s, inside):
    """Links agree in both directions, between layers of the network."""
    nl, na, pl, pa = graph(s)
    x, j = Ints("x j")
    return [
        ("links", ForAll([x, j], Implies(And(inside(x), 0 <= j, j < pl[x]), And(
            inside(pa[x][j]), 0 <= NIDX(x, j), NIDX(x, j) < nl[pa[x][j]], na[pa[x][j]][NIDX(x, j)] == x)), patterns=[pa[x][j]])),
        ("links back", ForAll([x, j], Implies(And(inside(x), 0 <= j, j < nl[x]), And(
            inside(na[x][j]), 0 <= PIDX(x, j), PIDX(x, j) < pl[na[x][j]], pa[na[x][j]][PIDX(x, j)] == x)), patterns=[na[x][j]])),
    ]


def ordered(s, o):
    """o lists distinct layers, closed under links, every layer after the ones it reads."""
    nl, na, pl, pa = graph(s)
    j, x = Ints("j x")
    inside = o.has
    return [
        ("distinct", o.distinct()),
        *links(s, inside),
        ("topological", ForAll([x, j], Implies(And(inside(x), 0 <= j, j < nl[x]), o.pos[na[x][j]] > o.pos[x]), patterns=[na[x][j]])),
    ], inside


def at_entry(s, name):
    """Whether a local has a value when the loop is entered (temporaries of its body have none)."""
    from pyvc import UNDEF
    start = getattr(s, "start", None)
    return start is None or start.st.loc.get(name, UNDEF) is not UNDEF


def the_int(s):
    """The only integer local set before the loop: the number of indexes handed out so far."""
    vs = [v for n, v in s.st.loc.items() if at_entry(s, n) and (
        (isinstance(v, int) and not isinstance(v, bool)) or (z3.is_expr(v) and v.sort() == I))]
    if len(vs) != 1:
        raise z3.Z3Exception("one integer local expected")
    return vs[0] if z3.is_expr(vs[0]) else z3.IntVal(vs[0])


def containers(s):
    """(available, assigned): the list and the dictionary of integers set before the loop."""
    from pyvc import Empty, Seq, Map
    av = mp = None
    for n, v in s.st.loc.items():
        if hasattr(v, "oid") and s.vc.local_oid(v.oid) and at_entry(s, n):
            c = s.st.store[v.oid]
            if isinstance(c, Empty):
                c = s.vc.empty_seq(I) if c.what == "list" else Map(z3.K(I, z3.BoolVal(False)), z3.K(I, z3.IntVal(0)), I, I) \
                    if c.what == "map" else None
            if isinstance(c, Seq) and c.ty is I:
                av = c
            if isinstance(c, Map) and c.vty is I:
                mp = c
    return av, mp


def live_outer(s):
    nl, na, pl, pa = graph(s)
    o, k = s["execution_order"], s.k
    av, mp = containers(s)
    n = the_int(s)
    x, y, j, t, u = Ints("x y j t u")

    def done(x):
        return And(o.lo <= o.pos[x], o.pos[x] < k, o.arr[o.pos[x]] == x)

    def inav(t):
        return And(av.lo <= t, t < av.hi)
    return [
        ("indexes are those of the layers run so far", ForAll([x], mp.dom[x] == done(x), patterns=[mp.dom[x]])),
        ("indexes are in range", ForAll([x], Implies(done(x), And(0 <= mp.val[x], mp.val[x] < n)), patterns=[mp.val[x]])),
        ("available indexes are in range", ForAll([t], Implies(inav(t), And(0 <= av.arr[t], av.arr[t] < n)), patterns=[av.arr[t]])),
        ("available indexes are distinct", ForAll([t, u], Implies(And(inav(t), inav(u), t != u), av.arr[t] != av.arr[u]),
                                                  patterns=[z3.MultiPattern(av.arr[t], av.arr[u])])),
        ("the index of a layer still needed is not available", ForAll([x, j, t], Implies(And(
            done(x), 0 <= j, j < nl[x], o.pos[na[x][j]] >= k, inav(t)), av.arr[t] != mp.val[x]), patterns=[z3.MultiPattern(na[x][j], av.arr[t])])),
        ("no index is shared by a layer and one run before its last consumer", ForAll([x, y, j], Implies(And(
            done(x), done(y), o.pos[x] < o.pos[y], 0 <= j, j < nl[x], o.pos[na[x][j]] > o.pos[y]), mp.val[x] != mp.val[y]),
            patterns=[z3.MultiPattern(na[x][j], mp.val[y])])),
        ("the layer's path is its index", ForAll([x], Implies(done(x), s.st.heap["path"][x] == mp.val[x]), patterns=[mp.val[x]])),
        ("count", n >= 0),
    ]


def live_inner(s):
    nl, na, pl, pa = graph(s)
    o = s["execution_order"]
    av, mp = containers(s)
    n = the_int(s)
    cur = layer_local(s, s.it)
    at = o.pos[cur]
    x, j, t, u, q = Ints("x j t u q")

    def inav(t):
        return And(av.lo <= t, t < av.hi)

    def done(x):
        return And(o.lo <= o.pos[x], o.pos[x] < at, o.arr[o.pos[x]] == x)
    pq = s.it.get(q)
    return [
        ("available indexes are in range", ForAll([t], Implies(inav(t), And(0 <= av.arr[t], av.arr[t] < n)), patterns=[av.arr[t]])),
        ("available indexes are distinct", ForAll([t, u], Implies(And(inav(t), inav(u), t != u), av.arr[t] != av.arr[u]),
                                                  patterns=[z3.MultiPattern(av.arr[t], av.arr[u])])),
        ("the index of a layer needed later is not available", ForAll([x, j, t], Implies(And(
            done(x), 0 <= j, j < nl[x], o.pos[na[x][j]] > at, inav(t)), av.arr[t] != mp.val[x]), patterns=[z3.MultiPattern(na[x][j], av.arr[t])])),
        ("the index of an operand not met yet is not available", ForAll([q, t], Implies(And(
            s.k <= q, q < s.it.hi, inav(t)), av.arr[t] != mp.val[pq.t]), patterns=[z3.MultiPattern(pq.t, av.arr[t])])),
    ]




def live_requires(s):
    return ordered(s, s["execution_order"])[0]


def live_ensures(s):
    nl, na, pl, pa = graph(s)
    o = s["execution_order"]
    mp, path = s.result, s.st.heap["path"]
    x, y, j = Ints("x y j")
    inside = o.has
    return [
        ("every layer gets an index", ForAll([x], mp.dom[x] == inside(x))),
        ("no index is shared by a layer and one run before its last consumer", ForAll([x, y, j], Implies(And(
            inside(x), inside(y), o.pos[x] < o.pos[y], 0 <= j, j < nl[x], o.pos[na[x][j]] > o.pos[y]), mp.val[x] != mp.val[y]),
            patterns=[z3.MultiPattern(na[x][j], mp.val[y])])),
        ("the layer's path is its index", ForAll([x], Implies(inside(x), And(path[x] == mp.val[x], path[x] >= 0)), patterns=[path[x]])),
        ("no path is shared by a layer and one run before its last consumer", ForAll([x, y, j], Implies(And(
            inside(x), inside(y), o.pos[x] < o.pos[y], 0 <= j, j < nl[x], o.pos[na[x][j]] > o.pos[y]), path[x] != path[y]),
            patterns=[z3.MultiPattern(na[x][j], path[y])])),
    ]


LIVE = Contract(gi.assign_liveliness_index, {"execution_order": lambda vc: vc.seq("order", "Layer")},
                requires=live_requires, ensures=live_ensures, loops=[live_outer, live_inner], modifies=(".path",),
                result=lambda vc: vc.map("index", I, I))


def vc(*contracts, **kw):
    return VC(contracts, FIELDS, ISA, **kw)


# ------------------------------------------------------------------------------------------------ constant buffers
def cst_done(s, k):
    o = s["execution_order"]
    return lambda x: And(o.lo <= o.pos[x], o.pos[x] < k, o.arr[o.pos[x]] == x)


def visited_of(s):
    from pyvc import Set
    for v in s.st.loc.values():
        if hasattr(v, "oid") and s.vc.local_oid(v.oid):
            c = s.st.store[v.oid]
            if isinstance(c, Set):
                return c
            if getattr(c, "what", "") == "set":
                return Set(z3.K(I, z3.BoolVal(False)), I)
    raise z3.Z3Exception("a set of visited layers is expected")


def cst_outer(s):
    nl, na, pl, pa = graph(s)
    o, k = s["execution_order"], s.k
    av, mp = containers(s)
    vis = visited_of(s)
    n = the_int(s)
    x, y, j, t, u = Ints("x y j t u")
    done = cst_done(s, k)

    def kept(x):
        return And(done(x), nl[x] > 1)

    def inav(t):
        return And(av.lo <= t, t < av.hi)
    return [
        ("visited layers are those run so far", ForAll([x], vis.dom[x] == done(x), patterns=[vis.dom[x]])),
        ("kept layers are those with several consumers", ForAll([x], mp.dom[x] == kept(x), patterns=[mp.dom[x]])),
        ("indexes are in range", ForAll([x], Implies(kept(x), And(0 <= mp.val[x], mp.val[x] < n)), patterns=[mp.val[x]])),
        ("available indexes are in range", ForAll([t], Implies(inav(t), And(0 <= av.arr[t], av.arr[t] < n)), patterns=[av.arr[t]])),
        ("available indexes are distinct", ForAll([t, u], Implies(And(inav(t), inav(u), t != u), av.arr[t] != av.arr[u]),
                                                  patterns=[z3.MultiPattern(av.arr[t], av.arr[u])])),
        ("the index of a layer still needed is not available", ForAll([x, j, t], Implies(And(
            kept(x), 0 <= j, j < nl[x], o.pos[na[x][j]] >= k, inav(t)), av.arr[t] != mp.val[x]), patterns=[z3.MultiPattern(na[x][j], av.arr[t])])),
        ("no index is shared by a layer and one kept before its last consumer", ForAll([x, y, j], Implies(And(
            kept(x), kept(y), o.pos[x] < o.pos[y], 0 <= j, j < nl[x], o.pos[na[x][j]] > o.pos[y]), mp.val[x] != mp.val[y]),
            patterns=[z3.MultiPattern(na[x][j], mp.val[y])])),
        ("count", n >= 0),
    ]


def cst_inner(s):
    nl, na, pl, pa = graph(s)
    o = s["execution_order"]
    av, mp = containers(s)
    n = the_int(s)
    cur = layer_local(s, s.it)
    at = o.pos[cur]
    x, j, t, u, q = Ints("x j t u q")
    done = cst_done(s, at)

    def inav(t):
        return And(av.lo <= t, t < av.hi)
    pq = s.it.get(q)
    return [
        ("available indexes are in range", ForAll([t], Implies(inav(t), And(0 <= av.arr[t], av.arr[t] < n)), patterns=[av.arr[t]])),
        ("available indexes are distinct", ForAll([t, u], Implies(And(inav(t), inav(u), t != u), av.arr[t] != av.arr[u]),
                                                  patterns=[z3.MultiPattern(av.arr[t], av.arr[u])])),
        ("the index of a layer needed later is not available", ForAll([x, j, t], Implies(And(
            done(x), nl[x] > 1, 0 <= j, j < nl[x], o.pos[na[x][j]] > at, inav(t)), av.arr[t] != mp.val[x]),
            patterns=[z3.MultiPattern(na[x][j], av.arr[t])])),
        ("the index of an operand not met yet is not available", ForAll([q, t], Implies(And(
            s.k <= q, q < s.it.hi, mp.dom[pq.t], inav(t)), av.arr[t] != mp.val[pq.t]), patterns=[z3.MultiPattern(pq.t, av.arr[t])])),
    ]


def layer_local(s, it):
    """The layer being run: the object local that was set before the inner loop."""
    from pyvc import Ref
    for v in s.start.st.loc.values():
        if isinstance(v, Ref):
            return v.t
    raise z3.Z3Exception("current layer")


def cst_ensures(s):
    nl, na, pl, pa = graph(s)
    o = s["execution_order"]
    mp = s.result
    x, y, j = Ints("x y j")
    inside = o.has
    return [
        ("the layers with several consumers are kept", ForAll([x], mp.dom[x] == And(inside(x), nl[x] > 1))),
        ("no constant buffer is shared by a layer and one kept before its last consumer", ForAll([x, y, j], Implies(And(
            mp.dom[x], mp.dom[y], o.pos[x] < o.pos[y], 0 <= j, j < nl[x], o.pos[na[x][j]] > o.pos[y]), mp.val[x] != mp.val[y]))),
        ("indexes are not negative", ForAll([x], Implies(mp.dom[x], mp.val[x] >= 0))),
    ]


CST = Contract(gi.assign_cst, {"execution_order": lambda vc: vc.seq("order", "Layer")}, requires=live_requires,
               ensures=cst_ensures, loops=[cst_outer, cst_inner], result=lambda vc: vc.map("cst", I, I))


# ------------------------------------------------------------------------------------------------ execution order
RANK = z3.Function("rank", I, I)     # the network is acyclic: every consumer has a higher rank
SIZE = Int("number_of_ranks")
NET = z3.Function("in_network", I, B)


def acyclic(s):
    nl, na, pl, pa = graph(s)
    x, j = Ints("x j")
    return [
        ("ranks", ForAll([x], Implies(NET(x), And(0 <= RANK(x), RANK(x) < SIZE)), patterns=[NET(x)])),
        ("acyclic", ForAll([x, j], Implies(And(NET(x), 0 <= j, j < nl[x]), And(NET(na[x][j]), RANK(na[x][j]) > RANK(x))),
                           patterns=[na[x][j]])),
    ]


def done_part(s, o, v):
    """The sorted part: distinct layers of the network, all visited, each before its consumers, which are all there."""
    nl, na, pl, pa = graph(s)
    x, j = Ints("x j")
    return [
        ("sorted layers are distinct", o.distinct()),
        ("sorted layers are visited", ForAll([x], Implies(o.has(x), And(v.dom[x], NET(x))), patterns=[o.pos[x]])),
        ("consumers come after", ForAll([x, j], Implies(And(o.has(x), 0 <= j, j < nl[x]), And(
            o.has(na[x][j]), o.pos[na[x][j]] > o.pos[x])), patterns=[z3.MultiPattern(o.pos[x], na[x][j])])),
    ]


def pend(o, v):
    return lambda x: And(v.dom[x], Not(o.has(x)))


def topo_requires(s):
    o, v, l = s["sorted_layers"], s["visited_layers"], s["layer"].t
    x = Int("x")
    return acyclic(s) + done_part(s, o, v) + [
        ("layers being visited come before", ForAll([x], Implies(pend(o, v)(x), RANK(x) < RANK(l)), patterns=[v.dom[x]])),
        ("the layer is new", And(Not(v.dom[l]), NET(l))),
    ]


def grown(o0, o):
    i = Int("i")
    return ("the layers sorted before stay where they were", And(o.hi == o0.hi, o.lo <= o0.lo, ForAll([i], Implies(And(
        o0.lo <= i, i < o0.hi), o.arr[i] == o0.arr[i]), patterns=[o.arr[i]])))


def topo_ensures(s):
    o, v, l = s["sorted_layers"], s["visited_layers"], s["layer"].t
    o0, v0 = s.pre["sorted_layers"], s.pre["visited_layers"]
    x = Int("x")
    return done_part(s, o, v) + [
        ("the layer is sorted", o.has(l)),
        grown(o0, o),
        ("visited layers stay visited", ForAll([x], Implies(v0.dom[x], v.dom[x]), patterns=[v0.dom[x]])),
        ("no other layer is left unsorted", ForAll([x], pend(o, v)(x) == pend(o0, v0)(x), patterns=[v.dom[x]])),
        ("sorted layers stay sorted", ForAll([x], Implies(o0.has(x), o.has(x)), patterns=[o0.pos[x]])),
    ]


def topo_loop(s):
    nl, na, pl, pa = graph(s)
    o, v, l = s["sorted_layers"], s["visited_layers"], s["layer"].t
    o0, v0 = s.pre["sorted_layers"], s.pre["visited_layers"]
    x, j = Ints("x j")
    return done_part(s, o, v) + [
        grown(o0, o),
        ("visited layers stay visited", ForAll([x], Implies(v0.dom[x], v.dom[x]), patterns=[v0.dom[x]])),
        ("the layer is being visited", And(v.dom[l], Not(o.has(l)))),
        ("no other layer is left unsorted", ForAll([x], pend(o, v)(x) == Or(pend(o0, v0)(x), x == l), patterns=[v.dom[x]])),
        ("sorted layers stay sorted", ForAll([x], Implies(o0.has(x), o.has(x)), patterns=[o0.pos[x]])),
        ("the consumers met are sorted", ForAll([j], Implies(And(0 <= j, j < s.k), o.has(na[l][j])), patterns=[na[l][j]])),
    ]


TOPO = Contract(gi.parcours_prof_topo, {"sorted_layers": lambda vc: vc.seq("sorted", "Layer", vc.fresh("slo", I)), "layer": "Layer",
                                        "visited_layers": lambda vc: vc.set("visited", I)},
                requires=topo_requires, ensures=topo_ensures, loops=[topo_loop], modifies=("sorted_layers", "visited_layers"),
                measure=lambda s: SIZE - RANK(s["layer"].t))


def tri_requires(s):
    d = s["dnn"]
    nl, na, pl, pa = graph(s)
    x = Int("x")
    return [("the network has layers", d.lo < d.hi), ("distinct layers", d.distinct()),
            ("the network is the list", ForAll([x], NET(x) == d.has(x), patterns=[NET(x)])),
            ("the network is the list", ForAll([x], NET(x) == d.has(x), patterns=[d.pos[x]])),
            *acyclic(s), *links(s, NET),
            ("no layer is both an input and a constant", ForAll([x], Not(And(IS_INPUT(x), IS_CONST(x))), patterns=[IS_INPUT(x), IS_CONST(x)])),
            ("inputs and constants read nothing", ForAll([x], Implies(And(NET(x), Or(IS_INPUT(x), IS_CONST(x))), pl[x] == 0),
                                                         patterns=[pl[x]]))]


def own_lists(s):
    """The lists created by the function, in order."""
    from pyvc import Empty, Seq
    out = {}
    for v in s.st.loc.values():
        if hasattr(v, "oid") and s.vc.local_oid(v.oid):
            c = s.st.store[v.oid]
            if isinstance(c, Empty) and c.what == "list":
                c = s.vc.empty_seq("Layer")
            if isinstance(c, Seq):
                out[v.oid] = c
    return [out[k] for k in sorted(out)]


def tri_visit(s):
    d, v = s["dnn"], visited_of(s)
    o = own_lists(s)[0]
    x, i = Ints("x i")
    return done_part(s, o, v) + [
        ("visited layers are sorted", ForAll([x], Implies(v.dom[x], o.has(x)), patterns=[v.dom[x]])),
        ("the layers met are sorted", ForAll([i], Implies(And(d.lo <= i, i < s.k), o.has(d.arr[i])), patterns=[d.arr[i]])),
    ]


def tri_split(s):
    o, *parts = own_lists(s)
    want = [IS_INPUT, IS_CONST, None]
    x, i, j = Ints("x i j")
    out = []
    for name, p, w in zip(("inputs", "constants", "others"), parts, want):
        if w is IS_INPUT:
            c = lambda x: And(IS_INPUT(x), Not(IS_CONST(x)))  # noqa: E731
        elif w is IS_CONST:
            c = IS_CONST
        else:
            c = lambda x: And(Not(IS_INPUT(x)), Not(IS_CONST(x)))  # noqa: E731
        out += [
            (f"{name} are distinct", p.distinct()),
            (f"{name} are the layers of that kind met so far", ForAll([x], p.has(x) == And(o.has(x), o.pos[x] < s.k, c(x)),
                                                                      patterns=[p.pos[x], o.pos[x]])),
            (f"{name} keep their order", ForAll([i, j], Implies(And(p.lo <= i, i < j, j < p.hi), o.pos[p.arr[i]] < o.pos[p.arr[j]]),
                                                patterns=[z3.MultiPattern(p.arr[i], p.arr[j])])),
        ]
    return out


def tri_ensures(s):
    nl, na, pl, pa = graph(s)
    d = s["dnn"]
    o, n, c = s.value
    o, c = s.st.store[o.oid], s.st.store[c.oid]
    path = s.st.heap["path"]
    x, y, j = Ints("x y j")
    later = And(0 <= j, j < nl[x], o.pos[na[x][j]] > o.pos[y])
    both = And(o.has(x), o.has(y), o.pos[x] < o.pos[y])
    return [
        ("every layer of the network is listed", ForAll([x], o.has(x) == d.has(x)),
         ["the list is the network*", "the network is the list"]),
        ("no layer is listed twice", o.distinct(), ["distinct"]),
        ("every layer comes after the layers it reads", ForAll([x, j], Implies(And(o.has(x), 0 <= j, j < nl[x]), And(
            o.has(na[x][j]), o.pos[na[x][j]] > o.pos[x]))), ["consumers come after"]),
        ("paths are below the announced number", ForAll([x], Implies(o.has(x), And(0 <= path[x], path[x] < n))),
         ["max", "comprehension", "assign_liveliness_index: the layer's path*", "assign_liveliness_index: every*"]),
        ("no path is shared by a layer and one run before its last consumer", ForAll([x, y, j], Implies(And(both, later), path[x] != path[y])),
         ["assign_liveliness_index: no path*"]),
        ("the layers with several consumers are kept", ForAll([x], c.dom[x] == And(o.has(x), nl[x] > 1))),
        ("no constant buffer is shared by a layer and one kept before its last consumer", ForAll([x, y, j], Implies(And(
            c.dom[x], c.dom[y], o.pos[x] < o.pos[y], later), c.val[x] != c.val[y]))),
    ]


class Held:
    def __init__(self, oid):
        self.oid = oid


def tri_lemmas(s):
    from pyvc import Seq
    nl, na, pl, pa = graph(s)
    o1, ins, cst, oth = [s.st.store[k] for k in sorted(s.st.store) if s.vc.local_oid(k) and isinstance(s.st.store[k], Seq)][:4]
    o, d = s.args["execution_order"], s.pre["dnn"]
    x, j = Ints("x j")
    y = na[x][j]
    ni, nc = ins.hi - ins.lo, cst.hi - cst.lo
    place = ["inputs come first", "constants come next", "then the others"]
    kinds = [f"{n} are the layers of that kind met so far" for n in ("inputs", "constants", "others")]
    apart = [f"{n} are distinct" for n in ("inputs", "constants", "others")]
    import types
    split = tri_split(types.SimpleNamespace(st=types.SimpleNamespace(loc={n: Held(k) for n, k in enumerate(
        [k for k in sorted(s.st.store) if s.vc.local_oid(k) and isinstance(s.st.store[k], Seq)][:4])}, store=s.st.store), vc=s.vc, k=o1.hi))
    return [
        *split,
        ("the layers sorted are those of the network", ForAll([x], o1.has(x) == d.has(x), patterns=[o1.pos[x]])),
        ("the layers sorted are those of the network ", ForAll([x], o1.has(x) == NET(x), patterns=[NET(x)])),
        (place[0], ForAll([x], Implies(ins.has(x), And(o.has(x), o.pos[x] == ins.pos[x] - ins.lo)), patterns=[o.pos[x]])),
        (place[1], ForAll([x], Implies(cst.has(x), And(o.has(x), o.pos[x] == cst.pos[x] - cst.lo + ni)), patterns=[o.pos[x]])),
        (place[2], ForAll([x], Implies(oth.has(x), And(o.has(x), o.pos[x] == oth.pos[x] - oth.lo + ni + nc)), patterns=[o.pos[x]])),
        ("every layer is in a part", ForAll([x], o1.has(x) == Or(ins.has(x), cst.has(x), oth.has(x)), patterns=[o1.pos[x], o.pos[x]])),
        ("parts are lists", And(ins.lo <= ins.hi, cst.lo <= cst.hi, oth.lo <= oth.hi)),
        ("distinct", o.distinct(), ["concat", "parts are lists", *place, *apart]),
        ("no layer is lost", ForAll([x], o.has(x) == o1.has(x), patterns=[o.pos[x]])),
        ("the list is the network", ForAll([x], o.has(x) == NET(x), patterns=[o.pos[x]])),
        ("the list is the network ", ForAll([x], o.has(x) == NET(x), patterns=[NET(x)])),
        ("consumers are other layers", ForAll([x, j], Implies(And(NET(x), 0 <= j, j < nl[x]), And(NET(y), oth.has(y))), patterns=[y])),
        ("other layers keep their order", ForAll([x, j], Implies(And(oth.has(x), 0 <= j, j < nl[x]), oth.pos[y] > oth.pos[x]), patterns=[y])),
        ("consumers come after", ForAll([x, j], Implies(And(o.has(x), 0 <= j, j < nl[x]), And(o.has(y), o.pos[y] > o.pos[x])), patterns=[y]),
         ["the list is the network*", "every layer is in a part", *place, "no layer is lost", "consumers are other layers",
          "other layers keep their order", "parts are lists"]),
    ]



TRI = Contract(gi.tri_topo, {"dnn": lambda vc: vc.seq("dnn", "Layer")}, requires=tri_requires, ensures=tri_ensures,
               loops=[tri_visit, tri_split], before={gi.assign_liveliness_index: tri_lemmas,
                       (gi.assign_liveliness_index, "distinct"): ["distinct"],
                       (gi.assign_liveliness_index, "topological"): ["consumers come after"],
                       (gi.assign_liveliness_index, "links"): ["links", "the list is the network*"],
                       (gi.assign_liveliness_index, "links back"): ["links back", "the list is the network*"],
                       (gi.assign_cst, "links"): ["links", "the list is the network*"],
                       (gi.assign_cst, "links back"): ["links back", "the list is the network*"],
                       (gi.assign_cst, "distinct"): ["distinct"], (gi.assign_cst, "topological"): ["consumers come after"]})
