"""A02: execution order."""
import graphs
from acetone_nnet.graph.graph_interpretor import tri_topo
from check import Task
from contracts import graph, proved

ASSUMPTIONS = ["the network is acyclic, identifiers are distinct, links agree in both directions"]
TRUSTED = ["the Python verifier vc/pyvc.py: its reading of lists, dictionaries, sets, recursion, comprehensions and field access",
           "identifiers stand for layers (distinct identifiers are a precondition)"]
BOUNDED = ["every network of at most 5 layers, and random ones of at most 10, run through the real functions"]


def one(n, edges, order, kinds, ids=None):
    ls = graphs.network(n, edges, ids, kinds)
    try:
        out, *_ = tri_topo([ls[k] for k in order])
        return graphs.topological(ls, out)
    except Exception as e:  # noqa: BLE001
        return f"tri_topo failed: {type(e).__name__}: {e}"


def run(cases, name):
    def fn():
        bad, k = None, 0
        for n, edges, order, kinds, *ids in cases():
            k += 1
            r = one(n, edges, order, kinds, *ids)
            if r:
                bad = f"{graphs.describe(n, edges, order, kinds, *ids)}: {r}"
                break
        return dict(obligations=[("enumerated", f"{name}", bad is None, bad or "")], paths=k,
                    functions=["graph_interpretor.tri_topo", "graph_interpretor.parcours_prof_topo"])
    return fn


def tasks(tier, seed):
    q = tier == "quick"
    def mk():
        return graph.vc(graph.LIVE, graph.CST, graph.TOPO, graph.TRI)
    return [
            proved("contract/parcours_prof_topo", mk, graph.TOPO),
            proved("contract/tri_topo", mk, graph.TRI),
            Task("enumerated/small networks", run(lambda: graphs.small(5), "every network of at most 5 layers (4: every listing order, one doubled link)"),
                 400, label="bounded"),
            Task("enumerated/random networks", run(lambda: graphs.random_graphs(seed, 20000 if q else 400000), "random networks of at most 10 layers"),
                 400, label="bounded")]
