"""Contracts of the Python functions, proved by vc/pyvc.py on their source text."""
import z3

from check import Task


def proved(name, mk, contract, search=None, limit=450, weight=3, lemmas=None):
    """A task that proves one function against its contract; mk() builds the verifier."""
    def fn():
        from pyvc import Unsupported
        vc = mk()
        why = None
        try:
            vc.verify(contract)
        except Unsupported as e:
            why = f"Unsupported: {e}"
        except (z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, StopIteration) as e:
            why = f"the contract does not fit the function any more: {type(e).__name__}: {e}"
        r = dict(obligations=list(vc.obligations), functions=sorted(vc.functions), paths=1,
                 stats=dict(z3=vc.queries, solver_time=vc.seconds))
        if why:
            r["unsupported"] = why
        return r
    return Task(name, fn, limit, search, "proof", weight)
