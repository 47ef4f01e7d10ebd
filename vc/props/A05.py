"""A05: element-wise, broadcast, bias, normalisation and activation layers compute their function."""
from casetasks import case_tasks
from layers import elementwise

ASSUMPTIONS = ["exact real arithmetic: rounding of float operations in the generated code is not modelled",
               "exp, log, tanh, sqrt, pow of math.h are uninterpreted functions"]


def quick(c):
    op, _, pat = c.name.partition(" ")
    return op not in ("Subtract", "Multiply", "Divide", "Minimum") or pat in elementwise.FEW or pat.count("[") > 2 \
        or "constant" in pat or op not in elementwise.OPS


def tasks(tier, seed):
    cs = [c for c in elementwise.CASES if tier != "quick" or quick(c)]
    return case_tasks(cs, ["code"], tier, seed)
