"""A06: pooling, reduction and softmax layers compute their function."""
from casetasks import case_tasks
from layers import reduction

ASSUMPTIONS = ["exact real arithmetic: rounding of float operations in the generated code is not modelled",
               "exp of math.h is an uninterpreted function",
               "pooling: no side is padded by a whole window, so that every window holds a cell of the input"]


def tasks(tier, seed):
    return case_tasks(reduction.CASES, ["code"], tier, seed)
