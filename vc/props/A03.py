"""A03: convolution code computes the convolution, whatever the algorithm."""
from casetasks import case_tasks
from layers import conv

ASSUMPTIONS = ["exact real arithmetic: rounding of float operations in the generated code is not modelled"]


def tasks(tier, seed):
    return case_tasks(conv.CASES, ["code"], tier, seed)
