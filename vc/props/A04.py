"""A04: Dense, Gemm and MatMul code computes the matrix product."""
from casetasks import case_tasks
from layers import dense

ASSUMPTIONS = ["exact real arithmetic: rounding of float operations in the generated code is not modelled"]


def tasks(tier, seed):
    return case_tasks(dense.CASES, ["code"], tier, seed)
