"""A10: the Python inference of every layer computes the layer's function."""
from casetasks import case_tasks
from layers import conv, dense, elementwise, movement, reduction

ASSUMPTIONS = ["exact real arithmetic: rounding of numpy operations is not modelled"]


def tasks(tier, seed):
    return case_tasks([c for m in (conv, dense, elementwise, movement, reduction) for c in m.CASES], ["python"], tier,
                      seed)
