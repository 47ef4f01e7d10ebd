"""A07: layers that move data."""
from casetasks import case_tasks
from layers import movement

ASSUMPTIONS = ["constants and gather indices are the arrays the layer object holds (decided under A14 for parameters)",
               "the caller of inference passes an input array of the declared size"]


def tasks(tier, seed):
    return case_tasks([c for c in movement.CASES if "A07" in c.props], ["code"], tier, seed)
