"""A09: memory safety of the generated code, over the code of every layer."""
from casetasks import case_tasks
from layers import conv, dense, elementwise, movement, reduction, resize

KINDS = {"bounds", "divisor", "initialised", "declared", "syntax"}
ASSUMPTIONS = ["the caller of inference passes input and output arrays of the declared sizes",
               "machine integers do not overflow: every index is below the size of an array that fits in memory"]


def tasks(tier, seed):
    out = []
    for m in (conv, dense, elementwise, movement, reduction):
        out += case_tasks(m.CASES, ["code"], tier, seed, kinds=KINDS, want={"sanitizer", "compile"}, few=True,
                          sample=m in (conv, movement))
    light = [c for c in resize.CASES if c.weight == 1 and (tier != "quick" or "cubic" not in c.name)]
    out += case_tasks(light, ["code"], tier, seed, kinds=KINDS, want={"sanitizer", "compile"}, few=True, sample=False)
    return out
