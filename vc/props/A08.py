"""A08: Resize code computes the interpolation ONNX defines."""
from casetasks import case_tasks
from check import Task
from layers import resize

ASSUMPTIONS = ["exact real arithmetic: rounding of float operations in the generated code (the coordinates included) is not modelled",
               "cubic: a coordinate is kept as one unknown number, the same one in the code and in the specification"]


def lemmas():
    """The specification's own claims: what its rounding formulas are, and that edge neighbours have the weight 0."""
    def fn():
        import z3
        x = z3.Real("x")
        h, w = z3.Ints("h w")
        floor = z3.ToInt
        k, m = z3.Ints("k m")
        real = z3.ToReal
        a, s = z3.Reals("a s")
        c = resize.cubic(a, s)

        def valid(name, f):
            sv = z3.Solver()
            sv.set("timeout", 60000)
            sv.add(z3.Not(f))
            return ("lemma", name, sv.check() == z3.unsat, "")
        half = z3.Q(1, 2)
        # k = ceil(2x), m = floor(k / 2), and the other way round
        down = z3.And(real(k) >= 2 * x, real(k) < 2 * x + 1, 2 * m <= k, k < 2 * m + 2)
        up = z3.And(real(k) <= 2 * x, real(k) > 2 * x - 1, 2 * m >= k, k > 2 * m - 2)
        d = x - real(m)
        obs = [valid("round_prefer_floor gives the nearest integer, the lower one of two",
                     z3.Implies(down, z3.And(-half < d, d <= half))),
               valid("round_prefer_ceil gives the nearest integer, the upper one of two",
                     z3.Implies(up, z3.And(-half <= d, d < half))),
               valid("linear: a coordinate clamped to the input whose next neighbour is outside has the weight 0 for it",
                     z3.Implies(z3.And(x >= 0, x <= z3.ToReal(h) - 1, floor(x) + 1 >= h), x == z3.ToReal(floor(x)))),
               valid("linear: the first neighbour of a clamped coordinate is inside",
                     z3.Implies(z3.And(x >= 0, x <= z3.ToReal(h) - 1), z3.And(floor(x) >= 0, floor(x) < h))),
               valid("cubic: the weights add up to 1", sum(c) == 1),
               valid("cubic: a coordinate on an element takes that element",
                     z3.Implies(s == 0, z3.And(c[0] == 0, c[1] == 1, c[2] == 0, c[3] == 0)))]
        return dict(obligations=obs)
    return Task("lemmas of the specification", fn, 200)


def known(case, values):
    def fn():
        import conc
        from casetasks import variants
        r = conc.run(case, "code", variants(case, "code")[0], values, seed=1)
        return dict(obligations=[("run", f"{case.name} {values}", not r.bad, f"{r.status}: {r.detail}" if r.bad else "")])
    return Task(f"settings/{case.name}", fn, 200, label="bounded")


def tasks(tier, seed):
    light = [c for c in resize.CASES if c.weight == 1]
    heavy = [c for c in resize.CASES if c.weight > 1]
    if tier == "quick":
        # with scales, the coordinates differ from those with sizes, not the weights
        heavy = [c for c in heavy if "scales" not in c.name or "asymmetric" in c.name]
    return [lemmas(), *case_tasks(light, ["code"], tier, seed),
            *case_tasks(heavy, ["code"], tier, seed, few=True, limit=600, sample=False),
            *[known(c, v) for c, v in resize.KNOWN]]
