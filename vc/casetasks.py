"""Tasks for the properties that are decided by layer contracts (Case)."""
from __future__ import annotations

import os
import random
import sys

import boot
from check import Task

TOOL = 3


class Covered:
    """Functions of the repository that were executed symbolically (once per code object)."""

    def __enter__(self):
        self.names = set()
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "vc")
        pre = os.path.realpath(boot.REPO) + "/src/"

        def start(code, _off):
            if code.co_filename.startswith(pre) and "<" not in code.co_name:
                self.names.add(f"{code.co_filename[len(pre):]}:{code.co_qualname}")
            return mon.DISABLE
        mon.register_callback(TOOL, mon.events.PY_START, start)
        mon.set_events(TOOL, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        sys.monitoring.set_events(TOOL, 0)
        sys.monitoring.free_tool_id(TOOL)


def prove_fn(case, mode, ios, kinds=None):
    def fn():
        import prove
        out = dict(obligations=[], paths=0, unsupported=None)
        with Covered() as c:
            for io in ios:
                rep = prove.prove_code(case, io) if mode == "code" else prove.prove_python(case, io)
                p = rep.plain()
                obs = [o for o in p["obligations"] if kinds is None or o[0] in kinds]
                out["obligations"] += [(k, f"[{io}] {n}", ok, d) for k, n, ok, d in obs]
                out["paths"] += p["paths"]
                out["stats"] = p["stats"]
                if p["unsupported"]:
                    out["unsupported"] = f"[{io}] {p['unsupported']}"
                elif not obs:
                    out["obligations"].append(("vacuous", f"[{io}] at least one obligation is generated", False, ""))
        out["functions"] = sorted(n for n in c.names if relevant(n))
        return out
    return fn


def relevant(n):
    return any(s in n for s in ("generator/layers", "generator/activation", "generator/Layer", "ir/layer",
                                "graph/", "versioning", "quantize", "importers", "pattern", "code_gen",
                                "neural_network", "Layer")) and "NpShim" not in n


def search_fn(case, mode, ios, want=None):
    def fn():
        import conc
        for io in ios:
            r = conc.search(case, mode, io, want=want, seconds=50 / len(ios))
            if r is not None:
                return dict(obligations=[], found=dict(status=r.status, detail=r.detail, mode=mode, **r.info))
        return dict(obligations=[], found=None)
    return fn


def sample_fn(cases, mode, seed, n, want=None):
    """Run the real code on n sampled configurations of each case."""
    def fn():
        import conc
        import prove
        obs = []
        for case in cases:
            rnd = random.Random(f"{seed}/{case.name}")
            runs = variants(case, mode)
            for k in range(max(n, 1)):
                v = case.draw(rnd)
                if v is None:
                    continue
                io = runs[k % len(runs)]
                r = conc.run(case, mode, io, v, seed=rnd.randint(0, 10 ** 6))
                bad = r.bad and (want is None or r.status in want)
                obs.append(("sample", f"{case.name}[{io}] {v}", not bad, f"{r.status}: {r.detail}" if bad else ""))
        return dict(obligations=obs)
    return fn


def variants(case, mode):
    import prove
    if mode == "code":
        n = len(case.in_shapes_count())
        return prove.ios_for(n) if case.ios == "auto" else case.ios
    return list(case.py_variants)


def case_tasks(cases, modes, tier, seed, kinds=None, want=None, sample=True, limit=420, few=False):
    """One task per case and mode (per placement of the tensors when the case is heavy).

    few: only the first placement (the other ones are decided by the layer's own property)."""
    out = []
    for case in cases:
        for mode in modes:
            if mode == "code" and not case.code or mode == "python" and not case.python:
                continue
            if (case.bounded or {}).get(mode):
                continue
            vs = variants(case, mode)
            if few and tier == "quick":
                vs = vs[:1]
            groups = [[v] for v in vs] if case.weight > 1 else [vs]
            for g in groups:
                name = f"{case.name}/{mode}" + (f"/{g[0]}" if case.weight > 1 else "")
                out.append(Task(name, prove_fn(case, mode, g, kinds), limit, search_fn(case, mode, g, want),
                                weight=case.weight))
    if sample:
        for mode in modes:
            cs = [c for c in cases if (c.code if mode == "code" else c.python)]
            nb = [c for c in cs if not (c.bounded or {}).get(mode)]
            bd = [c for c in cs if (c.bounded or {}).get(mode)]
            # the sampled runs cross-check the contracts and the engine: a few cases per run are enough
            k = 12 if tier == "quick" else len(nb)
            rnd = random.Random(seed)
            nb = rnd.sample(nb, min(k, len(nb)))
            for i in range(0, len(nb), 3):
                out.append(Task(f"samples/{mode}/{i // 3}", sample_fn(nb[i:i + 3], mode, seed, 2 if tier == "quick" else 10, want),
                                limit, label="bounded"))
            for c in bd:
                out.append(Task(f"bounded/{mode}/{c.name}", sample_fn([c], mode, seed, 20 if tier == "quick" else 200, want),
                                limit, label="bounded", weight=2))
    return out
