"""check.py <property> [--tier quick|thorough] [--only SUBSTR]: decide one property on /repo.

Every task runs in its own forked process.  Exit 0: every obligation was discharged (or belongs to
a listed known finding).  Exit 1: VIOLATION line.
"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

if __name__ == "__main__" and os.environ.get("PYTHONHASHSEED") != "0":
    # the order in which sets of names are walked, hence the verdict of the solver, is the same in every run
    os.execve(sys.executable, [sys.executable, *sys.argv], dict(os.environ, PYTHONHASHSEED="0"))
T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)


class Task:
    """One unit of work: fn() -> dict(obligations=[(kind, name, ok, detail)], unsupported=..., ...)."""

    def __init__(self, name, fn, limit=300, search=None, label="proof", weight=1):
        self.name, self.fn, self.limit, self.search, self.label, self.weight = name, fn, limit, search, label, weight


#: orders of sets tried: the verdict of a proof search that runs out of time or of cases can depend on them.
#: Each attempt is a whole proof, so one that succeeds is enough
ORDERS = (1, 7919, 104729)
#: a task that is still running after this many seconds is also started in the next order, on an idle core
PATIENCE = 45


def run_tasks(tasks, deadline, jobs=8, scratch=None):
    """{task name: result}; each in a forked child with a time and memory limit."""
    todo = [(t, 0) for t in sorted(tasks, key=lambda t: -t.weight)]
    live = {}
    out = {}
    first = {}          # task name -> the result of its first attempt, when another one is made
    tried = {t.name: 0 for t in tasks}
    prove = any(t.search for t in tasks)

    def start(t, k):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            child(t, w, scratch, k)
        os.close(w)
        tried[t.name] = max(tried[t.name], k + 1)
        live[r] = (t, pid, time.time(), bytearray(), k)

    def running(name):
        return [fd for fd, v in live.items() if v[0].name == name]

    def done(t, res, k):
        """Take the result of an attempt, or wait for another one."""
        if t.name in out:
            return
        bad = [o for o in res["obligations"] if not o[2]]
        good = res["obligations"] and not bad and not res.get("unsupported")
        if not good and prove:
            first.setdefault(t.name, res)
            if running(t.name):
                return
            if tried[t.name] == 1 and t.label == "proof" and time.time() + 60 < deadline and (
                    res.get("unsupported") in ("time limit", "memory limit")
                    or bad and not any(o[0] in CONCRETE for o in bad)):
                tried[t.name] = 2
                todo.append((t, 1))
                return
            res = first[t.name]
        elif good and k:
            res["order"] = ORDERS[k]
        out[t.name] = res
        for fd in running(t.name):
            kill(live[fd][1])
            os.close(fd)
            del live[fd]

    while todo or live:
        while todo and len(live) < jobs:
            start(*todo.pop(0))
        if prove and not todo and len(live) < jobs:
            now = time.time()
            for t, _, st, _, k in sorted(live.values(), key=lambda v: v[2]):
                if (len(live) < jobs and t.label == "proof" and now - st > PATIENCE
                        and k + 1 == tried[t.name] < len(ORDERS)):
                    start(t, k + 1)
        ready, _, _ = select.select(list(live), [], [], 0.5)
        for fd in ready:
            if fd not in live:
                continue
            t, pid, st, buf, k = live[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                buf += chunk
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del live[fd]
            try:
                res = pickle.loads(bytes(buf))
            except Exception:  # noqa: BLE001
                res = dict(obligations=[], unsupported="the process ended without a result (memory?)",
                           seconds=time.time() - st)
            done(t, res, k)
        now = time.time()
        for fd, (t, pid, st, buf, k) in list(live.items()):
            if fd in live and (now - st > t.limit or now > deadline):
                kill(pid)
                os.close(fd)
                del live[fd]
                done(t, dict(obligations=[], unsupported="time limit", seconds=now - st), k)
        if now > deadline:
            for t, _ in todo:
                out.setdefault(t.name, first.get(t.name) or dict(
                    obligations=[], unsupported="time limit of the check", seconds=0.0))
            todo = []
    return out


def kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    try:
        os.waitpid(pid, 0)
    except ChildProcessError:
        pass


def child(t, w, scratch, k=0):
    code = 1
    try:
        if k:
            import core
            core.SHUFFLE = ORDERS[k]
        lim = 12 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, resource.RLIM_INFINITY))
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)                # what the code under verification prints is not the check's output
        t0 = time.time()
        try:
            res = t.fn()
        except MemoryError:
            res = dict(obligations=[], unsupported="memory limit")
        except BaseException as e:  # noqa: BLE001
            res = dict(obligations=[], unsupported=f"{type(e).__name__}: {e}",
                       trace=traceback.format_exc()[-3000:])
        res.setdefault("seconds", time.time() - t0)
        data = pickle.dumps(res)
        n = 0
        while n < len(data):
            n += os.write(w, data[n:n + (1 << 20)])
        code = 0
    finally:
        os._exit(code)


def load_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for ln in f:
                ln = ln.strip()
                if ln and ln.startswith("{"):
                    out.append(json.loads(ln))
    return out


def matches(f, prop, task, kind, name):
    if f.get("property") != prop or f.get("status", "open") != "open":
        return False
    if f.get("task") not in (None, task):
        return False
    return (f.get("kind") in (None, kind)) and (f.get("obligation", "") in name)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="vcheck_")
    os.environ["VC_SCRATCH"] = scratch
    tempfile.tempdir = scratch
    try:
        code = decide(a, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def decide(a, tier, seed, scratch):
    prop = a.prop
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    try:
        import boot
        boot.load()
        mod = importlib.import_module(f"props.{prop}")
        spec = mod.tasks(tier, seed)
    except BaseException as e:  # noqa: BLE001
        # the tree does not even import: whatever the property says, it does not hold of it
        path = os.path.join(rdir, f"{prop}-load.json")
        write(path, dict(property=prop, failed="the code under verification cannot be loaded",
                         error=f"{type(e).__name__}: {e}", trace=traceback.format_exc()))
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)} no-failing-input-found")
        evidence(prop, tier, seed, mod_info(None), {}, [], 1)
        return 1
    if a.only:
        spec = [t for t in spec if a.only in t.name]
    deadline = T0 + (640 if tier == "quick" else 3000)
    res = run_tasks(spec, deadline, a.jobs, scratch)
    findings = load_findings()
    known, bad = [], []
    by = {t.name: t for t in spec}
    hit = set()
    for t in spec:
        r = res[t.name]
        for k, n, ok, d in r["obligations"]:
            if not ok:
                f = next((f for f in findings if matches(f, prop, t.name, k, n)), None)
                if f:
                    known.append((f, t.name, n))
                    hit.add(f["id"])
                else:
                    bad.append((t.name, k, n, d))
        if r.get("unsupported"):
            f = next((f for f in findings if matches(f, prop, t.name, "generate", "")), None)
            if f:
                known.append((f, t.name, r["unsupported"]))
            else:
                bad.append((t.name, "generate", "verification conditions can be generated", r["unsupported"]))
        elif not r["obligations"]:
            bad.append((t.name, "vacuous", "at least one obligation is generated", ""))
        if a.verbose:
            o = r["obligations"]
            print(f"  {t.name:60} {sum(1 for x in o if x[2])}/{len(o)} {r.get('seconds', 0):7.1f}s "
                  f"{(r.get('unsupported') or '')[:300]}")
            for k, n, ok, d in o:
                if not ok:
                    print(f"      FAIL [{k}] {n[:200]}\n           {d[:700]}")
            if r.get("trace"):
                print(r["trace"])
    seen = set()
    for f, tn, n in known:
        if f["id"] not in seen:
            seen.add(f["id"])
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    # concrete inputs for what failed
    failed = list(dict.fromkeys(b[0] for b in bad))
    st = [Task(n, by[n].search, 60) for n in failed if by[n].search]
    found = {}
    if st:
        left = max(time.time() + 30, min(T0 + 840, time.time() + 200))
        sres = run_tasks(st[:24], left, a.jobs, scratch)
        for n, r in sres.items():
            if r.get("found"):
                found[n] = r
    lines = []
    for i, n in enumerate(failed):
        items = [b for b in bad if b[0] == n]
        fn = "".join(c if c.isalnum() or c in "-_." else "_" for c in n)[:80]
        path = os.path.join(rdir, f"{prop}-{fn}.json")
        rec = dict(property=prop, task=n, command=f"python vc/check.py {prop} --only {n!r} -v",
                   failed_obligations=[dict(kind=k, obligation=o, output=d) for _, k, o, d in items[:20]])
        inline = next((d for _, k, o, d in items if k in CONCRETE), None)
        if n in found:
            rec["failing_input"] = found[n]["found"]
        elif inline is not None:
            rec["failing_input"] = inline
        write(path, rec)
        tail = "" if "failing_input" in rec else " no-failing-input-found"
        lines.append((tail != "", f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}{tail}"))
    lines.sort()
    # violations with a replayed input first; those without one only when there is no other
    if any(not nf for nf, _ in lines):
        lines = [x for x in lines if not x[0]]
    for _, ln in lines:
        print(ln)
    evidence(prop, tier, seed, mod_info(mod), res, spec, len(lines), known)
    return 1 if lines else 0


#: obligation kinds that are themselves executions of the real code on a concrete input
CONCRETE = ("sample", "run", "enumerated")


def mod_info(mod):
    g = lambda n, d: getattr(mod, n, d) if mod else d
    return dict(assumptions=list(g("ASSUMPTIONS", [])), trusted=list(g("TRUSTED", [])), level=g("LEVEL", "proof"),
                bounded=list(g("BOUNDED", [])))


BASE_TRUST = [
    "the verification-condition generator and prover in /verif/vc (core, arrays, cparse, cexec, pyfront)",
    "Z3 4.x (nonlinear integer queries; linear certificates are re-checked with exact arithmetic)",
    "CPython, numpy, Jinja2/pystache rendering, which execute the real generator",
]


def evidence(prop, tier, seed, info, res, spec, nviol, known=()):
    obs = [(t.label, o) for t in spec for o in res[t.name]["obligations"]]
    kn = {n for _, _, n in known}
    proof = [o for lab, o in obs if lab == "proof"]
    other = [o for lab, o in obs if lab != "proof"]
    stats = {}
    funcs = set()
    for t in spec:
        for k, v in (res[t.name].get("stats") or {}).items():
            stats[k] = round(stats.get(k, 0) + v, 2)
        funcs |= set(res[t.name].get("functions") or [])
    cov = dict(
        obligations=len(proof), discharged=sum(1 for o in proof if o[2]),
        known_findings=len(kn),
        checker_cmd=f"/opt/venv/bin/python vc/check.py {prop} --tier {tier}",
        trusted_base=BASE_TRUST + info["trusted"],
        by_back_end=dict(
            substitution_certificates=stats.get("subst", 0), handelman_certificates=stats.get("handelman", 0),
            z3=stats.get("z3", 0), note="remaining obligations are closed by term normalisation"),
        solver_time_s=stats.get("solver_time", 0),
        functions_under_contract=sorted(funcs),
        tasks=[dict(name=t.name, label=t.label, obligations=len(res[t.name]["obligations"]),
                    discharged=sum(1 for o in res[t.name]["obligations"] if o[2]),
                    paths=res[t.name].get("paths", 0), seconds=round(res[t.name].get("seconds", 0), 2))
               for t in spec],
        bounded=dict(checks=len(other), held=sum(1 for o in other if o[2]), what=info["bounded"],
                     note="executions of the real code on concrete inputs: bounded, not counted as proved"),
    )
    kinds = {}
    for _, o in obs:
        kinds[o[0]] = kinds.get(o[0], 0) + 1
    cov["obligations_by_kind"] = kinds
    ev = dict(property=prop, tier=tier, seed=seed, level=info["level"], coverage=cov,
              assumptions=info["assumptions"], wall_s=round(time.time() - T0, 2), violations=nviol)
    write(os.path.join(VERIF, "evidence", f"{prop}.json"), ev)


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + f".{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1, default=str)
    os.replace(tmp, path)


if __name__ == "__main__":
    main()
