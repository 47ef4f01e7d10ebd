"""Write a planted bug: seed.py ID  (reads /tmp/seed/ID.py: META, EDITS, DEMO), check demo on both trees."""
import json
import pathlib
import shutil
import subprocess
import sys

SEEDED = pathlib.Path("/verif/seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(sid):
    ns = {}
    exec(pathlib.Path(f"/tmp/seed/{sid}.py").read_text(), ns)
    wt = pathlib.Path(f"/tmp/seedwt_{sid}")
    if wt.exists():
        shutil.rmtree(wt)
    sh(f"git clone -q --no-hardlinks /repo {wt}")
    d = SEEDED / sid
    d.mkdir(parents=True, exist_ok=True)
    (d / "demo.py").write_text(ns["DEMO"])
    shutil.copy("/verif/tools/netrun.py", d / "netrun.py")
    (d / "demo.sh").write_text('#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\n'
                               'export PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=\n'
                               'exec timeout 280 /opt/venv/bin/python "$HERE/demo.py"\n')
    (d / "meta.json").write_text(json.dumps(ns["META"], indent=1) + "\n")
    ok = sh(f"bash {d}/demo.sh", cwd=wt)
    for f, a, b in ns["EDITS"]:
        p = wt / "src/acetone_nnet" / f
        t = p.read_text()
        assert t.count(a) >= 1, (f, a)
        if t.count(a) > 1:
            print("note: several places", f, t.count(a))
        p.write_text(t.replace(a, b, 1))
    (d / "patch.diff").write_text(sh("git diff", cwd=wt).stdout)
    bad = sh(f"bash {d}/demo.sh", cwd=wt)
    res = f"{sid}: clean {ok.returncode} patched {bad.returncode}"
    if ok.returncode or not bad.returncode or "Traceback" in bad.stderr and "AssertionError" not in bad.stderr:
        res += "\n" + ok.stderr[-700:] + "\n--\n" + bad.stdout[-300:] + bad.stderr[-500:]
    print(res)
    shutil.rmtree(wt)


for s in sys.argv[1:]:
    make(s)
