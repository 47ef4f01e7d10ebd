"""Writes /verif/MANIFEST.json from the property modules that exist (run by hand)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = ("contract-based deductive verification: the real generator is executed with symbolic sizes and parameters, its "
       "emitted C is turned into verification conditions and every obligation is discharged for all sizes")
PY = ("contract-based deductive verification: verification conditions generated from the real Python code, every "
      "obligation discharged for all inputs")
TECH = {
    "A10": "contract-based deductive verification: the real forward functions are executed on symbolic tensors and "
           "proved equal to the layer's postcondition for all sizes and values",
}
NOTE = {}
LEVEL = {}
NA = {}
PYTHON = {"A01", "A02", "A11", "A12", "A13", "A14", "A15", "A16", "A17", "A18", "A19", "A21"}


def load(name):
    p = os.path.join(V, "tools", name)
    return json.load(open(p)) if os.path.exists(p) else {}


def main():
    notes = load("notes.json")
    props = [json.loads(ln) for ln in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(V, "vc", "props", i + ".py")):
            cmd = f"/opt/venv/bin/python vc/check.py {i}"
            n = notes.get(i, {})
            checks.append(dict(
                property=i, quick_cmd=cmd + " --tier quick", thorough_cmd=cmd + " --tier thorough",
                technique=n.get("technique") or TECH.get(i) or (PY if i in PYTHON else GEN),
                level=n.get("level", "proof"),
                level_note=n.get("note", "Obligations generated from /repo's current source on every run; exact real "
                                         "arithmetic; sampled executions of the real code are bounded cross-checks.")))
        else:
            na.append(dict(property=i, reason=notes.get(i, {}).get("na", "not claimed: the contracts for this part are not built")))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python vc/selftest.py", checks=checks, not_applicable=na)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
