"""setup_cmd: the tools the checks need are there, and the engine refuses what it must refuse."""
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot

boot.load()
import core
from core import Facts, Sum, app, c_eq, c_ge, c_gt, equal, fresh, poly, proves, sym

assert shutil.which("gcc"), "gcc"
n, m = poly(sym("n")), poly(sym("m"))
F = Facts()
F.lower(n, 1)
F.lower(m, 1)
assert proves(c_ge(n * m - 1), F)
assert not proves(c_ge(n * m - 2), F)
assert not proves(c_gt(n - m), F)
k = poly(fresh("k"))
from arrays import Base
from core import read
a = Base("a")
s1 = Sum([(k, n)], read(a, (k,)))
k2 = poly(fresh("k"))
assert equal(s1, Sum([(k2, n)], read(a, (k2,))), F)[0]
assert not equal(s1, Sum([(k2, n)], read(a, (k2 + 1,))), F)[0]
assert not equal(s1, Sum([(k2, m)], read(a, (k2,))), F)[0]
assert not equal(app("ACT", n), app("ACT", m), F)[0]
import difftest

assert difftest.main() >= 30, "C programs handled"
print("ok")
