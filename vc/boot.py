"""Process set-up shared by every check: paths, quiet imports, no stale byte code."""
import ast
import builtins
import importlib.machinery as _m
import os
import sys

os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("TF_ENABLE_ONEDNN_OPTS", "0")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = os.environ.get("ACETONE_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

class _Calls(ast.NodeTransformer):
    """`int(x)` and `float(x)` become `vc_int__(x)` and `vc_float__(x)`, `map(int, x)` becomes `map(vc_int__, x)`.

    Both names are the builtins themselves until pyfront.install() replaces them by versions
    that also accept symbolic values (the type names `int` and `float` stay untouched).
    """

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("int", "float"):
            n.func = ast.copy_location(ast.Name("vc_" + n.func.id + "__", ast.Load()), n.func)
        elif isinstance(n.func, ast.Name) and n.func.id == "map" and n.args and isinstance(n.args[0], ast.Name) \
                and n.args[0].id in ("int", "float"):
            n.args[0] = ast.copy_location(ast.Name("vc_" + n.args[0].id + "__", ast.Load()), n.args[0])
        return n


builtins.vc_int__ = int
builtins.vc_float__ = float
_get_code = _m.SourceFileLoader.get_code


def _fresh(self, fullname):
    """Modules of the repository are always compiled from their source text."""
    path = self.get_filename(fullname)
    if os.path.realpath(path).startswith(os.path.realpath(REPO) + os.sep):
        tree = ast.parse(self.get_data(path), path)
        return compile(_Calls().visit(tree), path, "exec", dont_inherit=True)
    return _get_code(self, fullname)


_m.SourceFileLoader.get_code = _fresh

_V = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _z3():
    sys.path.insert(0, _V)
    try:
        import z3  # noqa: F401
    finally:
        sys.path.remove(_V)


_z3()
if HERE not in sys.path:
    sys.path.insert(0, HERE)
_src = os.path.join(REPO, "src")
if _src not in sys.path:
    sys.path.insert(0, _src)


def load():
    """Import acetone_nnet without the chatter of its dependencies."""
    import logging
    import warnings
    warnings.filterwarnings("ignore")
    sys.stderr.flush()
    saved = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        import acetone_nnet  # noqa: F401
        import acetone_nnet.generator  # noqa: F401
    finally:
        sys.stderr.flush()
        os.dup2(saved, 2)
        os.close(saved)
        os.close(null)
    logging.disable(logging.WARNING)
    import acetone_nnet as a
    if not os.path.realpath(a.__file__).startswith(os.path.realpath(REPO)):
        raise RuntimeError(f"acetone_nnet is loaded from {a.__file__}")
