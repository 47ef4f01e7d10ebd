"""The C front end against the compiler: small programs run by the symbolic executor for sizes N and M, and by gcc.

The executor's answer is a term in N, M and the elements of the input array; it must evaluate to what the compiled program
stores, or the executor must refuse the program.
"""
import os
import random
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot

boot.load()
import arrays
import ceval
import core
from arrays import Base
from cexec import Exec
from core import Facts, fresh, poly, read, sym
from cparse import Unsupported

# (program, whether the executor handles it); a: N*M input values, o: N*M outputs (initially zero), s: scalar
PROGRAMS = [
    ("for (i = 0; i < N; ++i) o[i] = a[i];", True),
    ("for (i = N - 1; i >= 0; --i) o[i] = a[i] + i;", True),
    ("for (i = N; i > 0; i--) o[i - 1] = 2 * a[N - i];", True),
    ("for (i = 0; i < N; ++i) o[i] = a[i]; for (i = N - 1; i > 0; --i) o[i] = o[i - 1];", True),
    ("for (i = 0; i < N; ++i) o[i] = a[i]; for (i = 1; i < N; ++i) o[i] = o[i - 1];", False),
    ("for (i = 0; i < N; ++i) o[i] = a[i]; for (i = 0; i < N - 1; ++i) o[i] = o[i + 1];", True),
    ("for (i = 0; i < N; ++i) o[i] = a[i]; for (i = N - 2; i >= 0; --i) o[i] = o[i + 1];", False),
    ("s = 0; for (i = N - 1; i >= 0; --i) { s += a[i]; o[i] = s; }", True),
    ("s = 0; for (i = 0; i < N; ++i) { s += a[i]; o[i] = s; }", True),
    ("s = a[0]; for (i = N - 1; i >= 0; --i) { if (a[i] > s) s = a[i]; o[i] = s; }", True),
    ("k = 0; for (i = N - 1; i >= 0; --i) { o[k] = a[i]; k++; }", True),
    ("k = 7; for (i = N - 1; i >= 0; --i) { k = i; } o[0] = k;", True),
    ("k = 7; for (i = 0; i < N; ++i) { k = i; } o[0] = k;", True),
    ("for (i = 0; i < N; ++i) { for (j = M - 1; j >= 0; --j) { o[i * M + j] = a[j + M * (N - 1 - i)]; } }", True),
    ("for (i = N - 1; i >= 0; --i) { for (j = 0; j < M; j++) { o[i * M + j] = a[j + M * i] + i; } }", True),
    ("for (i = 0; i < N; ++i) { if (i == 1) continue; o[i] = a[i]; }", True),
    ("for (i = 0; i < N; ++i) { int t = i * 2; if (t > 3) { if (t > 5) continue; o[i] = 1; } else o[i] = 3; o[i] += a[i]; }", True),
    ("i = 0; while (i < N) { o[i] = a[i] * 2; i++; } o[0] = i;", True),
    ("i = N; while (i > 0) { o[i - 1] = a[i - 1] * 2; i--; } o[0] = i;", True),
    ("for (i = 0; i != N; i = i + 1) o[i] = a[i];", True),
    ("i = 0; for (; i < N; ++i) o[i] = a[i];", True),
    ("for (i = 0; i < N; i += 2) o[i] = a[i];", True),
    ("for (i = N - 1; i >= 0; i -= 2) o[i] = a[i];", True),
    ("for (i = 2; i <= N; ++i) o[N - i] = a[i - 1]; o[N - 1] = i;", True),
    ("for (i = 0; i < N * M; ++i) o[i] = a[(i % M) * N + i / M];", True),
    ("for (i = 0; i < N; ++i) { s = 0; for (j = 0; j < M; ++j) s += a[i * M + j]; o[i] = s; } ", True),
    ("for (i = 0; i < N; ++i) for (j = 0; j < M; ++j) o[N * M - 1 - (i * M + j)] = a[i * M + j] + i;", True),
    ("for (i = N - 1; i >= 0; --i) for (j = 0; j < M; ++j) o[N * M - 1 - (i * M + j)] = a[i * M + j] + o[0];", False),
    ("for (i = 0; i < N; ++i) o[i] = a[i]; for (i = 0; i < N; ++i) o[N - 1 - i] = a[i] + o[N - 1 - i];", True),
    ("for (i = 0; i < N; ++i) o[i] = a[i]; for (i = 0; i < N; ++i) o[N - 1 - i] = o[i];", False),
    ("for (j = 0; j < M; ++j) for (i = 0; i < N; ++i) o[i] += a[i * M + j];", True),
    ("for (j = M - 1; j >= 0; --j) for (i = N - 1; i >= 0; --i) o[i] += a[i * M + j];", True),
    ("for (i = 0; i < N; ++i) { o[i] = i < 2 ? a[i] : -a[i]; }", True),
    ("for (i = 0; i < N; ++i) { if (a[i] < 0) o[i] = 0; else o[i] = a[i]; }", True),
    ("k = 0; for (i = 0; i < N; ++i) { for (j = 0; j < M; ++j) { o[k] = a[k]; ++k; } }", True),
    ("for (i = 0; i < N; ++i) { k = i - 1; if (k < 0) k = 0; o[i] = a[k]; }", True),
    ("for (i = 0; i < N; ++i) { int k2 = i; { int k2 = 0; o[i] = a[k2]; } o[i] += k2; }", True),
    ("for (i = 0; i < N; ++i) { for (j = 0; j <= i; ++j) { if (j < M) o[i] += a[j]; } }", True),
    ("for (i = 0; i < N; ++i) { o[i] = (i - 2) / 2 + (i - 3) % 2; }", True),
    ("for (i = 0; i < N; ++i) { o[i] = fmax(a[i], 0) * fmin(a[i], 1); }", True),
]


def symbolic(src):
    n, m = sym("N"), sym("M")
    F = Facts()
    F.lower(poly(n), 1)
    F.lower(poly(m), 1)
    ex = Exec(F, {"N": poly(n), "M": poly(m)})
    a = Base("a")
    ex.declare_array("a", [poly(n) * poly(m)], const=True, version=a)
    ex.declare_array("o", [poly(n) * poly(m)], version=arrays.Const("o0", core.ZERO, False))
    for x in "ijk":
        ex.declare_scalar(x, "i")
    ex.declare_scalar("s", "r")
    ex.run(src)
    q = fresh("q")
    G = F.bind(q, poly(n) * poly(m))
    return n, m, q, core.normal(read(ex.arr["o"], (poly(q),)), G)


def compiled(progs, sizes, data):
    with tempfile.TemporaryDirectory() as d:
        fns = "\n".join(f"static void p{k}(int N, int M, const double *a, double *o) {{ int i, j, k; double s; i = j = k = 0; s = 0; "
                        f"(void)i; (void)j; (void)k; (void)s; {src} }}" for k, src in enumerate(progs))
        calls = "".join(f"    memset(o, 0, sizeof o); p{k}(N, M, a, o); for (int q = 0; q < N * M; q++) printf(\"%.17g \", o[q]); puts(\"\");\n"
                        for k in range(len(progs)))
        with open(f"{d}/t.c", "w") as f:
            f.write("#include <stdio.h>\n#include <string.h>\n#include <math.h>\n#include <stdlib.h>\n" + fns + """
int main(int c, char **v) { int N = atoi(v[1]), M = atoi(v[2]); double a[64], o[64]; for (int q = 0; q < 64; q++) a[q] = q < c - 3 ? atof(v[q + 3]) : 0;
""" + calls + "    return 0; }\n")
        subprocess.run(["gcc", "-O0", "-w", "-o", f"{d}/t", f"{d}/t.c", "-lm"], check=True)
        out = {}
        for n, m in sizes:
            r = subprocess.run([f"{d}/t", str(n), str(m), *map(str, data)], capture_output=True, text=True, check=True)
            out[n, m] = [list(map(float, line.split())) for line in r.stdout.splitlines()]
        return out


def main():
    rnd = random.Random(5)
    data = [rnd.randint(-5, 5) for _ in range(64)]
    sizes = [(1, 1), (1, 4), (2, 3), (3, 2), (4, 1), (5, 5), (8, 3)]
    real = compiled([p for p, _ in PROGRAMS], sizes, data)
    handled = 0
    for k, (src, ok) in enumerate(PROGRAMS):
        try:
            n, m, q, t = symbolic(src)
        except Unsupported as e:
            if ok:
                print("refused:", src, "--", e)
            continue
        handled += 1
        for N, M in sizes:
            for x in range(N * M):
                env = {n: N, m: M, q: x, "arrays": {"a": data[:N * M]}}
                try:
                    v = float(ceval.poly_value(t, env))
                except (ceval.Undefined, KeyError) as e:
                    v = repr(e)
                if v != real[N, M][k][x]:
                    raise SystemExit(f"{src}\nN={N} M={M} o[{x}]: the executor says {v}, the program {real[N, M][k][x]}\n{t}")
    return handled


if __name__ == "__main__":
    print(main(), "of", len(PROGRAMS))
