"""Dense, Gemm and MatMul contracts (A04, A09, A10)."""
from acetone_nnet.generator.layers import Dense, Gemm, MatMul
from case import Case
from core import ZERO, Sum, app, c_gt, fresh, poly


def dense_build(d, b):
    return Dense(original_name="d", idx=b.idx, size=d.N, weights=b.T("w", d.M, d.N), biases=b.T("b", d.N),
                 activation_function=b.act)


def dense_spec(d, X, W, o):
    k = poly(fresh("s"))
    return app("ACT", Sum([(k, d.M)], X[0](k) * W("w", d.M, d.N)(k, o[0])) + W("b", d.N)(o[0]))


CASES = [Case("dense", ("A04",), dict(M=1, N=1), dense_build, lambda d: [(d.M,)], lambda d: (d.N,), dense_spec)]

BIAS = {
    "N": lambda d: (d.N,),
    "MN": lambda d: (d.M, d.N),
    "1N": lambda d: (1, d.N),
    "M1": lambda d: (d.M, 1),
    "11": lambda d: (1, 1),
    "1": lambda d: (1,),
}


def gemm(ta, tb, bias, alpha=False, beta=False):
    def shape_in(d):
        return (d.K, d.M) if ta else (d.M, d.K)

    def shape_w(d):
        return (d.N, d.K) if tb else (d.K, d.N)

    def build(d, b):
        return Gemm(original_name="g", idx=b.idx, size=d.M * d.N, alpha=d.alpha if alpha else 1,
                    beta=d.beta if beta else 1.0, transA=ta, transB=tb, weights=b.T("w", *shape_w(d)),
                    bias=b.T("b", *BIAS[bias](d)), input_shape=[1, 1, *shape_in(d)], output_shape=[1, 1, d.M, d.N],
                    activation_function=b.act)

    def spec(d, X, W, o):
        i, j = o
        k = poly(fresh("s"))
        x = X[0](k, i) if ta else X[0](i, k)
        w = W("w", *shape_w(d))(j, k) if tb else W("w", *shape_w(d))(k, j)
        full = {"N": (j,), "MN": (i, j), "1N": (ZERO, j), "M1": (i, ZERO), "11": (ZERO, ZERO), "1": (ZERO,)}[bias]
        c = W("b", *BIAS[bias](d))(*full)
        s = Sum([(k, d.K)], x * w)
        return app("ACT", (d.alpha * s if alpha else s) + (d.beta * c if beta else c))

    reals = [n for n, f in (("alpha", alpha), ("beta", beta)) if f]
    return Case(f"gemm {'t' if ta else 'n'}{'t' if tb else 'n'} bias {bias}{' alpha' * alpha}{' beta' * beta}", ("A04",),
                dict(M=1, N=1, K=1), build, lambda d: [shape_in(d)], lambda d: (d.M, d.N), spec, reals=reals)


CASES += [gemm(ta, tb, bias, alpha, beta)
          for ta in (0, 1) for tb in (0, 1)
          for bias, alpha, beta in [("N", False, False), ("N", True, False), ("N", False, True), ("N", True, True),
                                    ("MN", True, True), ("1N", False, True), ("M1", True, False), ("11", False, False),
                                    ("1", True, True)]]


def matmul(name, shared):
    def sh(d):
        return [(d.C, d.M, d.K), (1 if shared else d.C, d.K, d.N)]

    def build(d, b):
        return MatMul(original_name="m", idx=b.idx, size=d.C * d.M * d.N, input_shapes=[(1, *s) for s in sh(d)],
                      activation_function=b.act)

    def spec(d, X, W, o):
        f, i, j = o
        k = poly(fresh("s"))
        return app("ACT", Sum([(k, d.K)], X[0](f, i, k) * X[1](ZERO if shared else f, k, j)))
    return Case(name, ("A04",), dict(C=1, M=1, N=1, K=1), build, sh, lambda d: (d.C, d.M, d.N), spec)


CASES += [matmul("matmul", False), matmul("matmul shared right operand", True)]
