"""Cholesky decomposition."""
from .common import *

BOUNDS = ["float and double, exact real arithmetic: n = 1..8, 10 (thorough also 9, 12, 14): every symmetric positive definite real matrix, parametrised without loss of generality "
          "as A = G*G^T with G lower triangular and positive diagonal; n = 9, 10, 12, 17 additionally: G*G^T with 3 to 5 entries of G symbolic"]
ASSUMPTIONS = ["every symmetric positive definite matrix is G*G^T for a lower triangular G with positive diagonal (standard theorem); inputs outside that set are not claimed"]


def ch(t, n, holes=None, **kw):
    def free(i, j):
        return holes is None or (i, j) in holes

    def g(k):
        return [[(Rat.var('g_%d_%d' % (i, j)) if free(i, j) else Rat.const(2 if i == j else (i * 3 + j * 5) % 5 - 2)) if j <= i else Rat.const(0) for j in range(n)] for i in range(n)]

    def build(k):
        G = g(k)
        return {'A': [[k.sum(G[i][p] * G[j][p] for p in range(min(i, j) + 1)) for j in range(n)] for i in range(n)]}

    def assume(k, I):
        if k.concrete:
            return [('>', k.leibniz([r[:m] for r in I.A[:m]])) for m in range(1, n + 1)] + [('==', I.A[i][j] - I.A[j][i]) for i in range(n) for j in range(i)]
        return [('>', Rat.var('g_%d_%d' % (i, i))) for i in range(n) if free(i, i)]

    def spec(k, I, O):
        for i in range(n):
            for j in range(n):
                if j > i:
                    k.eq(O.L[i][j], 0, 'L[%d][%d]' % (i, j))
                k.eq(k.sum(k.mul(O.L[i][p], O.L[j][p]) for p in range(n)), I.A[i][j], '(L*trans(L))[%d][%d]' % (i, j))
            k.rel('>', O.L[i][i], 'L[%d][%d] > 0' % (i, i))
    return Entry(nm('chol' if holes is None else 'cholf', t, n), 'L = chol(A);', [M('A', t, n, n)], [M('L', t, n, n)], spec, mode='real', build=build, assume=assume, weight=10 ** n, **kw)


def entries(tier):
    out = []
    for t in ('float', 'double'):
        for n in (1, 2, 3, 4, 5, 6, 7, 8, 10) + ((9, 12, 14) if tier == 'thorough' else ()):
            out.append(ch(t, n, budget=120))
        for n, h in ((9, ((0, 0), (4, 4), (8, 8), (8, 0), (5, 2))), (10, ((0, 0), (9, 9), (9, 8), (9, 0))), (12, ((11, 11), (11, 3), (6, 6))), (17, ((16, 16), (9, 9), (16, 0)))):
            out.append(ch(t, n, h, budget=120))
    return merging(out)
