"""LU decomposition."""
from .common import *

BOUNDS = ["float and double, exact real arithmetic: every real matrix for n = 1..5 (quick) and n = 6 (thorough); n = 5..10, 12, 16, 17 families with the listed entries symbolic",
          "the exception is claimed for exactly the matrices with a zero leading principal minor of order 1..n"]


def lead(k, A, m):
    return k.leibniz([r[:m] for r in A[:m]])


def l(t, n, tag='lu', rows=None, **kw):
    def spec(k, I, O):
        L, U = O.L, O.U
        for i in range(n):
            for j in range(n):
                if i < j:
                    k.eq(L[i][j], 0, 'L[%d][%d]' % (i, j))
                if i == j:
                    k.eq(L[i][j], 1, 'L[%d][%d]' % (i, j))
                if i > j:
                    k.eq(U[i][j], 0, 'U[%d][%d]' % (i, j))
                k.eq(k.sum(k.mul(L[i][p], U[p][j]) for p in range(n)), I.A[i][j], '(L*U)[%d][%d]' % (i, j))
    return Entry(nm(tag, t, n), 'auto r = lu(A); L = r.first; U = r.second;', [M('A', t, n, n)], [M('L', t, n, n), M('U', t, n, n)], spec, mode='real',
                 throws=lambda k, I: [lead(k, I.A, m) for m in range(1, n + 1)], build=pattern('A', rows) if rows else None, weight=10 ** n, **kw)


FAM = {
    'utri5': ['* * * * *', '0 * * * *', '0 0 * * *', '0 0 0 * *', '0 0 0 0 *'],
    'ltri5': ['* 0 0 0 0', '* * 0 0 0', '* * * 0 0', '* * * * 0', '* * * * *'],
    'band5': ['* * 0 0 0', '* * * 0 0', '0 * * * 0', '0 0 * * *', '0 0 0 * *'],
    'mid5': ['2 1 0 3 1', '1 * 2 * 0', '4 2 * 6 2', '0 * 1 * 3', '1 1 2 0 *'],
    'band6': ['* * 0 0 0 0', '* * * 0 0 0', '0 * * * 0 0', '0 0 * * * 0', '0 0 0 * * *', '0 0 0 0 * *'],
    'dense6': ['3 1 4 1 5 *', '9 2 6 5 3 5', '8 9 7 * 3 2', '3 8 4 6 2 6', '4 3 * 8 3 2', '7 9 5 0 2 8'],
    'arrow7': ['* 1 1 1 1 1 1', '1 * 0 0 0 0 0', '1 0 2 0 0 0 0', '1 0 0 3 0 0 0', '1 0 0 0 4 0 0', '1 0 0 0 0 * 0', '1 0 0 0 0 0 *'],
    'two8': ['1 2 0 1 0 0 3 1', '2 5 * 0 1 0 0 1', '0 1 1 1 0 2 0 0', '1 0 0 1 1 0 1 0', '0 0 2 * 1 1 0 1', '3 0 0 0 1 2 1 0', '1 1 1 0 0 1 1 1', '0 2 0 1 0 1 0 3'],
}

FAM.update({'band10': tridiag(10, (0, 4, 9)), 'band12': tridiag(12, (3, 11)), 'band17': tridiag(17, (16,)), 'dense9': dense(9, ((8, 8), (0, 8)), 2), 'dense10': dense(10, ((5, 5),), 3), 'dense12': dense(12, ((11, 11),), 4),
            'diag16': grid(16, lambda i, j: '*' if i == j else 0)})


def entries(tier):
    out = []
    for t in ('float', 'double'):
        for n in (1, 2, 3, 4, 5):
            out.append(l(t, n, budget=120))
        if tier == 'thorough':
            out.append(l(t, 6, budget=1500))
        for f, rows in FAM.items():
            out.append(l(t, len(rows), 'lu_' + f, rows))
    return merging(out)
