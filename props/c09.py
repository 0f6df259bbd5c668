"""Inverse."""
from .common import *

BOUNDS = ["float and double, exact real arithmetic: every real matrix for n = 1..4 (singular ones included); n = 5, 6: every real matrix with the general determinant "
          "replaced by its specification (decided on the real code by C08); n = 4..10 families with the real determinant code, listed entries symbolic",
          "nothing is claimed about rounding"]


def iv(t, n, tag='inv', rows=None, **kw):
    def spec(k, I, O):
        A, X = I.A, O.X
        for i in range(n):
            for j in range(n):
                k.eq(k.sum(k.mul(A[i][l], X[l][j]) for l in range(n)), 1 if i == j else 0, '(A*inv)[%d][%d]' % (i, j))
        if n <= 4:
            for i in range(n):
                for j in range(n):
                    k.eq(k.sum(k.mul(X[i][l], A[l][j]) for l in range(n)), 1 if i == j else 0, '(inv*A)[%d][%d]' % (i, j))
    return Entry(nm(tag, t, n), 'X = inv(A);', [M('A', t, n, n)], [M('X', t, n, n)], spec, mode='real',
                 throws=lambda k, I: [k.leibniz(I.A)], build=pattern('A', rows) if rows else None, weight=10 ** n, tol=5e-3 if t == 'float' else 1e-8, **kw)


FAM = {
    'diag4': ['* 0 0 0', '0 * 0 0', '0 0 * 0', '0 0 0 *'],
    'perm4': ['0 * 0 0', '0 0 0 *', '* 0 0 0', '0 0 * 0'],
    'utri4': ['* * * *', '0 * * *', '0 0 * *', '0 0 0 *'],
    'perm5': ['0 0 * 0 0', '* 0 0 0 0', '0 0 0 0 *', '0 * 0 0 0', '0 0 0 * 0'],
    'one5': ['2 1 0 3 1', '1 * 2 1 0', '4 2 1 6 2', '0 1 1 5 3', '1 1 2 0 1'],
    'two5': ['0 1 0 3 1', '1 * 2 1 0', '4 2 1 * 2', '0 1 1 5 3', '1 1 2 0 1'],
    'bid5': ['* 1 0 0 0', '0 * 1 0 0', '0 0 * 1 0', '0 0 0 * 1', '0 0 0 0 *'],
    'perm6': ['0 * 0 0 0 0', '0 0 * 0 0 0', '0 0 0 * 0 0', '0 0 0 0 * 0', '0 0 0 0 0 *', '* 0 0 0 0 0'],
    'one6': ['3 1 4 1 5 1', '9 2 6 5 3 5', '8 9 7 * 3 2', '3 8 4 6 2 6', '4 3 0 8 3 2', '7 9 5 0 2 8'],
    'rank1_6': ['1 2 3 4 5 6', '1 3 3 4 5 6', '1 2 4 4 5 6', '1 2 3 5 5 6', '1 2 3 4 6 6', '1 2 3 4 5 *'],
    'two7': ['1 2 0 1 0 0 3', '2 4 * 0 1 0 0', '0 1 1 1 0 2 0', '1 0 0 1 1 0 1', '0 0 2 5 1 1 0', '3 0 0 0 1 2 1', '1 1 1 0 0 1 1'],
}

FAM.update({'diag6': grid(6, lambda i, j: '*' if i == j else 0), 'diag8': grid(8, lambda i, j: ('*' if i in (0, 7) else 2) if i == j else 0), 'cyc7': permuted(7, 1, lambda i: i in (0, 3)), 'cyc8': permuted(8, 1, lambda i: i == 5), 'cyc9': permuted(9, 1, lambda i: i == 8),
            'band8': tridiag(8, (7,)), 'band9': tridiag(9, (4,))})


def entries(tier):
    out = []
    for t in ('float', 'double'):
        for n in (1, 2, 3):
            out.append(iv(t, n))
        out.append(iv(t, 4, budget=200, max_paths=20000))
        out.append(iv(t, 5, 'inv_c', contracts=det_contract, budget=120))
        if tier == 'thorough':
            out.append(iv(t, 6, 'inv_c', contracts=det_contract, budget=600))
        for f, rows in FAM.items():
            if tier == 'quick' and (t, f) in (('double', 'two7'), ('float', 'two5'), ('double', 'band9')):
                continue
            out.append(iv(t, len(rows), 'inv_' + f, rows, budget=150))
    return merging(out)
