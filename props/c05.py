"""Concatenation."""
from .common import *

BOUNDS = ["element types float, double, int, unsigned char, short, long (every bit pattern); square sizes 1..7, 12, 20, 33; rectangular operands with 1..9 rows/columns, 17+20 rows, and 1- or 2-row/column operands of length 300"]


def check(k, X, rows, label):
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            k.eq(X[i][j], v, '%s[%d][%d]' % (label, i, j))


def sq(t, n):
    def spec(k, I, O):
        v = I.A + I.B
        h = [a + b for a, b in zip(I.A, I.B)]
        check(k, O.pv, v, 'concatenate.first')
        check(k, O.ph, h, 'concatenate.second')
        check(k, O.cv, v, 'concatenateV')
        check(k, O.ch, h, 'concatenateH')
    return Entry(nm('square', t, n), 'auto p = concatenate(A, B); pv = p.first; ph = p.second; cv = concatenateV(A, B); ch = concatenateH(A, B);',
                 [M('A', t, n, n), M('B', t, n, n)], [M('pv', t, 2 * n, n), M('ph', t, n, 2 * n), M('cv', t, 2 * n, n), M('ch', t, n, 2 * n)], spec, weight=n * n)


def vert(t, i1, i2, j):
    return Entry(nm('vert', t, i1, i2, j), 'out = concatenate(A, B);', [M('A', t, i1, j), M('B', t, i2, j)], [M('out', t, i1 + i2, j)],
                 lambda k, I, O: check(k, O.out, I.A + I.B, 'out'), weight=(i1 + i2) * j)


def horiz(t, i, j1, j2):
    return Entry(nm('horiz', t, i, j1, j2), 'out = concatenate(A, B);', [M('A', t, i, j1), M('B', t, i, j2)], [M('out', t, i, j1 + j2)],
                 lambda k, I, O: check(k, O.out, [a + b for a, b in zip(I.A, I.B)], 'out'), weight=(j1 + j2) * i)


def entries(tier):
    out = []
    d = [(1, 2, 3), (2, 1, 3), (1, 2, 1), (2, 1, 1), (1, 3, 2), (3, 1, 2), (2, 3, 3), (3, 2, 2), (2, 3, 4), (4, 2, 3), (5, 1, 4), (1, 5, 4), (3, 4, 6), (6, 2, 9), (9, 4, 5), (2, 16, 3), (1, 300, 1), (300, 1, 1), (1, 2, 300), (17, 20, 3)]
    if tier == 'thorough':
        d += [(20, 30, 7), (3, 17, 20), (1, 40, 33), (33, 2, 8)]
    for t in ('float', 'double', 'int', 'unsigned char', 'long', 'short'):
        for n in (1, 2, 3, 4, 5, 6, 7, 12, 20, 33):
            out.append(sq(t, n))
        for a, b, c in d:
            # both operands must have different row (column) counts: equal-shaped pairs are the square/ambiguous overloads
            out.append(vert(t, a, b, c))
            out.append(horiz(t, c, a, b))
    return merging(out)
