"""Transpose."""
from .common import *

BOUNDS = ["element types float, double, int, unsigned char, short, long (every bit pattern); shapes 1x1 .. 33x33 incl. non-square and 1x300, 300x1 (thorough: up to 65x65, 2x300, 300x2)"]


def tr(t, r, c):
    def spec(k, I, O):
        for i in range(r):
            for j in range(c):
                k.eq(O.out[j][i], I.A[i][j], 'out[%d][%d]' % (j, i))
                k.eq(O.back[i][j], I.A[i][j], 'back[%d][%d]' % (i, j))
    return Entry(nm('trans', t, r, c), 'out = trans(A);\n  back = trans(trans(A));', [M('A', t, r, c)], [M('out', t, c, r), M('back', t, r, c)], spec, weight=r * c)


def entries(tier):
    return merging([tr(t, r, c) for t in ('float', 'double', 'int', 'unsigned char', 'short', 'long') for r, c in shapes(tier)])
