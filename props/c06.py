"""Constructors: fill, zeros, ones, eye."""
from .common import *

BOUNDS = ["element types float, double, int, unsigned, short, unsigned char, long; fill value / diagonal value: every bit pattern; shapes 1x1 .. 33x33 incl. non-square, 1x300, 300x1"]


def con(t, r, c):
    def spec(k, I, O):
        for i in range(r):
            for j in range(c):
                k.eq(O.f[i][j], I.x, 'fill[%d][%d]' % (i, j))
                k.eq(O.z[i][j], k.const(0, I.x), 'zeros[%d][%d]' % (i, j))
                k.eq(O.o[i][j], k.const(1, I.x), 'ones[%d][%d]' % (i, j))
    return Entry(nm('cons', t, r, c), 'f = fill<%s, %d, %d>(x); z = zeros<%s, %d, %d>(); o = ones<%s, %d, %d>();' % ((t, r, c) * 3),
                 [S('x', t)], [M('f', t, r, c), M('z', t, r, c), M('o', t, r, c)], spec, weight=r * c)


def ey(t, n):
    def spec(k, I, O):
        for i in range(n):
            for j in range(n):
                k.eq(O.e[i][j], I.x if i == j else k.const(0, I.x), 'eye(x)[%d][%d]' % (i, j))
                k.eq(O.d[i][j], k.const(1 if i == j else 0, I.x), 'eye()[%d][%d]' % (i, j))
                k.eq(O.o[i][j], k.const(1, I.x), 'ones<T,n>()[%d][%d]' % (i, j))
    return Entry(nm('eye', t, n), 'e = eye<%s, %d>(x); d = eye<%s, %d>(); o = ones<%s, %d>();' % ((t, n) * 3),
                 [S('x', t)], [M('e', t, n, n), M('d', t, n, n), M('o', t, n, n)], spec, weight=n * n)


def uones(r, c):
    def spec(k, I, O):
        for i in range(r):
            for j in range(c):
                k.eq(O.o[i][j], 1, 'ones<r,c>()[%d][%d]' % (i, j))
    return Entry(nm('uones', 'unsigned', r, c), 'o = ones<%d, %d>();' % (r, c), [], [M('o', 'unsigned', r, c)], spec)


def entries(tier):
    out = []
    for t in ('float', 'double', 'int', 'unsigned', 'short', 'unsigned char', 'long'):
        for r, c in shapes(tier):
            if r * c > 20 and tier == 'quick' and t not in ('float', 'int'):
                continue
            out.append(con(t, r, c))
        for n in (1, 2, 3, 4, 5, 6, 9, 17):
            out.append(ey(t, n))
    for r, c in [(1, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (5, 7)]:
        out.append(uones(r, c))
    return merging(out)
