"""Row/column exchange and minors."""
from .common import *

BOUNDS = ["element types float, int, double, unsigned char (every bit pattern); swap shapes 1x1 .. 8x8, 3x18 and 2x300, minors n = 2..6, 8, 10 (thorough 12); row/column indices symbolic over the whole valid range; 300x1, 300x2, 20x20 and 33x33: one index over the first three, the other over the last three rows (columns)"]


def swap(t, r, c, rows):
    lim = r if rows else c

    def spec(k, I, O):
        for a in k.cases(I.p, lim):
            for b in k.cases(I.q, lim):
                tr = {a: b, b: a}
                for i in range(r):
                    for j in range(c):
                        v = I.A[tr.get(i, i)][j] if rows else I.A[i][tr.get(j, j)]
                        k.eq(O.out[i][j], v, 'swap(%d,%d)[%d][%d]' % (a, b, i, j))
    return Entry(nm('swap_' + ('rows' if rows else 'cols'), t, r, c), 'out = A; swap_%s(out, p, q);' % ('rows' if rows else 'cols'),
                 [M('A', t, r, c), S('p', 'std::size_t'), S('q', 'std::size_t')], [M('out', t, r, c)], spec,
                 assume=lambda k, I: [z3.ULT(I.p, lim), z3.ULT(I.q, lim)], weight=r * c * lim)


def swap_far(t, r, c, rows):
    """exchange of one of the first three and one of the last three rows (columns) of a long matrix"""
    lim = r if rows else c

    def spec(k, I, O):
        for a in k.cases(I.p, 3):
            for b in k.cases(I.q, 3):
                a2 = lim - 3 + a
                tr = {a2: b, b: a2}
                for i in range(r):
                    for j in range(c):
                        v = I.A[tr.get(i, i)][j] if rows else I.A[i][tr.get(j, j)]
                        k.eq(O.out[i][j], v, 'swap(%d,%d)[%d][%d]' % (a2, b, i, j))
    return Entry(nm('swapfar_' + ('rows' if rows else 'cols'), t, r, c), 'out = A; swap_%s(out, %d + p, q);' % ('rows' if rows else 'cols', lim - 3),
                 [M('A', t, r, c), S('p', 'std::size_t'), S('q', 'std::size_t')], [M('out', t, r, c)], spec,
                 assume=lambda k, I: [z3.ULT(I.p, 3), z3.ULT(I.q, 3)], weight=r * c * 9)


def minor(t, n):
    def spec(k, I, O):
        for a in k.cases(I.p, n):
            for b in k.cases(I.q, n):
                for i in range(n - 1):
                    for j in range(n - 1):
                        k.eq(O.out[i][j], I.A[i + (i >= a)][j + (j >= b)], 'minor(%d,%d)[%d][%d]' % (a, b, i, j))
    return Entry(nm('minor', t, n), 'out = getminor(A, p, q);', [M('A', t, n, n), S('p', 'std::size_t'), S('q', 'std::size_t')], [M('out', t, n - 1, n - 1)],
                 spec, assume=lambda k, I: [z3.ULT(I.p, n), z3.ULT(I.q, n)], weight=n ** 4)


def entries(tier):
    out = []
    sh = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (5, 5), (3, 6), (6, 3), (4, 2), (2, 4), (8, 8), (3, 18), (18, 3)]
    for t in ('float', 'int', 'double', 'unsigned char'):
        for r, c in sh:
            if r * c > 20 and t in ('double', 'unsigned char') and tier == 'quick':
                continue
            out.append(swap(t, r, c, True))
            out.append(swap(t, r, c, False))
        if t in ('float', 'int'):
            for r, c in ((300, 1), (300, 2)):
                out.append(swap_far(t, r, c, True))
                out.append(swap_far(t, c, r, False))
            for r, c in ((2, 300), (20, 20), (33, 33)):
                out.append(swap(t, r, c, True) if r < 20 else swap_far(t, r, c, True))
                out.append(swap(t, c, r, False) if r < 20 else swap_far(t, c, r, False))
        for n in (2, 3, 4, 5, 6) + ((8, 10, 12) if tier == 'thorough' else (8, 10) if t == 'float' else ()):
            out.append(minor(t, n))
    return out
