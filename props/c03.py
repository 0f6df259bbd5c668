"""Matrix product and Strassen 2x2."""
from .common import *

BOUNDS = ["float and double: exact real arithmetic, every real matrix pair, inner/outer sizes 1..8 plus 7x8x9, 9x9x9, 10x10x10, 12x12x12, 13x16x11, 17x17x17, 3x17x3, 1x300x1, 300x2x1 and 1x2x300 (thorough 16x16x16, 1x40x1, 20x3x20, 7x9x11); "
          "for integer-valued entries of magnitude <= 512 the float result is exact, so there the verdict is also the IEEE one; "
          "int, unsigned, long and short: every bit pattern modulo the type's range; strassen for 2x2"]


def mm(t, n, m, p, expr, tag):
    big = n * m * p > 20000 and is_float(t)

    def build(k):
        # first, middle and last row of A and column of B symbolic
        return {'A': [[Rat.var('A_%d_%d' % (i, j)) if i in (0, n // 2, n - 1) else (i * 7 + j * 3) % 11 - 5 for j in range(m)] for i in range(n)],
                'B': [[Rat.var('B_%d_%d' % (i, j)) if j in (0, p // 2, p - 1) else (i * 5 + j * 3) % 13 - 6 for j in range(p)] for i in range(m)]}
    fl = is_float(t)

    def spec(k, I, O):
        k.eqmat(O.out, k.matmul(I.A, I.B))

    def fb(k, I):
        if fl or not TYPES[t][2]:
            return []
        b = {16: 5, 32: 12, 64: 27}[TYPES[t][1]]
        return [z3.And(x >= -(1 << b), x <= (1 << b)) for x in flat(I.A) + flat(I.B)]
    return Entry(nm(tag, t, n, m, p), 'out = %s;' % expr, [M('A', t, n, m), M('B', t, m, p)], [M('out', t, n, p)], spec,
                 mode='real' if fl else 'fp', exact=512 if fl else None, fallback=None if fl else fb, build=build if big else None, weight=n * m * p)


SH = [(1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 2), (2, 3, 2), (3, 2, 3), (2, 2, 3), (3, 3, 2), (2, 3, 4), (4, 3, 2), (3, 3, 3), (1, 5, 2), (5, 1, 5), (4, 4, 4), (1, 4, 4),
      (4, 4, 1), (5, 5, 5), (3, 6, 2), (6, 6, 6), (2, 7, 3), (8, 8, 8), (10, 10, 10), (3, 17, 3), (1, 300, 1), (300, 2, 1), (1, 2, 300), (17, 17, 17), (9, 9, 9), (12, 12, 12), (13, 16, 11), (7, 8, 9), (33, 33, 33)]


def entries(tier):
    out = []
    sh = SH + ([(16, 16, 16), (1, 40, 1), (20, 3, 20), (7, 9, 11)] if tier == 'thorough' else [])
    for n, m, p in sh:
        for t in ('float', 'double', 'int', 'unsigned', 'long', 'short'):
            if t not in ('float', 'int') and n * m * p > 125 and tier == 'quick':
                continue
            out.append(mm(t, n, m, p, 'A * B', 'prod'))
            if n * m * p <= 64 and t in ('float', 'int'):
                out.append(mm(t, n, m, p, 'mult(A, B)', 'mult'))
    for t in ('float', 'double', 'int', 'unsigned'):
        out.append(mm(t, 2, 2, 2, 'strassen(A, B)', 'strassen'))
    return merging(out)
