"""Two-dimensional convolution with a 3x3 kernel."""
from .common import *

BOUNDS = ["float and double: exact real arithmetic, every image and every kernel; images 1x1 .. 9x9, 20x3, 3x20, 1x300, 300x1, 2x64, 13x17, 11x16, 16x11, 18x18, 24x24, 33x3 (thorough 64x2, 2x300); int, unsigned, long and short: every bit pattern modulo the type's range "
          "(signed: where nothing overflows); 'valid' for images of at least 3x3",
          "for integer-valued entries of magnitude <= 512 the float result is exact, so there the verdict is the IEEE one"]


def cv(t, r, c):
    fl = is_float(t)
    valid = r >= 3 and c >= 3

    def full(k, A, K, i, j):
        acc = []
        for a in range(3):
            for b in range(3):
                if 0 <= i - a < r and 0 <= j - b < c:
                    acc.append(k.mul(K[a][b], A[i - a][j - b]))
        return k.sum(acc)

    def spec(k, I, O):
        F = [[full(k, I.A, I.K, i, j) for j in range(c + 2)] for i in range(r + 2)]
        k.eqmat(O.F, F, 'full')
        k.eqmat(O.S, [row[1:c + 1] for row in F[1:r + 1]], 'same')
        if valid:
            k.eqmat(O.V, [row[2:c] for row in F[2:r]], 'valid')

    def fb(k, I):
        b = {16: 50, 32: 8000, 64: 1 << 28}[TYPES[t][1]]
        return [z3.And(x >= -b, x <= b) for x in flat(I.A) + flat(I.K)] if TYPES[t][2] else []
    return Entry(nm('conv', t, r, c), 'F = conv2_full(A, K); S = conv2(A, K);' + (' V = conv2_valid(A, K);' if valid else ''), [M('A', t, r, c), M('K', t, 3, 3)],
                 [M('F', t, r + 2, c + 2), M('S', t, r, c)] + ([M('V', t, r - 2, c - 2)] if valid else []), spec, mode='real' if fl else 'fp',
                 exact=512 if fl else None, fallback=None if fl else fb, weight=r * c, budget=90)


def entries(tier):
    sh = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2), (3, 3), (3, 4), (4, 3), (4, 4), (5, 4), (4, 5), (5, 5), (3, 7), (7, 3), (6, 6), (9, 9), (20, 3), (3, 20), (1, 300), (300, 1), (2, 64), (13, 17), (8, 8), (10, 10), (11, 16), (16, 11), (18, 18), (33, 3), (24, 24)]
    if tier == 'thorough':
        sh += [(64, 2), (2, 300)]
    out = []
    for r, c in sh:
        for t in ('float', 'double', 'int', 'unsigned', 'long', 'short'):
            if t not in ('float', 'int') and r * c > 30 and tier == 'quick':
                continue
            out.append(cv(t, r, c))
    return merging(out)
