"""Determinant."""
from .common import *

BOUNDS = ["float and double, exact real arithmetic: every real matrix for n = 1..4 (all pivoting branches); n = 5..12, 16, 17, 20: matrix families with the listed "
          "entries symbolic (triangular, permuted, banded, zero-pivot, rank-deficient, bordered) and all others fixed",
          "int and unsigned: n = 1..3, every bit pattern modulo 2^32 (signed: where no intermediate overflows); n = 4, 5: diagonal, triangular, permutation, unit-pivot and rank-deficient families, where elimination divides exactly (the truncation elsewhere is a known finding)",
          "n = 1..3 with integer entries up to 50: the float result is exact, so there the verdict is the IEEE one"]


def dt(t, n, tag='det', rows=None, **kw):
    fl = is_float(t)

    def spec(k, I, O):
        k.eq(O.d, k.leibniz(I.A), 'det')

    def fb(k, I):
        if fl or not TYPES[t][2]:
            return []
        return [z3.And(x >= -500, x <= 500) for x in flat(I.A)]
    return Entry(nm(tag, t, n), 'd = det(A);', [M('A', t, n, n)], [S('d', t)], spec, mode='real' if fl else 'fp',
                 exact=50 if fl and n <= 3 else None, fallback=None if fl else fb, build=pattern('A', rows, None if fl else TYPES[t][1]) if rows else None,
                 weight=10 ** n, **kw)


FAM = {
    # general leading behaviour with zero pivots, swaps and rank loss; '*' cells range over all reals
    'perm5': ['0 0 * 0 0', '* 0 0 0 0', '0 0 0 0 *', '0 * 0 0 0', '0 0 0 * 0'],
    'lowzero5': ['0 * 1 0 2', '* 0 0 1 0', '0 0 0 * 1', '1 0 * 0 0', '0 2 0 0 *'],
    'tri5': ['* * * * *', '0 * * * *', '0 0 * * *', '0 0 0 * *', '0 0 0 0 *'],
    'lowtri5': ['* 0 0 0 0', '* * 0 0 0', '* * * 0 0', '* * * * 0', '* * * * *'],
    'band5': ['* * 0 0 0', '* * * 0 0', '0 * * * 0', '0 0 * * *', '0 0 0 * *'],
    'bord5': ['0 0 0 0 *', '0 1 2 3 *', '0 4 5 6 *', '0 7 8 10 *', '* * * * *'],
    'mid5': ['2 1 0 3 1', '1 * 2 * 0', '4 2 * 6 2', '0 * 1 * 3', '1 1 2 0 *'],
    'rank5': ['1 2 3 4 5', '2 4 6 8 *', '0 0 0 0 *', '0 0 0 * 1', '0 0 * 1 1'],
    'swap6': ['0 * 0 0 0 0', '* 0 0 0 0 0', '0 0 0 * 0 0', '0 0 * 0 0 0', '0 0 0 0 0 *', '0 0 0 0 * 0'],
    'cyc6': ['0 * 0 0 0 0', '0 0 * 0 0 0', '0 0 0 * 0 0', '0 0 0 0 * 0', '0 0 0 0 0 *', '* 0 0 0 0 0'],
    'dense6': ['3 1 4 1 5 *', '9 2 6 5 3 5', '8 9 7 * 3 2', '3 8 4 6 2 6', '4 3 * 8 3 2', '7 9 5 0 2 8'],
    'vander6': ['1 a 1 1 1 1', '1 b 2 4 8 16', '1 c 3 9 27 81', '1 d 4 16 64 256', '1 e 5 25 125 625', '1 f 6 36 216 1296'],
    'tri6': ['* * 0 0 0 0', '* * * 0 0 0', '0 * * * 0 0', '0 0 * * * 0', '0 0 0 * * *', '0 0 0 0 * *'],
    'tri7': ['* 1 2 3 4 5 6', '0 * 1 2 3 4 5', '0 0 * 1 2 3 4', '0 0 0 * 1 2 3', '0 0 0 0 * 1 2', '0 0 0 0 0 * 1', '0 0 0 0 0 0 *'],
    'rev8': ['0 0 0 0 0 0 0 *', '0 0 0 0 0 0 * 0', '0 0 0 0 0 * 0 0', '0 0 0 0 * 0 0 0', '0 0 0 * 0 0 0 0', '0 0 * 0 0 0 0 0', '0 * 0 0 0 0 0 0', '* 0 0 0 0 0 0 0'],
    'two8': ['1 2 0 1 0 0 3 1', '2 4 * 0 1 0 0 1', '0 1 1 1 0 2 0 0', '1 0 0 1 1 0 1 0', '0 0 2 * 1 1 0 1', '3 0 0 0 1 2 1 0', '1 1 1 0 0 1 1 1', '0 2 0 1 0 1 0 3'],
}

FAM.update({
    'diag9': grid(9, lambda i, j: '*' if i == j else 0), 'diag12': grid(12, lambda i, j: ('*' if i % 5 == 0 else i) if i == j else 0), 'diag17': grid(17, lambda i, j: ('*' if i % 8 == 0 else i % 3 - 4) if i == j else 0),
    'cyc9': permuted(9, 1), 'cyc10': permuted(10, 1), 'step11': permuted(11, 3), 'cyc16': permuted(16, 1, lambda i: i % 6 == 0),
    'upper10': grid(10, lambda i, j: '*' if i == j else (i + 2 * j) % 5 - 2 if j > i else 0), 'lower10': grid(10, lambda i, j: ('*' if i in (0, 4, 9) else 3) if i == j else (i + 2 * j) % 5 - 2 if j < i else 0),
    'dense7': dense(7, ((0, 0), (6, 6))), 'dense8': dense(8, ((0, 1), (7, 3))), 'dense9': dense(9, ((8, 8),)), 'dense10': dense(10, ((4, 4),)), 'dense11': dense(11, ((10, 10),)), 'band12': tridiag(12, (5, 11)), 'band20': tridiag(20, (19,)),
})

IFAM = {
    'diag4': ['* 0 0 0', '0 * 0 0', '0 0 * 0', '0 0 0 *'], 'itri4': ['* * * *', '0 * * *', '0 0 * *', '0 0 0 *'],
    'iswap4': ['0 * 0 0', '* 0 0 0', '0 0 0 *', '0 0 * 0'], 'icyc4': ['0 * 0 0', '0 0 * 0', '0 0 0 *', '* 0 0 0'], 'icyc5': ['0 3 0 0 0', '0 0 2 0 0', '0 0 0 -1 0', '0 0 0 0 5', '* 0 0 0 0'], 'iunit4': ['1 2 3 4', '2 5 8 *', '3 7 12 *', '1 3 6 *'],
    'irank4': ['1 2 3 4', '* 2 3 4', '0 0 0 0', '1 1 1 1'],
}


def entries(tier):
    out = []
    for t in ('float', 'double', 'int', 'unsigned'):
        for n in (1, 2, 3):
            out.append(dt(t, n))
    for t in ('float', 'double'):
        out.append(dt(t, 4, budget=200, max_paths=20000))
        for f, rows in FAM.items():
            out.append(dt(t, len(rows), 'det_' + f, rows, budget=60))
    # integers of size 4 and more: families where the elimination divides exactly (see known_findings.json for the others)
    for t in ('int', 'unsigned'):
        for f, rows in IFAM.items():
            out.append(dt(t, len(rows), 'det_' + f, rows, budget=60))
    out.append(dt('int', 4, 'det_trunc', ['2 1 0 0', '1 2 1 0', '0 1 2 1', '0 0 1 2'], budget=20, goal_ms=2000))
    if tier == 'thorough':
        out.append(dt('float', 5, budget=900, max_paths=100000))
    return merging(out)
