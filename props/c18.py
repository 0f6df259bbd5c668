"""Element-wise absolute value."""
from .common import *

BOUNDS = ["float and double (every bit pattern), int, long (every value except the most negative), short, signed char; shapes 1x1 .. 33x33 incl. non-square, 1x300, 300x1"]


def ab(t, r, c):
    fl = is_float(t)

    def spec(k, I, O):
        for i in range(r):
            for j in range(c):
                x = I.A[i][j]
                k.eq(O.out[i][j], z3.fpAbs(x) if fl else z3.If(x < 0, -x, x), 'abs[%d][%d]' % (i, j))
    return Entry(nm('abs', t, r, c), 'out = mlib::abs(A);', [M('A', t, r, c)], [M('out', t, r, c)], spec,
                 assume=None if fl else (lambda k, I: [x != (1 << (TYPES[t][1] - 1)) for x in flat(I.A)]), weight=r * c)


def entries(tier):
    out = []
    for t in ('float', 'double', 'int', 'long', 'short', 'signed char'):
        for r, c in shapes(tier):
            if r * c > 20 and tier == 'quick' and t not in ('float', 'int'):
                continue
            out.append(ab(t, r, c))
    return merging(out)
