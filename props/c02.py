"""Scalar multiplication and division."""
from .common import *

BOUNDS = ["element types float, double, int, unsigned, short, long, unsigned char (every bit pattern of every element and of the scalar, zero, infinities and NaN included); "
          "shapes 1x1 .. 33x33 incl. non-square and 1x300, 300x1 (thorough: up to 65x65, 2x300, 300x2); IEEE-754 semantics exact"]


def isz(k, s):
    return z3.fpEQ(s, z3.FPVal(0.0, s.sort())) if isinstance(s, z3.FPRef) else s == 0


def mul_e(t, r, c):
    ops = [('ms', 'A * s'), ('sm', 's * A'), ('fn', 'mult(A, s)')]
    ins = [M('A', t, r, c), S('s', t)]

    def spec(k, I, O):
        for n, _ in ops:
            X = getattr(O, 'o_' + n)
            for i in range(r):
                for j in range(c):
                    k.eq(X[i][j], k.mul(I.A[i][j], I.s), '%s[%d][%d]' % (n, i, j))

    def fb(k, I):
        return [] if is_float(t) else no_ovf('*', [(x, I.s) for x in flat(I.A)], TYPES[t][2])
    return Entry(nm('mul', t, r, c), '\n  '.join('o_%s = %s;' % o for o in ops), ins, [M('o_' + n, t, r, c) for n, _ in ops], spec,
                 fallback=fb, weight=r * c)


def div_e(t, r, c, fn):
    ins = [M('A', t, r, c), S('s', t)]
    sg = TYPES[t][2]
    bits = TYPES[t][1]

    def spec(k, I, O):
        for i in range(r):
            for j in range(c):
                k.eq(O.out[i][j], k.div(I.A[i][j], I.s, sg), 'out[%d][%d]' % (i, j))

    def assume(k, I):
        if is_float(t) or not sg:
            return []
        return [z3.Or(x != (1 << (bits - 1)), I.s != -1) for x in flat(I.A)]
    return Entry(nm('div' + ('' if fn else 'op'), t, r, c), 'out = %s;' % ('div(A, s)' if fn else 'A / s'), ins, [M('out', t, r, c)], spec,
                 throws=lambda k, I: [isz(k, I.s)], assume=assume, weight=r * c)


def entries(tier):
    out = []
    for t in ('float', 'double', 'int', 'unsigned', 'short', 'long', 'unsigned char'):
        for r, c in shapes(tier):
            if t not in ('float', 'int') and r * c > 20 and tier == 'quick' and (r, c) != (7, 9):
                continue
            out.append(mul_e(t, r, c))
            out.append(div_e(t, r, c, False))
            if r * c <= 20 or (r, c) == (7, 9):
                out.append(div_e(t, r, c, True))
    return merging(out)
