"""Mean, variance and standard deviation."""
from .common import *

BOUNDS = ["float and double: exact real arithmetic, every real matrix, shapes 1x1 .. 33x33 (mean, variance up to 6x6 in the quick tier); standard deviation: shapes up to 4x4; 1x300, 300x1, 17x16, 33x33 and 8x9 with 1 to 3 symbolic elements",
          "int, long, short and unsigned mean: every matrix whose element sum is representable, result truncated toward zero; shapes up to 4x4, and 1x300, 300x1, 17x17 with 1 or 2 symbolic elements",
          "float variance of 1x2, 2x1 and 1x3 matrices is additionally shown never negative in IEEE arithmetic (elements of magnitude below 1e15)"]


def few(r, c, holes):
    if holes is None:
        return None
    return pattern('A', [['*' if i * c + j in holes else ((i * c + j) * 7) % 11 - 5 for j in range(c)] for i in range(r)])


def mv(t, r, c, holes=None):
    n = r * c

    def spec(k, I, O):
        xs = flat(I.A)
        m = k.div(k.sum(xs), n)
        k.eq(O.m, m, 'mean')
        k.eq(O.v, k.div(k.sum(k.mul(k.sub(x, m), k.sub(x, m)) for x in xs), n), 'var')
    return Entry(nm('mv' if holes is None else 'mvf', t, r, c), 'm = mean(A); v = var(A);', [M('A', t, r, c)], [S('m', t), S('v', t)], spec, mode='real', build=few(r, c, holes), weight=n * n, budget=90)


def mn(t, r, c):
    n = r * c

    def spec(k, I, O):
        k.eq(O.m, k.div(k.sum(flat(I.A)), n), 'mean')
    return Entry(nm('mean', t, r, c), 'm = mean(A);', [M('A', t, r, c)], [S('m', t)], spec, mode='real', weight=n)


def sd(t, r, c, holes=None):
    n = r * c

    def spec(k, I, O):
        xs = flat(I.A)
        m = k.div(k.sum(xs), n)
        v = k.div(k.sum(k.mul(k.sub(x, m), k.sub(x, m)) for x in xs), n)
        k.eq(k.mul(O.s, O.s), v, 'stddev^2')
        k.rel('>=', O.s, 'stddev >= 0')
    return Entry(nm('sd' if holes is None else 'sdf', t, r, c), 's = stddev(A);', [M('A', t, r, c)], [S('s', t)], spec, mode='real', build=few(r, c, holes), weight=n * n, budget=90)


def mi(t, r, c, holes=None):
    n = r * c
    _, bits, signed = TYPES[t]
    w = bits + 10

    def ext(x):
        return z3.SignExt(10, x) if signed else z3.ZeroExt(10, x)

    def total(I):
        s = z3.BitVecVal(0, w)
        for x in flat(I.A):
            s = s + ext(x)
        return s

    def assume(k, I):
        # every partial sum in row order is representable when the magnitudes are: bound each element by MAX/n
        hi = ((1 << (bits - 1)) - 1 if signed else (1 << bits) - 1) // n
        return [z3.And(x >= -hi, x <= hi) if signed else z3.ULE(x, hi) for x in flat(I.A)]

    def spec(k, I, O):
        # the same condition three ways: divided in the element type, divided in 64 bits, or by the remainder (no division)
        s0 = k.sum(flat(I.A))
        if bits < 32:
            s0 = z3.Extract(bits - 1, 0, k.sum(z3.SignExt(32 - bits, x) if signed else z3.ZeroExt(32 - bits, x) for x in flat(I.A)))
        forms = []
        if bits < 64:
            d = 64 - bits
            forms.append(O.m == z3.Extract(bits - 1, 0, (z3.SignExt(d, s0) / n) if signed else z3.UDiv(z3.ZeroExt(d, s0), z3.BitVecVal(n, 64))))
        forms.append(O.m == (s0 / n if signed else z3.UDiv(s0, z3.BitVecVal(n, bits))))
        s = total(I)
        q = ext(O.m)
        rem = s - q * n
        if signed:
            forms.append(z3.And(z3.Implies(s >= 0, z3.And(rem >= 0, rem < n)), z3.Implies(s < 0, z3.And(rem <= 0, rem > -n))))
        else:
            forms.append(z3.ULT(rem, n))
        k.alt(forms, 'mean')
    bld = None
    if holes is not None:
        lim = 5 if signed else 0
        bld = pattern('A', [['*' if i * c + j in holes else ((i * c + j) * 7) % 11 - lim for j in range(c)] for i in range(r)], bits)
    return Entry(nm('meani' if holes is None else 'meanif', t, r, c), 'm = mean(A);', [M('A', t, r, c)], [S('m', t)], spec, build=bld, assume=assume, weight=n * bits, budget=60, goal_ms=30000)


def sign(t, r, c):
    def spec(k, I, O):
        k.true(z3.fpGEQ(O.v, z3.FPVal(0.0, O.v.sort())), 'var >= 0')

    def assume(k, I):
        f = z3.FPVal(1e15, flat(I.A)[0].sort())
        return [z3.fpLEQ(z3.fpAbs(x), f) for x in flat(I.A)]
    return Entry(nm('varsign', t, r, c), 'v = var(A);', [M('A', t, r, c)], [S('v', t)], spec, assume=assume, goal_ms=60000, budget=100)


def entries(tier):
    out = []
    sh = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 5), (5, 1), (4, 4), (3, 5), (5, 5), (6, 6)] + ([(7, 9), (8, 8), (10, 10)] if tier == 'thorough' else [(1, 10)])
    for t in ('float', 'double'):
        for r, c in sh:
            out.append(mv(t, r, c))
        for r, c in [(7, 9), (17, 3), (3, 18), (20, 20), (1, 30), (1, 300), (300, 1), (33, 33)]:
            out.append(mn(t, r, c))
        for r, c in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 2), (3, 3), (4, 4), (1, 7)]:
            out.append(sd(t, r, c))
        for r, c, h in [(1, 300, (0, 299)), (300, 1, (7, 256)), (17, 16, (271,)), (8, 9, (0, 40, 71)), (33, 33, (1088,))]:
            out.append(mv(t, r, c, h))
            out.append(sd(t, r, c, h))
    for r, c in [(1, 2), (2, 1), (1, 3)]:
        out.append(sign('float', r, c))
    for t in ('int', 'unsigned', 'short', 'long', 'unsigned char'):
        for r, c in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 3), (4, 2)] + ([(4, 4)] if t in ('int', 'unsigned') else []):
            out.append(mi(t, r, c))
        if t != 'unsigned char':
            out.append(mi(t, 1, 300, (299,)))
            out.append(mi(t, 300, 1, (0, 256)))
            out.append(mi(t, 17, 17, (17, 288)))
    return merging(out)
