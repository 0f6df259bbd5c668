"""Matrix power."""
from .common import *

BOUNDS = ["float and double, exact real arithmetic, exponent symbolic: every real 2x2 matrix with exponents -6..8, 1x1 with -9..12, 3x3 with -3..5, 4x4 with -1..2; "
          "triangular and permutation families with exponents -40..70 (thorough four times that), diagonal, nilpotent, unipotent, cyclic and nearly constant families up to n = 17; the family [1 x; 0 1] also at exponents around 2^7, 2^8, 2^15, 2^16, 2^30, 2^31, 2^32 and their negatives",
          "int and unsigned matrices: non-negative exponents up to 5 modulo 2^32; exponent types int, long, short, unsigned, unsigned char"]


def mpow(k, A, p):
    n = len(A)
    one = k.const(1, A[0][0])
    zero = k.const(0, A[0][0])
    R = [[one if i == j else zero for j in range(n)] for i in range(n)]
    for _ in range(p):
        R = k.matmul(R, A)
    return R


def pw(t, pt, n, lo, hi, tag='pow', rows=None, vals=None, **kw):
    fl = is_float(t)
    signed = TYPES[pt][2]

    def spec(k, I, O):
        acc = {}
        for p in k.cases(I.p, vals or range(lo, hi + 1)):
            if vals:
                # [1 x; 0 1]^p = [1 p*x; 0 1]
                k.eqmat(O.X, [[k.const(1, I.A[0][0]), k.mul(I.A[0][1], p)], [k.const(0, I.A[0][0]), k.const(1, I.A[0][0])]], 'pow(A,%d)' % p)
            elif p >= 0:
                k.eqmat(O.X, mpow(k, I.A, p), 'pow(A,%d)' % p)
            else:
                # X is the inverse of A^|p|
                B = k.matmul(O.X, mpow(k, I.A, -p))
                k.eqmat(B, [[k.const(1 if i == j else 0, I.A[0][0]) for j in range(n)] for i in range(n)], 'pow(A,%d)*A^%d' % (p, -p))

    def assume(k, I):
        if vals:
            return [z3.Or(*[I.p == v for v in vals])] + ([] if not k.concrete else [('==', I.A[0][0] - 1), ('==', I.A[1][0]), ('==', I.A[1][1] - 1)])
        return [I.p >= lo, I.p <= hi] if signed else [z3.UGE(I.p, lo), z3.ULE(I.p, hi)]

    def fb(k, I):
        return [z3.And(x >= -9, x <= 9) for x in flat(I.A)] if TYPES[t][2] else []
    b = pattern('A', rows) if rows else None
    return Entry(nm(tag, t, n) + '_%s_%s_%s' % (TN[pt], str(lo).replace('-', 'm'), str(hi).replace('-', 'm')), 'X = pow(A, p);', [M('A', t, n, n), S('p', pt)], [M('X', t, n, n)], spec,
                 mode='real' if fl else 'fp', assume=assume, fallback=None if fl else fb, throws=(lambda k, I: [k.leibniz(I.A)]) if hi < 0 else None,
                 build=b, weight=(hi - lo) * n ** 3, tol=5e-3 if t == 'float' else 1e-8, **kw)


FAM = {
    'unip2': (['1 x', '0 1'], -40, 70), 'unip3': (['1 x 0', '0 1 y', '0 0 1'], -20, 30), 'diag2': (['x 0', '0 y'], 0, 40),
    'jord2': (['x 1', '0 x'], 0, 24), 'rot2': (['0 1', '-1 0'], -40, 70), 'cyc4': (['0 1 0 0', '0 0 1 0', '0 0 0 1', '1 0 0 0'], 0, 40), 'nil4': (['0 x 0 y', '0 0 z 0', '0 0 0 w', '0 0 0 0'], 0, 30),
    'cyc5': (['0 0 1 0 0', '1 0 0 0 0', '0 0 0 1 0', '0 0 0 0 1', '0 1 0 0 0'], 0, 30),
    'inv2': (['x 0', '1 2'], -8, -1), 'perm4': (['0 x 0 0', '0 0 0 1', '1 0 0 0', '0 0 1 0'], -5, -1),
}

FAM.update({
    'nil6': (grid(6, lambda i, j: 'x%d' % i if j == i + 1 else 1 if j == i + 3 else 0), 0, 9), 'cyc7': (grid(7, lambda i, j: 1 if j == (i + 1) % 7 else 0), 0, 30), 'cyc9': (grid(9, lambda i, j: 1 if j == (i + 2) % 9 else 0), 0, 30),
    'unip8': (grid(8, lambda i, j: 1 if i == j else 'x%d' % i if j == i + 1 and i % 3 == 0 else 0), 0, 12), 'diag10': (grid(10, lambda i, j: 'x%d' % i if i == j else 0), 0, 9), 'diag17': (grid(17, lambda i, j: ('x' if i == 9 else i % 3 - 1) if i == j else 0), 0, 7),
    'diag6i': (grid(6, lambda i, j: 'x' if i == j else 0), -4, -1), 'uni5i': (grid(5, lambda i, j: 1 if i == j else 'x' if (i, j) == (1, 3) else 0), -12, -1), 'uni8i': (grid(8, lambda i, j: 1 if i == j else 'x' if (i, j) == (5, 2) else 0), -3, -1),
    'dense6': (dense(6, ((2, 3),)), 0, 4), 'dense8': (dense(8, ((7, 0),)), 0, 3),
})


def entries(tier):
    out = []
    th = tier == 'thorough'
    for t in ('float', 'double'):
        out.append(pw(t, 'int', 1, 0, 12))
        out.append(pw(t, 'int', 1, -9, -1))
        out.append(pw(t, 'int', 2, 0, 12 if th else 8))
        out.append(pw(t, 'int', 2, -8 if th else -6, -1))
        out.append(pw(t, 'int', 3, 0, 7 if th else 5, budget=100))
        out.append(pw(t, 'int', 3, -4 if th else -3, -1, budget=100))
        out.append(pw(t, 'int', 4, 0, 4 if th else 3, budget=100))
        out.append(pw(t, 'int', 4, -1, -1, budget=200))
        out.append(pw(t, 'int', 5, 0, 2, budget=100))
        for f, (rows, lo, hi) in FAM.items():
            if th and hi >= 30:
                lo, hi = lo * 4, hi * 4
            if lo < 0 <= hi:
                # these families are never singular
                out.append(pw(t, 'int', len(rows), 0, hi, 'pow_' + f, rows))
                out.append(pw(t, 'int', len(rows), lo, -1, 'pow_' + f, rows))
            else:
                out.append(pw(t, 'int', len(rows), lo, hi, 'pow_' + f, rows))
    for pt in ('long', 'short', 'unsigned', 'unsigned char', 'std::size_t'):
        out.append(pw('float', pt, 2, 0, 5))
        if TYPES[pt][2]:
            out.append(pw('float', pt, 2, -3, -1))
        out.append(pw('float', pt, 2, 0, 40, 'pow_unip2', FAM['unip2'][0]))
    big = [127, 128, 129, 255, 256, 257, 1000, 32767]
    bigger = big + [32768, 65535, 65536, 65537, 1000001, 1 << 30, (1 << 31) - 1]
    for t, pt, vs in (('float', 'int', bigger), ('double', 'int', [-v for v in bigger]), ('double', 'long', bigger + [1 << 31, 1 << 32, (1 << 40) + 1]), ('float', 'short', big),
                      ('float', 'short', [-v for v in big]), ('double', 'unsigned', bigger + [1 << 31, (1 << 32) - 1])):
        out.append(pw(t, pt, 2, 0 if vs[0] > 0 else 0, 1 if vs[0] > 0 else 2, 'pow_big', ['1 x', '0 1'], vals=vs, slow_ok=True))
    for t in ('int', 'unsigned'):
        out.append(pw(t, 'int', 1, 0, 5))
        out.append(pw(t, 'int', 2, 0, 5, budget=120))
        out.append(pw(t, 'unsigned', 3, 0, 3, budget=120))
    return merging(out)
