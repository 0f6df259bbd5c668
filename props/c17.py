"""Predicates: compare, isIdentity, isSymetric."""
from .common import *

BOUNDS = ["compare: float and double, every bit pattern of every element (NaN and infinities included), int with |elements| <= 2^22, epsilon any float >= 0; up to 6 elements all symbolic; shapes 3x3, 4x4, 5x2, 3x6, 7x1, 1x9 with one pair at a symbolic position symbolic and the rest equal",
          "isIdentity: float, double, int, unsigned, short, long, unsigned char sizes 1..6, float, double and int also 9, 17 (thorough 8, 10, 20); isSymetric: sizes 1..5, 7, 9 (thorough 12, 17); every bit pattern, NaN included; one changed element (pair) at every position for n = 4, 11, 17; compare also for 1x300, 300x1, 17x20, 33x33, 2x150 with the pair among the last 3 rows/columns"]


def cmp_(t, r, c, **kw):
    fl = is_float(t)

    def close(I, i, j):
        a, b, e = I.A[i][j], I.B[i][j], I.e
        if fl:
            s = a.sort()
            ee = e if t == 'float' else z3.fpFPToFP(z3.RNE(), e, s)
            return z3.Or(z3.fpEQ(a, b), z3.fpLEQ(z3.fpAbs(z3.fpSub(z3.RNE(), a, b)), ee))
        d = a - b
        return z3.fpLEQ(z3.fpToFP(z3.RNE(), z3.If(d < 0, -d, d), z3.Float32()), e)

    def spec(k, I, O):
        k.true((O.r == 1) == z3.And(*[close(I, i, j) for i in range(r) for j in range(c)]), 'compare')

    def assume(k, I):
        out = [z3.fpGEQ(I.e, z3.FPVal(0.0, z3.Float32()))]
        if not fl:
            out += [z3.And(x >= -(1 << 22), x <= (1 << 22)) for x in flat(I.A) + flat(I.B)]
        return out
    return Entry(nm('compare', t, r, c), 'r = compare(A, B, e) ? 1 : 0;', [M('A', t, r, c), M('B', t, r, c), S('e', 'float')], [S('r', 'int')], spec, assume=assume, weight=r * c, **kw)


def cmp_at(t, r, c, last=None, **kw):
    """all elements fixed except one pair at a symbolic position (among the last rows and columns only)"""
    r0, c0 = (max(0, r - last), max(0, c - last)) if last else (0, 0)
    fl = is_float(t)

    def build(k):
        return {'A': [[(i * 5 + j * 3) % 7 - 3 for j in range(c)] for i in range(r)]}

    def spec(k, I, O):
        a, b, e = I.x, I.y, I.e
        if fl:
            ee = e if t == 'float' else z3.fpFPToFP(z3.RNE(), e, a.sort())
            ok = z3.Or(z3.fpEQ(a, b), z3.fpLEQ(z3.fpAbs(z3.fpSub(z3.RNE(), a, b)), ee))
        else:
            d = a - b
            ok = z3.fpLEQ(z3.fpToFP(z3.RNE(), z3.If(d < 0, -d, d), z3.Float32()), e)
        k.true((O.r == 1) == ok, 'compare')

    def assume(k, I):
        out = [z3.fpGEQ(I.e, z3.FPVal(0.0, z3.Float32())), z3.ULT(I.p, r), z3.ULT(I.q, c), z3.UGE(I.p, r0), z3.UGE(I.q, c0)]
        if not fl:
            out += [z3.And(x >= -(1 << 22), x <= (1 << 22)) for x in (I.x, I.y)]
        return out
    return Entry(nm('compare_at', t, r, c), 'auto X = A; auto Y = A; X[p][q] = x; Y[p][q] = y; r = compare(X, Y, e) ? 1 : 0;',
                 [M('A', t, r, c), S('p', 'std::size_t'), S('q', 'std::size_t'), S('x', t), S('y', t), S('e', 'float')], [S('r', 'int')], spec, assume=assume, build=build,
                 weight=r * c, **kw)


def ident_at(t, n, **kw):
    fl = is_float(t)

    def spec(k, I, O):
        for p in k.cases(I.p, n):
            for q in k.cases(I.q, n):
                v = k.const(1 if p == q else 0, I.x)
                k.true((O.r == 1) == (z3.fpEQ(I.x, v) if fl else I.x == v), 'isIdentity with element (%d,%d) changed' % (p, q))
    return Entry(nm('ident_at', t, n), 'auto X = A; X[p][q] = x; r = isIdentity(X) ? 1 : 0;', [M('A', t, n, n), S('p', 'std::size_t'), S('q', 'std::size_t'), S('x', t)], [S('r', 'int')], spec,
                 assume=lambda k, I: [z3.ULT(I.p, n), z3.ULT(I.q, n)], build=lambda k: {'A': [[1 if i == j else 0 for j in range(n)] for i in range(n)]}, weight=n ** 4, **kw)


def sym_at(t, n, **kw):
    fl = is_float(t)

    def spec(k, I, O):
        # one pair of mirrored elements is (x, y), everything else symmetric
        same = z3.fpEQ(I.x, I.y) if fl else I.x == I.y
        diag = z3.And(I.p == I.q, z3.Not(z3.fpIsNaN(I.y))) if fl else I.p == I.q
        k.true((O.r == 1) == z3.Or(diag, z3.And(I.p != I.q, same)), 'isSymetric')
    return Entry(nm('symm_at', t, n), 'auto X = A; X[p][q] = x; X[q][p] = y; r = isSymetric(X) ? 1 : 0;', [M('A', t, n, n), S('p', 'std::size_t'), S('q', 'std::size_t'), S('x', t), S('y', t)], [S('r', 'int')], spec,
                 assume=lambda k, I: [z3.ULT(I.p, n), z3.ULT(I.q, n)] + ([z3.Not(z3.fpIsNaN(I.x)), z3.Not(z3.fpIsNaN(I.y))] if fl else []),
                 build=lambda k: {'A': [[(i * j + i + j) % 7 - 3 for j in range(n)] for i in range(n)]}, weight=n ** 4, **kw)


def ident(t, n, **kw):
    fl = is_float(t)

    def spec(k, I, O):
        cs = []
        for i in range(n):
            for j in range(n):
                v = k.const(1 if i == j else 0, I.A[i][j])
                cs.append(z3.fpEQ(I.A[i][j], v) if fl else I.A[i][j] == v)
        k.true((O.r == 1) == z3.And(*cs), 'isIdentity')
    return Entry(nm('ident', t, n), 'r = isIdentity(A) ? 1 : 0;', [M('A', t, n, n)], [S('r', 'int')], spec, weight=n * n, **kw)


def sym(t, n, **kw):
    fl = is_float(t)

    def spec(k, I, O):
        cs = [z3.BoolVal(True)]
        for i in range(n):
            for j in range(i):
                cs.append(z3.fpEQ(I.A[i][j], I.A[j][i]) if fl else I.A[i][j] == I.A[j][i])
        k.true((O.r == 1) == z3.And(*cs), 'isSymetric')
    return Entry(nm('symm', t, n), 'r = isSymetric(A) ? 1 : 0;', [M('A', t, n, n)], [S('r', 'int')], spec, weight=n * n, **kw)


def entries(tier):
    out = []
    for r, c in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 5), (2, 3), (3, 2)] + ([(3, 3)] if tier == 'thorough' else []):
        for t, lim in (('float', 6), ('double', 4), ('int', 5), ('long', 2)):
            if r * c > lim + (3 if tier == 'thorough' else 0):
                continue
            out.append(cmp_(t, r, c, budget=150))
    for r, c in [(3, 3), (4, 4), (5, 2), (3, 6), (7, 1), (1, 9)] + ([(6, 6), (9, 13)] if tier == 'thorough' else []):
        for t in ('float', 'double', 'int'):
            out.append(cmp_at(t, r, c, budget=150))
    for n in (1, 2, 3, 4, 5, 6, 9, 17) + ((8, 10, 20) if tier == 'thorough' else ()):
        for t in ('float', 'double', 'int', 'unsigned', 'short', 'long', 'unsigned char'):
            if n <= 6 or t in ('float', 'int', 'double') or tier == 'thorough' and t != 'long':
                out.append(ident(t, n, budget=150))
    for n in (1, 2, 3, 4, 5, 7, 9) + ((12, 17) if tier == 'thorough' else ()):
        for t in ('float', 'double', 'int', 'unsigned char', 'long'):
            out.append(sym(t, n, budget=60 if tier == 'quick' else 300))
    for n in (4, 11, 17):
        for t in ('float', 'int'):
            out.append(sym_at(t, n, budget=100))
            out.append(ident_at(t, n, budget=100))
    for r, c in [(1, 300), (300, 1), (17, 20), (2, 150), (33, 33)]:
        for t in ('float', 'double', 'int'):
            out.append(cmp_at(t, r, c, 3, budget=150))
    return merging(out)
