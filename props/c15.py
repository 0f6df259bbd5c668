"""Median."""
from .common import *

BOUNDS = ["element types float, double (every non-NaN bit pattern), int, unsigned, short, unsigned char, long; every assignment of all elements for shapes with up to 5 elements "
          "(thorough: 6, int 7); 6 elements with 4 symbolic; shapes up to 5x5 and 1x33 with up to 3, 17x17 and 1x300 with one symbolic element among fixed ones (beyond 16 elements the sorting algorithm changes)",
          "even count: the two middle elements are added and halved in the element's arithmetic; signed sums that overflow are not claimed"]


def md(t, r, c, fixed=None, tag='median', **kw):
    n = r * c
    fl = is_float(t)
    _, bits, signed = TYPES[t]

    def build(k):
        out = []
        for i, v in enumerate(fixed):
            out.append(k.sym(b0, i) if v is None else v)
        return {'A': [out[i * c:(i + 1) * c] for i in range(r)]}
    b0 = M('A', t, r, c)

    def assume(k, I):
        return [z3.Not(z3.fpIsNaN(x)) for x in flat(I.A)] if fl else []

    def half(k, a, b):
        if fl:
            return k.div(k.add(a, b), 2)
        if bits < 32:
            e = (lambda x: z3.SignExt(32 - bits, x)) if signed else (lambda x: z3.ZeroExt(32 - bits, x))
            return z3.Extract(bits - 1, 0, (e(a) + e(b)) / 2)
        return (a + b) / 2 if signed else z3.UDiv(a + b, z3.BitVecVal(2, bits))

    def spec(k, I, O):
        xs = flat(I.A)
        for classes in k.weak_orders(xs, signed):
            o = [i for cl in classes for i in cl]
            if n % 2:
                k.eq(O.m, xs[o[n // 2]], 'median')
            else:
                k.eq(O.m, half(k, xs[o[n // 2]], xs[o[n // 2 - 1]]), 'median')

    def fb(k, I):
        if fl or not signed or n % 2 or bits < 32:
            return []
        lim = 1 << (bits - 2)
        return [z3.And(x >= -lim, x < lim) for x in flat(I.A)]
    return Entry(nm(tag, t, r, c), 'm = median(A);', [b0], [S('m', t)], spec, assume=assume, fallback=fb, build=build if fixed else None, weight=n ** 3, max_paths=20000, **kw)


def fixed(n, holes, seed):
    vals = [((i * 37 + seed * 11) % 29) - 14 for i in range(n)]
    return [None if i in holes else abs(v) for i, v in enumerate(vals)]


def entries(tier):
    out = []
    sh = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (1, 5), (5, 1)]
    for t in ('float', 'int', 'double', 'unsigned', 'short', 'unsigned char', 'long'):
        for r, c in sh:
            if r * c == 5 and t not in ('float', 'int') and tier == 'quick':
                continue
            out.append(md(t, r, c, budget=60))
    for t in ('float', 'int'):
        for r, c in [(2, 3), (3, 2)]:
            if tier == 'thorough':
                out.append(md(t, r, c, budget=300))
            out.append(md(t, r, c, [None, None, 3, None, -2, None] if r == 2 else [1, None, None, 1, None, None], 'median4'))
    if tier == 'thorough':
        out.append(md('int', 1, 7, budget=900))
    for t in ('float', 'int', 'double', 'unsigned', 'long'):
        out.append(md(t, 3, 3, fixed(9, (2, 5, 8), 1), 'median3'))
        out.append(md(t, 4, 4, fixed(16, (0, 7), 2), 'median2'))
        out.append(md(t, 5, 5, fixed(25, (3, 24), 3), 'median2'))
        out.append(md(t, 4, 5, fixed(20, (0, 13), 4), 'median2'))
        out.append(md(t, 1, 33, fixed(33, (16, 32), 5), 'median2', budget=150))
        out.append(md(t, 1, 300, [None if i == 123 else (i * 37) % 23 for i in range(300)], 'median1', budget=150))
        out.append(md(t, 17, 17, [None if i == 288 else (i * 41) % 19 for i in range(289)], 'median1', budget=150))
        out.append(md(t, 6, 3, fixed(18, (4, 17), 6), 'median2'))
    return out
