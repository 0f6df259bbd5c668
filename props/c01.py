"""Element-wise addition and subtraction."""
from .common import *

BOUNDS = ["element types float, double, int, unsigned, short, long, unsigned char (every bit pattern of every element and of the scalar); shapes 1x1 .. 33x33 incl. "
          "non-square and 1x300, 300x1 (thorough: up to 65x65, 2x300, 300x2); IEEE-754 semantics exact (equal up to NaN payload and sign of zero)"]

OPS = [('mm', 'A + B', '+', 'B'), ('fn', 'sum(A, B)', '+', 'B'), ('ms', 'A + s', '+', 's'), ('sm', 's + A', '+', 's'),
       ('fs', 'sum(A, s)', '+', 's'), ('inc', 'A++', '+', 1),
       ('dmm', 'A - B', '-', 'B'), ('dfn', 'sub(A, B)', '-', 'B'), ('dms', 'A - s', '-', 's'), ('dfs', 'sub(A, s)', '-', 's'),
       ('dec', 'A--', '-', 1)]


def ew(tag, ops, t, r, c):
    ins = [M('A', t, r, c), M('B', t, r, c), S('s', t)]
    outs = [M('o_' + o[0], t, r, c) for o in ops]
    body = '\n  '.join('o_%s = %s;' % (o[0], o[1]) for o in ops)

    def other(I, w, i, j):
        return I.B[i][j] if w == 'B' else I.s if w == 's' else 1

    def spec(k, I, O):
        for n, _, op, w in ops:
            X = getattr(O, 'o_' + n)
            f = k.add if op == '+' else k.sub
            for i in range(r):
                for j in range(c):
                    k.eq(X[i][j], f(I.A[i][j], other(I, w, i, j)), '%s[%d][%d]' % (n, i, j))

    def fb(k, I):
        if is_float(t):
            return []
        out = []
        for op in '+-':
            for w in ('B', 's', 1):
                out += no_ovf(op, [k._lift2(I.A[i][j], other(I, w, i, j)) for i in range(r) for j in range(c)], TYPES[t][2])
        return out
    return Entry(nm(tag, t, r, c), body, ins, outs, spec, fallback=fb, weight=r * c)


def entries(tier):
    out = []
    for t in ('float', 'double', 'int', 'unsigned', 'short', 'long', 'unsigned char'):
        for r, c in shapes(tier):
            if t not in ('float', 'int') and r * c > 20 and tier == 'quick' and (r, c) != (7, 9):
                continue
            if r * c > 50:
                for o in OPS:
                    out.append(ew('ew_' + o[0], [o], t, r, c))
            else:
                out.append(ew('ew', OPS, t, r, c))
    return merging(out)
