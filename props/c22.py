"""Printing."""
from .common import *
import math

BOUNDS = ["element types float, double, int, unsigned, long, short, unsigned short: every bit pattern of every element; shapes 1x1 .. 5x3, and 7x9, 17x17, 33x33, 1x300, 300x1 for float, double and int; the characters produced for one number are the stream's own default format"]
ASSUMPTIONS = ["operator<< of std::ostream for numbers, characters, strings and std::endl is modelled as appending one token; formatting state changes are recorded and rejected"]


def text(t, v):
    if is_float(t):
        v = float(v)
        if math.isnan(v):
            return 'nan'
        if math.isinf(v):
            return 'inf' if v > 0 else '-inf'
        return '%g' % v
    return str(v)


def pr(t, r, c):
    bits, signed = TYPES[t][1], TYPES[t][2]

    def wide(v):
        if isinstance(v, float):
            return z3.FPVal(v, z3.Float64())
        if isinstance(v, int):
            return z3.BitVecVal(v, 64)
        if isinstance(v, z3.FPRef):
            return v if v.sort() == z3.Float64() else z3.fpFPToFP(z3.RNE(), v, z3.Float64())
        if isinstance(v, z3.BitVecRef) and v.size() < 64:
            return z3.SignExt(64 - v.size(), v) if signed else z3.ZeroExt(64 - v.size(), v)
        return v

    def outspec(k, I, ev):
        toks = []
        for kind, v in ev:
            if kind == 'str' and toks and toks[-1][0] == 'str':
                toks[-1] = ('str', toks[-1][1] + v)
            elif kind != 'str' or v:
                toks.append((kind, v))
        exp = []
        for i in range(r):
            for j in range(c):
                exp.append(('num', I.A[i][j]))
                exp.append(('str', ' ' if j < c - 1 else ' \n'))
        if len(toks) != len(exp) or any(a[0] != b[0] for a, b in zip(toks, exp)):
            k.true(False, 'sequence of tokens')
            return
        for n, (a, b) in enumerate(zip(toks, exp)):
            if a[0] == 'str':
                k.true(a[1] == b[1], 'text %d' % n)
            else:
                v = a[1]
                if isinstance(v, int) and TYPES[t][0] == 'i':
                    v = z3.BitVecVal(v, bits)
                k.eq(wide(v), wide(b[1]), 'number %d' % (n // 2))

    def concrete(I, rr):
        exp = ''
        for row in I.A:
            for x in row:
                x = z3.simplify(x)
                if is_float(t):
                    b = z3.simplify(z3.fpToIEEEBV(x)) if not z3.is_true(z3.simplify(z3.fpIsNaN(x))) else None
                    from engine import symex as SX
                    v = float('nan') if b is None else SX.bitsf(b.as_long(), bits)
                else:
                    v = x.as_signed_long() if signed else x.as_long()
                exp += text(t, v) + ' '
            exp += '\n'
        got = rr['stdout'].replace('-nan', 'nan')
        return None if got == exp else 'printed %r, expected %r' % (got[:200], exp[:200])
    e = Entry(nm('print', t, r, c), 'print(A);', [M('A', t, r, c)], [], None, outspec=outspec, weight=r * c)
    e.outspec_concrete = concrete
    return e


def entries(tier):
    out = []
    for t in ('float', 'double', 'int', 'unsigned', 'long', 'short', 'unsigned short'):
        for r, c in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 6), (6, 1), (4, 4), (5, 3)] + ([(7, 9), (1, 300), (300, 1), (17, 17), (33, 33)] if t in ('float', 'int', 'double') else []) + ([(20, 20)] if tier == 'thorough' else []):
            out.append(pr(t, r, c))
    return merging(out)
