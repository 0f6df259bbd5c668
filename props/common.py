import z3
from engine.spec import Entry, M, S, V, Ctx, TYPES
from engine.rat import Rat

SMALL = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 5), (5, 1), (3, 4), (4, 3), (4, 4), (5, 5), (2, 7)]
LARGE = [(6, 6), (7, 9), (8, 8), (5, 11), (11, 13), (12, 12), (13, 5), (16, 16), (17, 3), (3, 18), (20, 20), (1, 300), (300, 1), (33, 33), (2, 130)]
XL = [(128, 1), (65, 65), (33, 2), (2, 70), (40, 40), (2, 300), (300, 2)]
TN = {'float': 'f', 'double': 'd', 'int': 'i', 'unsigned': 'u', 'short': 's', 'long': 'l', 'unsigned char': 'b', 'signed char': 'c',
      'unsigned short': 'w', 'std::size_t': 'z', 'unsigned long': 'z'}


def nm(f, t, *dims):
    return '%s_%s_%s' % (f, TN[t], 'x'.join(map(str, dims)))


def shapes(tier):
    return SMALL + LARGE + (XL if tier == 'thorough' else [])


def is_float(t):
    return TYPES[t][0] == 'f'


def no_ovf(op, pairs, signed):
    """no signed overflow in any of the element operations"""
    if not signed:
        return []
    out = []
    for a, b in pairs:
        if op == '+':
            out += [z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)]
        elif op == '-':
            out += [z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)]
        elif op == '*':
            out += [z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)]
    return out


def flat(A):
    return [x for r in A for x in r]


def small_ints(bits, B):
    """every listed bit-vector within [-B, B]"""
    def f(xs):
        return [z3.And(x >= -B, x <= B) for x in xs]
    return f


def pattern(name, rows, bits=None):
    """build(): a matrix input from a pattern; cells are numbers or '*' (a fresh symbolic value) or a name (shared symbolic value)"""
    def var(n):
        return Rat.var(n) if bits is None else z3.BitVec(n, bits)

    def b(k):
        out = []
        for i, r in enumerate(rows):
            cells = r.split() if isinstance(r, str) else r
            o = []
            for j, c in enumerate(cells):
                if c == '*':
                    o.append(var('%s_%d_%d' % (name, i, j)))
                elif isinstance(c, str) and not c.lstrip('-').isdigit():
                    o.append(-var(c[1:]) if c[0] == '-' else var(c))
                else:
                    o.append(int(c))
            out.append(o)
        return {name: out}
    return b


def grid(n, f):
    return [[f(i, j) for j in range(n)] for i in range(n)]


def tridiag(n, stars=None):
    """diagonally dominant tridiagonal matrix, listed diagonal cells symbolic (all of them when stars is None)"""
    return grid(n, lambda i, j: ('*' if stars is None or i in stars else 4) if i == j else -1 if abs(i - j) == 1 else 0)


def dense(n, holes, seed=1):
    """fixed small integers, the listed cells symbolic"""
    return grid(n, lambda i, j: '*' if (i, j) in holes else ((i * 31 + j * 17 + seed * 13 + i * j * 7) % 19) - 9)


def permuted(n, step, sym=lambda i: True):
    return grid(n, lambda i, j: ('*' if sym(i) else i + 1) if j == (i * step + 1) % n else 0)


def det_contract(mod):
    """calls of the general determinant (n >= 4) replaced by its specification, which C08 decides on the real code"""
    import re
    from engine.discharge import BT
    from engine.spec import Buf
    out = {}
    for name in mod.funcs:
        m = re.match(r'^_ZN4mlib3detI([fd])Lm(\d+)EEE?T_', name)
        if not m:
            continue
        b = Buf('x', 'float' if m.group(1) == 'f' else 'double')
        n = int(m.group(2))

        def h(ex, st, args, I, b=b, n=n):
            t = BT(b)
            A = [[ex.load(st, args[0] + (i * n + j) * b.bytes, t) for j in range(n)] for i in range(n)]
            return ex.rnorm(st, Ctx(_R).leibniz(A))
        out[name] = h
    return out


class _R:
    mode = 'real'


def clones(tier, prefix, events, mods, pred=None):
    """the other properties' harnesses, judged only by what happened during the call"""
    import copy
    import importlib
    out = []
    for m in mods:
        for e in importlib.import_module('props.' + m).entries(tier):
            if e.outspec or (pred and not pred(m, e)) or tier == 'quick' and any(s in e.name for s in ('band9', 'two7', 'median1_f_17', 'median1_d_17')):
                continue
            x = copy.copy(e)
            x.name = '%s_%s' % (prefix, e.name)
            x.spec = None
            x.events = tuple(events)
            x.any_throw = True
            x.throws = None
            x.exact = None
            out.append(x)
    return out


def merging(es):
    """short branches inside these (element-wise) operations are merged into if-then-else values instead of being explored separately"""
    for e in es:
        e.merge = True
    return es
