"""Harness descriptions: typed inputs/outputs, goals, and the values specs compute with."""
from fractions import Fraction
import struct
import z3
from . import rat as R
from .rat import Rat
from . import symex as SX

# C++ type -> (kind, bits, signed)
TYPES = {
    'float': ('f', 32, True), 'double': ('f', 64, True), 'int': ('i', 32, True), 'unsigned': ('i', 32, False),
    'unsigned int': ('i', 32, False), 'short': ('i', 16, True), 'unsigned short': ('i', 16, False), 'long': ('i', 64, True),
    'unsigned long': ('i', 64, False), 'std::size_t': ('i', 64, False), 'signed char': ('i', 8, True),
    'unsigned char': ('i', 8, False), 'bool': ('i', 8, False), 'char': ('i', 8, True), 'long long': ('i', 64, True),
}


class Buf:
    """a parameter: scalar (shape ()), matrix (r, c) or flat array (n,)"""
    def __init__(self, name, ty, shape=(), sym=None):
        self.name = name
        self.ty = ty
        self.shape = tuple(shape)
        self.kind, self.bits, self.signed = TYPES[ty]
        self.bytes = self.bits // 8

    @property
    def count(self):
        n = 1
        for s in self.shape:
            n *= s
        return n

    def cxx(self):
        if len(self.shape) == 2:
            return 'Matrix<%s,%d,%d>' % (self.ty, self.shape[0], self.shape[1])
        if len(self.shape) == 1:
            return 'std::array<%s,%d>' % (self.ty, self.shape[0])
        return self.ty

    def nest(self, flat):
        if len(self.shape) == 2:
            r, c = self.shape
            return [list(flat[i * c:(i + 1) * c]) for i in range(r)]
        if len(self.shape) == 1:
            return list(flat)
        return flat[0]

    def flat(self, v):
        if len(self.shape) == 2:
            return [x for row in v for x in row]
        if len(self.shape) == 1:
            return list(v)
        return [v]


def M(name, ty, r, c):
    return Buf(name, ty, (r, c))


def S(name, ty):
    return Buf(name, ty)


def V(name, ty, n):
    return Buf(name, ty, (n,))


class Entry:
    def __init__(self, name, body, ins, outs, spec, mode='fp', throws=None, assume=None, fallback=None, build=None, quick=True,
                 max_paths=4000, feas='solver', feas_ms=2000, budget=60, events=(), exact=None, contracts=None, pre='',
                 exc='_ZTISt14overflow_error', tol=None, outspec=None, known=None, note='', goal_ms=8000, rnd=None,
                 outcome_only=False, weight=1, search=None, slow_ok=False, any_throw=False, merge=False):
        self.merge = merge              # merge short branches instead of forking
        self.any_throw = any_throw      # the documented exception is accepted on any path (another property decides when)
        self.slow_ok = slow_ok          # a run longer than the replay time limit proves nothing here
        self.name = name
        self.body = body
        self.ins = ins
        self.outs = outs
        self.spec = spec
        self.mode = mode
        self.throws = throws
        self.assume = assume
        self.fallback = fallback        # extra assumption tried before reporting (e.g. no signed overflow)
        self.build = build
        self.quick = quick
        self.max_paths = max_paths
        self.feas = feas
        self.feas_ms = feas_ms
        self.budget = budget
        self.events = tuple(events)     # event kinds that are violations for this entry
        self.exact = exact
        self.contracts = contracts
        self.pre = pre
        self.exc = exc
        self.tol = tol
        self.outspec = outspec          # spec over recorded output events (print)
        self.known = known
        self.note = note
        self.goal_ms = goal_ms
        self.rnd = rnd
        self.outcome_only = outcome_only
        self.weight = weight
        self.search = search            # candidate value range for counterexample search

    @property
    def dbl(self):
        return any(b.ty == 'double' for b in self.ins + self.outs) and not any(b.ty == 'float' for b in self.outs)

    def cxx(self):
        ps = ['const %s& %s' % (b.cxx(), b.name) for b in self.ins] + ['%s& %s' % (b.cxx(), b.name) for b in self.outs]
        return '%sextern "C" void %s(%s)\n{\n  %s\n}\n' % (self.pre and self.pre + '\n', self.name, ', '.join(ps), self.body)


class Goal:
    __slots__ = ('k', 'a', 'b', 'label', 'guard')

    def __init__(self, k, a, b, label, guard=()):
        self.guard = guard
        self.k = k
        self.a = a
        self.b = b
        self.label = label


def lift(v, buf, real):
    """memory value -> spec value (Rat / z3 FP / z3 BV)"""
    if v is SX.UNDEF or isinstance(v, SX.Poison):
        return v
    if buf.kind == 'f':
        if real:
            return v
        if v.__class__ is float:
            return z3.FPVal(v, z3.Float32() if buf.bits == 32 else z3.Float64())
        return v
    if v.__class__ is int:
        return z3.BitVecVal(v, buf.bits)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, buf.bits), z3.BitVecVal(0, buf.bits))
    return v


def bad(v):
    return v is SX.UNDEF or isinstance(v, SX.Poison)


class Ctx:
    """operations for specs, polymorphic over Rat, z3 FP and z3 BV"""
    def __init__(self, entry, concrete=False):
        self.e = entry
        self.real = entry.mode == 'real'
        self.concrete = concrete
        self.goals = []
        self.guards = ()
        self.feas = None          # set by the runner: are these extra conditions possible on the path?

    def cases(self, var, values, signed=False):
        """case split on a (bit-vector) input: yields each value possible on this path; goals made inside are under that case"""
        old = self.guards
        for v in (range(values) if isinstance(values, int) else values):
            cond = z3.simplify(var == v)
            if z3.is_false(cond):
                continue
            if z3.is_true(cond):
                yield v
                return
            if self.feas and not self.feas(list(old) + [cond]):
                continue
            self.guards = old + (cond,)
            yield v
        self.guards = old

    def branch(self, conds):
        """case split on mutually exclusive z3 conditions: yields the index of each possible one, under its guard"""
        old = self.guards
        for n, c in enumerate(conds):
            c = z3.simplify(c)
            if z3.is_false(c):
                continue
            if z3.is_true(c):
                yield n
                return
            if self.feas and not self.feas(list(old) + [c]):
                continue
            self.guards = old + (c,)
            yield n
        self.guards = old

    def weak_orders(self, xs, signed=True):
        """yields every possible arrangement of xs: ascending list of classes of equal elements (lists of indices)"""
        def lt(a, b):
            if isinstance(a, z3.FPRef):
                return z3.fpLT(a, b)
            return a < b if signed else z3.ULT(a, b)

        def eq(a, b):
            return z3.fpEQ(a, b) if isinstance(a, z3.FPRef) else a == b

        def ins(i, classes, lo, hi):
            if lo == hi:
                yield classes[:lo] + [[i]] + classes[lo:]
                return
            mid = (lo + hi) // 2
            r = xs[classes[mid][0]]
            for w in self.branch([lt(xs[i], r), eq(xs[i], r), lt(r, xs[i])]):
                if w == 0:
                    yield from ins(i, classes, lo, mid)
                elif w == 1:
                    yield classes[:mid] + [classes[mid] + [i]] + classes[mid + 1:]
                else:
                    yield from ins(i, classes, mid + 1, hi)

        def go(i, classes):
            if i == len(xs):
                yield classes
                return
            for c in ins(i, classes, 0, len(classes)):
                yield from go(i + 1, c)
        yield from go(0, [])

    # arithmetic (canonical operand order as in the executor)
    def _lift2(self, a, b):
        if isinstance(a, (int, float, Fraction)) and not isinstance(a, bool):
            a, b = b, a
            x, y = self._lift2(a, b)
            return y, x
        if isinstance(b, (int, float, Fraction)):
            b = self.const(b, a)
        return a, b

    def const(self, x, like):
        if isinstance(like, Rat):
            return Rat.const(Fraction(x))
        if isinstance(like, z3.FPRef):
            return z3.FPVal(float(x), like.sort())
        return z3.BitVecVal(int(x), like.size())

    def add(self, a, b):
        a, b = self._lift2(a, b)
        if bad(a) or bad(b):
            return a if bad(a) else b
        if isinstance(a, z3.FPRef):
            x, y = (a, b) if a.get_id() <= b.get_id() else (b, a)
            return z3.fpAdd(z3.RNE(), x, y)
        return a + b

    def sub(self, a, b):
        a, b = self._lift2(a, b)
        if bad(a) or bad(b):
            return a if bad(a) else b
        if isinstance(a, z3.FPRef):
            return z3.fpSub(z3.RNE(), a, b)
        return a - b

    def mul(self, a, b):
        a, b = self._lift2(a, b)
        if bad(a) or bad(b):
            return a if bad(a) else b
        if isinstance(a, z3.FPRef):
            x, y = (a, b) if a.get_id() <= b.get_id() else (b, a)
            return z3.fpMul(z3.RNE(), x, y)
        return a * b

    def div(self, a, b, signed=True):
        a, b = self._lift2(a, b)
        if bad(a) or bad(b):
            return a if bad(a) else b
        if isinstance(a, z3.FPRef):
            return z3.fpDiv(z3.RNE(), a, b)
        if isinstance(a, Rat):
            if b.is_zero():
                return SX.Poison('spec division by zero')
            return a / b
        return a / b if signed else z3.UDiv(a, b)

    def sum(self, xs):
        xs = list(xs)
        acc = xs[0]
        for x in xs[1:]:
            acc = self.add(acc, x)
        return acc

    def zero(self, like):
        return self.const(0, like)

    # goals
    def eq(self, a, b, label=''):
        if not bad(a) and not bad(b):
            a, b = self._lift2(a, b)
        self.goals.append(Goal('eq', a, b, label, self.guards))

    def rel(self, op, a, label=''):
        """real mode: a op 0"""
        self.goals.append(Goal('rel', a, op, label, self.guards))

    def true(self, cond, label=''):
        self.goals.append(Goal('b', cond, None, label, self.guards))

    def alt(self, forms, label=''):
        """one condition in several equivalent forms; it is enough that the solver discharges one of them"""
        self.goals.append(Goal('alt', list(forms), None, label, self.guards))

    def eqmat(self, X, Y, label='out'):
        for i, (r, s) in enumerate(zip(X, Y)):
            for j, (x, y) in enumerate(zip(r, s)):
                self.eq(x, y, '%s[%d][%d]' % (label, i, j))

    # linear algebra helpers
    def matmul(self, A, B):
        return [[self.sum(self.mul(A[i][k], B[k][j]) for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]

    def leibniz(self, A):
        n = len(A)
        if n == 1:
            return A[0][0]
        if n > 6 and isinstance(A[0][0], Rat) and all(x.is_const() for r in A for x in r):
            return Rat.const(fdet([[x.value() for x in r] for r in A]))
        return self._ldet(A)

    def _ldet(self, A):
        # determinant by dynamic programming over column subsets (Laplace expansion, memoised)
        n = len(A)
        memo = {}

        def go(row, cols):
            if row == n:
                return None
            k = (row, cols)
            if k in memo:
                return memo[k]
            acc = None
            for s, c in enumerate(cols):
                if isinstance(A[row][c], Rat) and A[row][c].is_zero():
                    continue
                rest = cols[:s] + cols[s + 1:]
                t = A[row][c]
                if rest:
                    m = go(row + 1, rest)
                    if isinstance(m, Rat) and m.is_zero():
                        continue
                    t = self.mul(t, m)
                if s % 2:
                    acc = self.sub(self.const(0, t) if acc is None else acc, t)
                else:
                    acc = t if acc is None else self.add(acc, t)
            if acc is None:
                acc = self.const(0, A[row][cols[0]])
            memo[k] = acc
            return acc
        return go(0, tuple(range(n)))


def fdet(A):
    A = [r[:] for r in A]
    n = len(A)
    d = Fraction(1)
    for k in range(n):
        p = next((i for i in range(k, n) if A[i][k]), None)
        if p is None:
            return Fraction(0)
        if p != k:
            A[p], A[k] = A[k], A[p]
            d = -d
        d *= A[k][k]
        for i in range(k + 1, n):
            f = A[i][k] / A[k][k]
            if f:
                for j in range(k, n):
                    A[i][j] -= f * A[k][j]
    return d
