"""Multivariate rational functions over Q, used as the term normal form of the
'real' (exact arithmetic) floating point semantics.

A Poly is a dict {monomial: coefficient}; a monomial is a packed integer with 8
bits per variable (exponent < 128).  A Rat is num / prod(factor**e) with the
denominator kept factored, so that common denominators stay small and exact
cancellation is by trial division.  The normalisation uses only field axioms,
plus s*s = X, s >= 0 for variables introduced by square roots.
"""
from fractions import Fraction
from math import gcd, isqrt

BITS = 8
GUARD = 0x80


class VarPool:
    """Registry of real variables of one harness run."""
    def __init__(self):
        self.names = []
        self.index = {}
        self.H = 0
        self.sqrt = {}      # var index -> Rat (its square)

    def new(self, name):
        if name in self.index:
            return self.index[name]
        i = len(self.names)
        self.names.append(name)
        self.index[name] = i
        self.H |= GUARD << (BITS * i)
        return i


POOL = VarPool()


def reset_pool():
    global POOL
    POOL = VarPool()
    _freeze_cache.clear()
    return POOL


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def padd(a, b, s=1):
    if len(b) > len(a) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else s * c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m1, c1), = a.items()
        if m1 == 0 and c1 == 1:
            return b
        return {m1 + m: c1 * c for m, c in b.items()}
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def pscale(a, k):
    if k == 1:
        return a
    return {m: _norm(c * k) for m, c in a.items()}


def ppow(a, e):
    r = {0: 1}
    for _ in range(e):
        r = pmul(r, a)
    return r


def pdivexact(a, b):
    """a / b if exact, else None (lex order = integer order of the monomials)."""
    if not a:
        return {}
    H = POOL.H
    if len(b) == 1:
        (mb, cb), = b.items()
        out = {}
        for m, c in a.items():
            if ((m | H) - mb) & H != H:
                return None
            out[m - mb] = _norm(Fraction(c) / cb) if cb != 1 else c
        return out
    lb = max(b)
    cb = b[lb]
    # quick reject on the trailing term as well
    tb = min(b)
    ta = min(a)
    if ((ta | H) - tb) & H != H:
        return None
    rest = [(m, c) for m, c in b.items() if m != lb]
    a = dict(a)
    q = {}
    import heapq
    heap = [-m for m in a]
    heapq.heapify(heap)
    while heap:
        m = -heapq.heappop(heap)
        c = a.pop(m, 0)
        if not c:
            continue
        if ((m | H) - lb) & H != H:
            return None
        qm = m - lb
        qc = c if cb == 1 else _norm(Fraction(c) / cb)
        q[qm] = qc
        for m2, c2 in rest:
            k = qm + m2
            v = a.get(k)
            if v is None:
                a[k] = -qc * c2
                heapq.heappush(heap, -k)
            else:
                v -= qc * c2
                a[k] = v
    return q


def pvars(a):
    s = set()
    for m in a:
        i = 0
        while m:
            if m & 0xff:
                s.add(i)
            m >>= BITS
            i += 1
    return s


def pexp(m, i):
    return (m >> (BITS * i)) & 0x7f


def mon_items(m):
    i = 0
    while m:
        e = m & 0xff
        if e:
            yield i, e
        m >>= BITS
        i += 1


def pcoeffs(a, i):
    """a as univariate in variable i: {exp: poly}"""
    r = {}
    mask = 0xff << (BITS * i)
    for m, c in a.items():
        e = (m & mask) >> (BITS * i)
        r.setdefault(e, {})[m & ~mask] = c
    return r


def pcontent(a):
    """content (positive rational) times the sign of the leading coefficient"""
    n = 0
    d = 1
    for c in a.values():
        if isinstance(c, Fraction):
            n = gcd(n, c.numerator)
            d = d * c.denominator // gcd(d, c.denominator)
        else:
            n = gcd(n, c)
    k = Fraction(n, d)
    if a[max(a)] < 0:
        k = -k
    return _norm(k)


def pprim(a):
    k = pcontent(a)
    if k == 1:
        return a, 1
    return {m: _norm(Fraction(c) / k) for m, c in a.items()}, k


def pis_const(a):
    return not a or (len(a) == 1 and 0 in a)


_freeze_cache = {}


class FP_:
    """hashable polynomial (denominator factor)"""
    __slots__ = ('p', 'k', 'h')

    def __init__(self, p):
        self.p = p
        self.k = frozenset(p.items())
        self.h = hash(self.k)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or self.k == o.k


def freeze(p):
    f = FP_(p)
    g = _freeze_cache.get(f)
    if g is None:
        _freeze_cache[f] = f
        return f
    return g


def peval(a, env):
    """env: var index -> Fraction"""
    s = Fraction(0)
    for m, c in a.items():
        t = Fraction(c)
        for i, e in mon_items(m):
            t *= env[i] ** e
        s += t
    return s


def pabs_bound(a, B):
    s = 0
    for m, c in a.items():
        d = 0
        for _, e in mon_items(m):
            d += e
        s += abs(c) * B ** d
    return s


def pstr(a):
    if not a:
        return '0'
    out = []
    for m, c in sorted(a.items(), reverse=True)[:12]:
        t = '*'.join(POOL.names[i] + ('^%d' % e if e > 1 else '') for i, e in mon_items(m))
        out.append(('%s*%s' % (c, t)) if t else str(c))
    return ' + '.join(out) + (' + ...' if len(a) > 12 else '')


class Rat:
    __slots__ = ('num', 'den', 'raw')

    def __init__(self, num, den=None, raw=None):
        self.num = num
        self.den = den or {}
        self.raw = raw

    # ---- constructors
    @staticmethod
    def const(c):
        c = _norm(Fraction(c))
        return Rat({0: c} if c else {}, None, ('c', c))

    @staticmethod
    def var(name):
        i = POOL.new(name)
        return Rat({1 << (BITS * i): 1}, None, ('v', i))

    def is_const(self):
        return not self.den and pis_const(self.num)

    def value(self):
        return Fraction(self.num.get(0, 0))

    def is_zero(self):
        return not self.num

    # ---- arithmetic
    def __add__(self, o):
        return radd(self, o, 1)

    def __sub__(self, o):
        return radd(self, o, -1)

    def __neg__(self):
        return Rat({m: -c for m, c in self.num.items()}, self.den, ('neg', self.raw))

    def __mul__(self, o):
        return rmul(self, o)

    def __truediv__(self, o):
        return rdiv(self, o)

    def __repr__(self):
        d = ' * '.join('(%s)^%d' % (pstr(f.p), e) for f, e in self.den.items())
        return pstr(self.num) + (' / ' + d if d else '')

    def eval(self, env):
        v = peval(self.num, env)
        for f, e in self.den.items():
            v /= peval(f.p, env) ** e
        return v

    def abs_scale(self, env):
        """sum of |monomials| / |den| : natural magnitude of the expression"""
        s = Fraction(0)
        for m, c in self.num.items():
            t = abs(Fraction(c))
            for i, e in mon_items(m):
                t *= abs(env[i]) ** e
            s += t
        for f, e in self.den.items():
            s /= abs(peval(f.p, env)) ** e
        return s


def lift(x):
    return x if isinstance(x, Rat) else Rat.const(x)


def _cancel(num, den):
    if not num:
        return num, {}
    out = None
    for f, e in den.items():
        k = e
        while k:
            q = pdivexact(num, f.p)
            if q is None:
                break
            num = q
            k -= 1
        if k != e:
            if out is None:
                out = dict(den)
            if k:
                out[f] = k
            else:
                del out[f]
    return num, (den if out is None else out)


def _reduce_sqrt(r):
    """rewrite s^2 -> X for square-root variables in the numerator"""
    if not POOL.sqrt:
        return r
    for s, X in POOL.sqrt.items():
        mask = 0xff << (BITS * s)
        if not any(((m & mask) >> (BITS * s)) > 1 for m in r.num):
            continue
        co = pcoeffs(r.num, s)
        acc = Rat({}, None)
        for e, p in co.items():
            t = Rat(p, None)
            for _ in range(e // 2):
                t = _rmul0(t, X)
            if e % 2:
                t = Rat(pmul(t.num, {1 << (BITS * s): 1}), t.den)
            acc = _radd0(acc, t, 1)
        for f, e in r.den.items():
            acc = Rat(acc.num, _dmul(acc.den, {f: e}))
        n, d = _cancel(acc.num, acc.den)
        r = Rat(n, d)
        return _reduce_sqrt(r)
    return r


def _dmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    for f, e in b.items():
        r[f] = r.get(f, 0) + e
    return r


def _radd0(a, b, s):
    if not b.num:
        return a
    if not a.num:
        return b if s == 1 else Rat({m: -c for m, c in b.num.items()}, b.den)
    if a.den == b.den:
        num = padd(a.num, b.num, s)
        if not a.den:
            return Rat(num, None)
        n, d = _cancel(num, a.den)
        return Rat(n, d)
    den = dict(a.den)
    na = a.num
    for f, e in b.den.items():
        k = e - den.get(f, 0)
        if k > 0:
            na = pmul(na, ppow(f.p, k))
            den[f] = e
    nb = b.num
    for f, e in den.items():
        k = e - b.den.get(f, 0)
        if k > 0:
            nb = pmul(nb, ppow(f.p, k))
    n, d = _cancel(padd(na, nb, s), den)
    return Rat(n, d)


def _rmul0(a, b):
    if not a.num or not b.num:
        return Rat({}, None)
    na, da = a.num, a.den
    nb, db = b.num, b.den
    if db and not pis_const(na):
        na, db = _cancel(na, db)
    if da and not pis_const(nb):
        nb, da = _cancel(nb, da)
    return Rat(pmul(na, nb), _dmul(da, db))


def radd(a, b, s):
    b = lift(b)
    a = lift(a)
    r = _radd0(a, b, s)
    return Rat(r.num, r.den, ('+' if s == 1 else '-', a.raw, b.raw))


def rmul(a, b):
    b = lift(b)
    a = lift(a)
    r = _rmul0(a, b)
    if POOL.sqrt:
        r = _reduce_sqrt(r)
    return Rat(r.num, r.den, ('*', a.raw, b.raw))


def rinv0(b):
    """1/b, b.num nonzero; square-root variables are moved out of the denominator"""
    num = {0: 1}
    for f, e in b.den.items():
        num = pmul(num, ppow(f.p, e))
    p = b.num
    pre = Rat(num, None)
    for s, X in POOL.sqrt.items():
        co = pcoeffs(p, s)
        if len(co) == 1 and 0 in co:
            continue
        # p = c0 + c1*s ; multiply by conjugate c0 - c1*s
        c0 = co.get(0, {})
        c1 = co.get(1, {})
        sv = {1 << (BITS * s): 1}
        if not c0:
            # c1*s : 1/(c1 s) = s / (c1 X)
            pre = _rmul0(pre, Rat(sv, None))
            pre = _rmul0(pre, rinv0(X))
            p = c1
        else:
            conj = padd(c0, pmul(c1, sv), -1)
            pre = _rmul0(pre, Rat(conj, None))
            den = _radd0(Rat(pmul(c0, c0), None), _rmul0(Rat(pmul(c1, c1), None), X), -1)
            den = _reduce_sqrt(den)
            for f, e in den.den.items():
                pre = _rmul0(pre, Rat(ppow(f.p, e), None))
            p = den.num
        pre = _reduce_sqrt(pre)
    prim, k = pprim(p)
    pre = Rat(pscale(pre.num, Fraction(1) / k), pre.den)
    if pis_const(prim):
        return pre
    d = {}
    if len(prim) == 1:
        (m, c), = prim.items()
        for i, e in mon_items(m):
            d[freeze({1 << (BITS * i): 1})] = e
    else:
        d[freeze(prim)] = 1
    n, dd = _cancel(pre.num, _dmul(pre.den, d))
    return Rat(n, dd)


def rdiv(a, b):
    b = lift(b)
    a = lift(a)
    r = _rmul0(a, rinv0(b))
    n, d = _cancel(r.num, r.den)
    r = _reduce_sqrt(Rat(n, d))
    return Rat(r.num, r.den, ('/', a.raw, b.raw))


def rsubs(r, sub):
    """apply an ordered list of substitutions [(var, Rat)]"""
    for v, e in sub:
        if not _has(r.num, v) and not any(_has(f.p, v) for f in r.den):
            continue
        n = psubs(r.num, v, e)
        for f, k in r.den.items():
            if _has(f.p, v):
                d = psubs(f.p, v, e)
                if not d.num:
                    return None
                inv = rinv0(d)
                for _ in range(k):
                    n = _rmul0(n, inv)
            else:
                n = Rat(n.num, _dmul(n.den, {f: k}))
        nn, dd = _cancel(n.num, n.den)
        r = _reduce_sqrt(Rat(nn, dd, r.raw))
    return r


def _has(p, v):
    mask = 0xff << (BITS * v)
    for m in p:
        if m & mask:
            return True
    return False


def psubs(p, v, e):
    co = pcoeffs(p, v)
    acc = Rat({}, None)
    pw = Rat({0: 1}, None)
    last = 0
    for k in sorted(co):
        while last < k:
            pw = _rmul0(pw, e)
            last += 1
        acc = _radd0(acc, _rmul0(Rat(co[k], None), pw), 1)
    return acc


def psqrt(p):
    """polynomial square root or None"""
    if not p:
        return {}
    lt = max(p)
    c = Fraction(p[lt])
    if c < 0:
        return None
    n, d = isqrt(c.numerator), isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    root = 0
    for i, e in mon_items(lt):
        if e % 2:
            return None
        root += (e // 2) << (BITS * i)
    q = {root: _norm(Fraction(n, d))}
    H = POOL.H
    lead = q[root]
    r = padd(p, pmul(q, q), -1)
    for _ in range(200):
        if not r:
            return q
        m = max(r)
        if ((m | H) - root) & H != H:
            return None
        t = {m - root: _norm(Fraction(r[m]) / (2 * lead))}
        # r = p - (q+t)^2 = r - 2qt - t^2
        r = padd(padd(r, pscale(pmul(q, t), 2), -1), pmul(t, t), -1)
        q = padd(q, t)
    return None


def rsqrt_exact(r):
    """Rat q with q*q == r syntactically, or None"""
    if not r.num:
        return Rat({}, None)
    n = psqrt(r.num)
    if n is None:
        return None
    d = {}
    for f, e in r.den.items():
        if e % 2:
            return None
        d[f] = e // 2
    return Rat(n, d)
