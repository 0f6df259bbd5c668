"""Path-exploring symbolic executor for LLVM IR (the -O0 IR clang emits for /repo's headers).

Integers are bit-vectors (Python int when concrete, z3 BitVec otherwise; i1 is z3 Bool).
Floating point has two semantics, chosen per harness:
  'fp'   exact IEEE-754 (z3 FloatingPoint theory, RNE), every bit pattern allowed;
  'real' exact arithmetic over the reals: terms in rational normal form (rat.py),
         conditions as polynomial atoms, decided with z3 (nonlinear real arithmetic).
Pointers are concrete (object id << 32 | offset); a symbolic address is concretised by
solver-enumerated forking.  Memory objects are bounds, liveness and init checked.
"""
import struct
import time
from fractions import Fraction
import z3
from . import rat as R
from .rat import Rat

M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class UBError(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, outcome, detail=''):
        self.outcome = outcome
        self.detail = detail


class MergeAbort(Exception):
    pass


class MergeRetry(MergeAbort):
    pass


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Poison:
    """non-finite value (inf/nan) in the real semantics"""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'NONFINITE(%s)' % self.why


class Obj:
    __slots__ = ('size', 'cells', 'kind', 'name', 'alive', 'const')

    def __init__(self, size, kind, name='', const=False):
        self.size = size
        self.cells = {}
        self.kind = kind
        self.name = name
        self.alive = True
        self.const = const

    def clone(self):
        o = Obj.__new__(Obj)
        o.size = self.size
        o.cells = dict(self.cells)
        o.kind = self.kind
        o.name = self.name
        o.alive = self.alive
        o.const = self.const
        return o


class Frame:
    __slots__ = ('f', 'regs', 'ip', 'blk', 'allocas', 'retreg', 'inv', 'catching')

    def copy(self):
        n = Frame.__new__(Frame)
        n.f = self.f
        n.regs = self.regs[:]
        n.ip = self.ip
        n.blk = self.blk
        n.allocas = self.allocas[:]
        n.retreg = self.retreg
        n.inv = self.inv
        n.catching = self.catching
        return n


class State:
    __slots__ = ('frames', 'mem', 'owned', 'nobj', 'pc', 'rc', 'sub', 'nz', 'pos', 'forced', 'cur', 'events', 'steps', 'exc',
                 'guard', 'gaddr', 'exact', 'caught', 'depth', 'noise')

    def copy(self):
        n = State.__new__(State)
        n.frames = [f.copy() for f in self.frames]
        n.mem = dict(self.mem)
        n.owned = set()
        self.owned = set()
        n.nobj = self.nobj
        n.pc = self.pc[:]
        n.rc = self.rc[:]
        n.sub = self.sub[:]
        n.nz = set(self.nz)
        n.pos = set(self.pos)
        n.forced = None
        n.cur = None
        n.events = self.events[:]
        n.steps = self.steps
        n.exc = self.exc
        n.guard = self.guard
        n.gaddr = dict(self.gaddr)
        n.exact = self.exact
        n.caught = self.caught[:]
        n.depth = self.depth
        n.noise = self.noise
        return n


class Path:
    def __init__(self, st, outcome, detail):
        self.st = st
        self.outcome = outcome
        self.detail = detail


F32 = None
F64 = None
RNE = None


def _z3init():
    global F32, F64, RNE
    F32 = z3.Float32()
    F64 = z3.Float64()
    RNE = z3.RNE()


def holds(op, c):
    return int({'==': c == 0, '!=': c != 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op])


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return float('inf') if x > 0 else float('-inf')


def fbits(x, w):
    return struct.unpack('<I', struct.pack('<f', x))[0] if w == 32 else struct.unpack('<Q', struct.pack('<d', x))[0]


def bitsf(b, w):
    return struct.unpack('<f', struct.pack('<I', b))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', b))[0]


class Executor:
    def __init__(self, module, mode='fp', feas='solver', max_paths=20000, max_steps=4_000_000, feas_ms=2000,
                 exact_bound=None, dbl=False, deadline=None, contracts=None):
        if F32 is None:
            _z3init()
        self.m = module
        self.mode = mode
        self.real = mode == 'real'
        self.feas = feas
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.feas_ms = feas_ms
        self.exact_bound = exact_bound
        self.exact_max = 0
        self.dbl = dbl
        self.round_const = False
        self.merge = False       # merge the two sides of short branches into one state (if-then-else values)
        self.nofork = 0
        self.pdoms = {}
        self.noworth = {}        # branch site -> failed attempts
        self.merged = 0
        self.deadline = deadline
        self.contracts = contracts or {}
        self.funcs_run = set()
        self.nfeas = 0
        self.feas_time = 0.0
        self.faddr = {}
        self.faddr_inv = {}
        self.derived = {}        # real var index -> f(env) for search
        self.bvreal = {}         # ast id of BV -> Rat
        self.keep = []
        self._solver = None
        self._stack = []
        self.stubs = dict(STUBS)
        self.prepared = {}
        self.truncated = False
        self.notes = []
        self.steps_done = 0

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, size, kind, name='', const=False):
        st.nobj += 1
        st.mem[st.nobj] = Obj(size, kind, name, const)
        st.owned.add(st.nobj)
        return st.nobj << 32

    def wobj(self, st, oid):
        o = st.mem[oid]
        if oid not in st.owned:
            o = o.clone()
            st.mem[oid] = o
            st.owned.add(oid)
        return o

    def locate(self, st, addr, n, write):
        if addr.__class__ is not int:
            if addr is UNDEF:
                raise UBError('use of uninitialised pointer')
            addr = self.concretize(st, addr, 64)
        oid = addr >> 32
        off = addr & 0xffffffff
        o = st.mem.get(oid)
        if o is None:
            raise UBError('access through invalid pointer 0x%x' % addr)
        if not o.alive:
            raise UBError('access to dead object %s' % o.name)
        if off + n > o.size:
            raise UBError('out-of-bounds %s of %d bytes at offset %d of %d-byte %s object %s'
                          % ('write' if write else 'read', n, off if off < 0x80000000 else off - (1 << 32), o.size, o.kind, o.name))
        if write:
            if o.kind == 'global':
                if o.const:
                    raise UBError('write to constant %s' % o.name)
                if not st.guard and not o.name.startswith('_ZGV'):
                    st.events.append(('gstore', o.name))
            if o.kind == 'input':
                st.events.append(('instore', o.name))
            o = self.wobj(st, oid)
        return o, off

    def load(self, st, addr, ty):
        k = ty.k
        if k == 'v':
            es = ty.elt.store
            a = addr if addr.__class__ is int else self.concretize(st, addr, 64)
            return tuple(self.load(st, a + i * es, ty.elt) for i in range(ty.n))
        if k == 'a':
            es = ty.elt.size
            a = addr if addr.__class__ is int else self.concretize(st, addr, 64)
            return tuple(self.load(st, a + i * es, ty.elt) for i in range(ty.n))
        if k == 's':
            a = addr if addr.__class__ is int else self.concretize(st, addr, 64)
            return tuple(self.load(st, a + o, t) for o, t in zip(ty.offs, ty.fields))
        n = ty.store
        o, off = self.locate(st, addr, n, False)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
        else:
            v = self.gather(o, off, n)
        return self.as_type(v, ty)

    def as_type(self, v, ty):
        if v is UNDEF:
            return v
        c = v.__class__
        k = ty.k
        if k == 'i' or k == 'p':
            if c is int:
                return v & ((1 << ty.w) - 1) if ty.w < 8 * ty.store else v
            if c is tuple:     # unconverted concatenation of cells
                return v
            if isinstance(v, z3.BitVecRef):
                if ty.w < 8 * ty.store:
                    if ty.w == 1:
                        return self.sb(z3.Extract(0, 0, v) == 1)
                    return z3.simplify(z3.Extract(ty.w - 1, 0, v))
                return v
            if isinstance(v, z3.BoolRef):
                return v
            return self.bits_of(v, ty.w)
        if k == 'f':
            if c is float or isinstance(v, (Rat, Poison, z3.FPRef)):
                return v
            if c is int:
                return self.fconst(bitsf(v, ty.w), ty.w)
            if isinstance(v, z3.BitVecRef):
                if self.real:
                    r = self.bvreal.get(('bits', v.get_id()))
                    if r is not None:
                        return r
                    raise Unsupported('bit pattern reinterpreted as real')
                return z3.fpBVToFP(v, F32 if ty.w == 32 else F64)
            if c is tuple:
                bv = self.tuple_bv(v)
                return self.as_type(bv, ty)
        raise Unsupported('load of %r as %r' % (c, ty))

    def tuple_bv(self, parts):
        out = []
        allint = True
        for sz, v in parts:
            if v.__class__ is int:
                out.append((sz, v))
            else:
                allint = False
                out.append((sz, self.bits_of(v, sz * 8)))
        if allint:
            r = 0
            sh = 0
            for sz, v in out:
                r |= v << sh
                sh += sz * 8
            return r
        bs = [z3.BitVecVal(v, sz * 8) if v.__class__ is int else v for sz, v in reversed(out)]
        return bs[0] if len(bs) == 1 else z3.Concat(*bs)

    def norm_int(self, v):
        """value of integer type -> int / BitVec (collapses cell tuples)"""
        if v.__class__ is tuple:
            return self.tuple_bv(v)
        return v

    def bits_of(self, v, w):
        c = v.__class__
        if c is int or isinstance(v, z3.BitVecRef):
            return v
        if c is float:
            return fbits(v, w)
        if isinstance(v, z3.FPRef):
            return z3.fpToIEEEBV(v)
        if isinstance(v, Rat):
            if v.is_const():
                x = float(v.value())
                if Fraction(x) == v.value():
                    return fbits(x, w)
            b = z3.BitVec('realbits!%d' % id(v), w)
            self.keep.append((b, v))
            self.bvreal[('bits', b.get_id())] = v
            return b
        if v is UNDEF:
            raise UBError('use of uninitialised bits')
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        raise Unsupported('bits of %r' % c)

    def slice_val(self, sz, v, a, n):
        """bytes [a, a+n) of a cell value of sz bytes"""
        if a == 0 and n == sz:
            return v
        if v is UNDEF:
            return UNDEF
        if v.__class__ is int:
            return (v >> (8 * a)) & ((1 << (8 * n)) - 1)
        if v.__class__ is tuple:
            out = []
            p = 0
            for s, x in v:
                lo = max(a, p)
                hi = min(a + n, p + s)
                if lo < hi:
                    out.append((hi - lo, self.slice_val(s, x, lo - p, hi - lo)))
                p += s
            return out[0][1] if len(out) == 1 else tuple(out)
        b = self.bits_of(v, sz * 8)
        if b.__class__ is int:
            return (b >> (8 * a)) & ((1 << (8 * n)) - 1)
        return z3.simplify(z3.Extract(8 * (a + n) - 1, 8 * a, b))

    def gather(self, o, off, n):
        parts = []
        p = off
        end = off + n
        while p < end:
            c = o.cells.get(p)
            if c is not None:
                take = min(c[0], end - p)
                parts.append((take, self.slice_val(c[0], c[1], 0, take)))
                p += take
                continue
            found = None
            for q in range(max(0, p - 15), p):
                c = o.cells.get(q)
                if c is not None and q + c[0] > p:
                    found = (q, c)
            if found:
                q, c = found
                take = min(q + c[0], end) - p
                parts.append((take, self.slice_val(c[0], c[1], p - q, take)))
                p += take
            else:
                return UNDEF
        if any(v is UNDEF for _, v in parts):
            return UNDEF
        if len(parts) == 1:
            return parts[0][1]
        if all(v.__class__ is int for _, v in parts):
            return self.tuple_bv(parts)
        flat = []
        for s, v in parts:
            if v.__class__ is tuple:
                flat.extend(v)
            else:
                flat.append((s, v))
        return tuple(flat)

    def raw_store(self, o, off, n, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        # remove / split overlapping cells
        for q in range(max(0, off - 15), off + n):
            c = cells.get(q)
            if c is None:
                continue
            e = q + c[0]
            if e <= off:
                continue
            del cells[q]
            if q < off:
                cells[q] = (off - q, self.slice_val(c[0], c[1], 0, off - q))
            if e > off + n:
                cells[off + n] = (e - off - n, self.slice_val(c[0], c[1], off + n - q, e - off - n))
        if v is UNDEF:
            return
        if v.__class__ is tuple:
            p = off
            for s, x in v:
                cells[p] = (s, x)
                p += s
        else:
            cells[off] = (n, v)

    def store(self, st, addr, ty, v):
        k = ty.k
        if k in ('v', 'a'):
            a = addr if addr.__class__ is int else self.concretize(st, addr, 64)
            es = ty.elt.store if k == 'v' else ty.elt.size
            if v is UNDEF:
                return
            for i in range(ty.n):
                self.store(st, a + i * es, ty.elt, v[i])
            return
        if k == 's':
            a = addr if addr.__class__ is int else self.concretize(st, addr, 64)
            if v is UNDEF:
                return
            for x, o, t in zip(v, ty.offs, ty.fields):
                self.store(st, a + o, t, x)
            return
        n = ty.store
        if isinstance(v, z3.BoolRef):
            v = z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
        elif k == 'i' and ty.w < 8 * n and v.__class__ is not int and v is not UNDEF:
            v = z3.ZeroExt(8 * n - ty.w, v)
        o, off = self.locate(st, addr, n, True)
        self.raw_store(o, off, n, v)

    def copy_mem(self, st, dst, src, n):
        if n == 0:
            return
        so, soff = self.locate(st, src, n, False)
        parts = []
        p = soff
        end = soff + n
        cells = so.cells
        while p < end:
            c = cells.get(p)
            if c is not None and p + c[0] <= end:
                parts.append((p - soff, c[0], c[1]))
                p += c[0]
                continue
            # partial or missing: bytewise
            v = self.gather(so, p, 1)
            parts.append((p - soff, 1, v))
            p += 1
        do, doff = self.locate(st, dst, n, True)
        for d, s, v in parts:
            self.raw_store(do, doff + d, s, v)

    def fill_mem(self, st, dst, byte, n):
        if n == 0:
            return
        o, off = self.locate(st, dst, n, True)
        if byte.__class__ is not int:
            for p in range(off, off + n):
                self.raw_store(o, p, 1, byte)
            return
        p = off
        end = off + n
        while p < end:
            s = 8 if p % 8 == 0 and p + 8 <= end else 4 if p % 4 == 0 and p + 4 <= end else 1
            s = min(s, 4) if s >= 4 else 1
            v = int.from_bytes(bytes([byte]) * s, 'little')
            self.raw_store(o, p, s, v)
            p += s

    # ---------------------------------------------------------------- constants, globals
    def fconst(self, x, w):
        if self.real:
            if x != x or x in (float('inf'), float('-inf')):
                return Poison('constant %r' % x)
            return Rat.const(Fraction(x))
        return x

    def func_addr(self, name):
        a = self.faddr.get(name)
        if a is None:
            a = (0x7000000 + len(self.faddr)) << 32
            self.faddr[name] = a
            self.faddr_inv[a] = name
        return a

    def glob_addr(self, st, name):
        a = st.gaddr.get(name)
        if a is not None:
            return a
        t, init, const = self.m.initializer(name)
        a = self.new_obj(st, max(t.size, 8) if init is None else t.size, 'global', name, False)
        st.gaddr[name] = a
        o = st.mem[a >> 32]
        if init is not None:
            self.init_const(st, o, 0, t, init)
        o.const = const
        return a

    def init_const(self, st, o, off, t, d):
        k = d[0]
        if k == 'zero':
            for p in range(off, off + d[1].size, 1 if d[1].size % 4 else 4):
                o.cells[p] = (1 if d[1].size % 4 else 4, 0)
        elif k == 'agg':
            ty = d[1]
            for i, e in enumerate(d[2]):
                if ty.k == 's':
                    self.init_const(st, o, off + ty.offs[i], ty.fields[i], e)
                else:
                    es = ty.elt.size if ty.k == 'a' else ty.elt.store
                    self.init_const(st, o, off + i * es, ty.elt, e)
        elif k == 'undef':
            pass
        else:
            v = self.cval(st, d)
            o.cells[off] = (t.store, v)

    def cval(self, st, d):
        k = d[0]
        if k == 'int':
            return d[1]
        if k == 'fp':
            return self.fconst(d[1], d[2])
        if k == 'undef':
            return self.undef_of(d[1])
        if k == 'zero':
            return self.zero_of(d[1])
        if k == 'func':
            return self.func_addr(d[1])
        if k == 'glob':
            return self.glob_addr(st, d[1])
        if k == 'agg':
            return tuple(self.cval(st, e) for e in d[2])
        if k == 'expr':
            op = d[1]
            if op == 'gep':
                base = self.cval(st, d[2][0])
                idx = [(self.cval(st, e), e[2] if e[0] == 'int' else 64) for e in d[2][1:]]
                return self.gep(st, base, d[3], idx)
            vs = [self.cval(st, e) for e in d[2]]
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return vs[0]
            if op == 'sub':
                return (vs[0] - vs[1]) & M64
            if op == 'add':
                return (vs[0] + vs[1]) & M64
            if op == 'trunc':
                return vs[0] & ((1 << d[4].w) - 1)
            raise Unsupported('constant expression %s' % op)
        return UNDEF

    def undef_of(self, t):
        if t.k in ('v', 'a'):
            return tuple(self.undef_of(t.elt) for _ in range(t.n))
        if t.k == 's':
            return tuple(self.undef_of(f) for f in t.fields)
        return UNDEF

    def zero_of(self, t):
        if t.k in ('v', 'a'):
            return tuple(self.zero_of(t.elt) for _ in range(t.n))
        if t.k == 's':
            return tuple(self.zero_of(f) for f in t.fields)
        if t.k == 'f':
            return self.fconst(0.0, t.w)
        return 0

    def gep(self, st, base, ty, idx):
        off = 0
        first = True
        sym = None
        cur = ty
        for v, w in idx:
            if first:
                sc = cur.size
                first = False
            elif cur.k == 's':
                off += cur.offs[v]
                cur = cur.fields[v]
                continue
            elif cur.k == 'a':
                cur = cur.elt
                sc = cur.size
            elif cur.k == 'v':
                cur = cur.elt
                sc = cur.store
            else:
                raise Unsupported('gep into %r' % cur)
            if v.__class__ is int:
                off += sgn(v, w) * sc
            elif v is UNDEF:
                raise UBError('uninitialised index')
            else:
                v = self.norm_int(v)
                if v.__class__ is int:
                    off += sgn(v, w) * sc
                    continue
                v = self.concretize(st, v, w)
                off += sgn(v, w) * sc
        base = self.norm_int(base)
        if base.__class__ is not int:
            if base is UNDEF:
                raise UBError('uninitialised pointer')
            base = self.concretize(st, base, 64)
        return (base + off) & M64

    # ---------------------------------------------------------------- solver
    def _sync(self, pc):
        if self._solver is None:
            self._solver = z3.Solver()
            self._solver.set('timeout', self.feas_ms)
            self._stack = []
        i = 0
        st = self._stack
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        k = len(st) - i
        if k:
            self._solver.pop(k)
            del st[i:]
        for c in pc[i:]:
            self._solver.push()
            self._solver.add(c)
            st.append(c)

    def check(self, pc, *extra):
        t = time.time()
        self._sync(pc)
        r = self._solver.check(*extra)
        self.nfeas += 1
        self.feas_time += time.time() - t
        return r

    def sb(self, c):
        """simplify Bool; python 0/1 if constant"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        return c

    def bdecide(self, st, cond):
        """decide a z3 Bool: returns 0/1 for this path, forks the other side"""
        f = st.forced
        if f:
            kind, v, already = f.pop(0)
            st.cur.append((kind, v, True))
            if not already:
                st.pc.append(cond if v else z3.Not(cond))
            return v
        v = self._bdecide(st, cond)
        if v is None:
            self.fork(st, ('b', 0, False))
            st.pc.append(self.sb(cond))
            v = 1
        st.cur.append(('b', v, True))
        return v

    def _bdecide(self, st, cond):
        cond = self.sb(cond)
        if cond.__class__ is int:
            return cond
        neg = z3.Not(cond)
        cid = cond.get_id()
        nid = z3.simplify(neg).get_id()
        for p in st.pc:
            i = p.get_id()
            if i == cid:
                return 1
            if i == nid:
                return 0
            if z3.is_not(p) and p.arg(0).get_id() == cid:
                return 0
        if self.feas == 'lazy':
            return None
        if self.check(st.pc, cond) == z3.unsat:
            return 0
        if self.check(st.pc, neg) == z3.unsat:
            return 1
        return None

    def fork(self, st, item):
        if self.nofork:
            raise MergeAbort()
        alt = st.copy()
        alt.forced = list(st.cur) + [item]
        self.work.append(alt)

    def concretize(self, st, v, w):
        if v.__class__ is tuple:
            v = self.tuple_bv(v)
        if v.__class__ is int:
            return v
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        for _ in range(4096):
            f = st.forced
            if f:
                kind, x, already = f.pop(0)
                st.cur.append((kind, x, True))
                if kind == 'eq':
                    if not already:
                        st.pc.append(v == x)
                    return x
                if not already:
                    st.pc.append(v != x)
                continue
            r = self.check(st.pc)
            if r != z3.sat:
                if r == z3.unsat:
                    raise PathEnd('infeasible')
                raise Unsupported('cannot concretise symbolic address')
            x = self._solver.model().eval(v, model_completion=True).as_long()
            if self.check(st.pc, v != x) != z3.unsat:
                self.fork(st, ('ne', x, False))
            st.pc.append(v == x)
            st.cur.append(('eq', x, True))
            return x
        raise Unsupported('concretisation did not converge')

    # ---- real conditions
    def zvar(self, i):
        return z3.Real(R.POOL.names[i])

    def pz3(self, p):
        terms = []
        for m, c in p.items():
            fs = []
            for i, e in R.mon_items(m):
                x = self.zvar(i)
                fs.extend([x] * e)
            c = z3.RealVal(str(c)) if isinstance(c, Fraction) else z3.RealVal(c)
            t = c
            if fs:
                t = fs[0] if len(fs) == 1 else z3.Product(*fs)
                if not (z3.is_rational_value(c) and c.as_fraction() == 1):
                    t = c * t
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def atom_z3(self, a):
        op, p = a
        e = self.pz3(p)
        return {'==': e == 0, '!=': e != 0, '<': e < 0, '<=': e <= 0, '>': e > 0, '>=': e >= 0}[op]

    NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}

    def real_constraints(self, st):
        cs = [self.atom_z3(a) for a in st.rc]
        for s, X in R.POOL.sqrt.items():
            v = self.zvar(s)
            n = self.pz3(X.num)
            d = z3.RealVal(1)
            for f, e in X.den.items():
                for _ in range(e):
                    d = d * self.pz3(f.p)
            cs.append(v >= 0)
            cs.append(v * v * d == n)
        for v, e in st.sub:
            n = self.pz3(e.num)
            d = z3.RealVal(1)
            for f, k in e.den.items():
                for _ in range(k):
                    d = d * self.pz3(f.p)
            cs.append(self.zvar(v) * d == n)
        return cs + list(st.pc)

    def known(self, st, p):
        """(nonzero?, sign) facts by normal form: p is a product of known-nonzero atoms"""
        prim, k = R.pprim(p)
        if R.pis_const(prim):
            return True
        f = R.freeze(prim)
        if f in st.nz:
            return True
        if len(prim) == 1:
            (m, c), = prim.items()
            return all(R.freeze({1 << (R.BITS * i): 1}) in st.nz for i, e in R.mon_items(m))
        # product of known nonzero factors?
        q = prim
        for g in st.nz:
            if len(g.p) > len(q) and len(g.p) > 1:
                continue
            while True:
                t = R.pdivexact(q, g.p)
                if t is None or t == q:
                    break
                q = t
                if R.pis_const(q):
                    return True
        return False

    def simple_real(self, st):
        return not R.POOL.sqrt and not st.pc and all(a[0] in ('!=',) for a in st.rc)

    def add_atom(self, st, op, p):
        """add atom; returns False if it makes the path infeasible by normal form"""
        if op == '==':
            # solve for a variable that occurs linearly with a nonzero coefficient
            best = None
            if not R.POOL.sqrt:
                for v in sorted(R.pvars(p), reverse=True):
                    if v in self.derived:
                        continue
                    co = R.pcoeffs(p, v)
                    if max(co) != 1:
                        continue
                    c1 = co[1]
                    if R.pis_const(c1):
                        best = (v, co, 0)
                        break
                    if best is None and self.known(st, c1):
                        best = (v, co, 1)
            if best:
                v, co, _ = best
                e = R.rdiv(Rat({m: -c for m, c in co.get(0, {}).items()}, None), Rat(co[1], None))
                e = Rat(e.num, e.den)
                st.sub.append((v, e))
                # renormalise disequalities and other atoms
                nrc = []
                nz = set()
                for o2, p2 in st.rc:
                    if R._has(p2, v):
                        q = R.psubs(p2, v, e)
                        pp = q.num
                        if o2 not in ('==', '!='):
                            for f, k in q.den.items():
                                if k % 2:
                                    pp = R.pmul(pp, f.p)
                    else:
                        pp = p2
                    if R.pis_const(pp):
                        c = pp.get(0, 0)
                        if not {'==': c == 0, '!=': c != 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[o2]:
                            return False
                        continue
                    nrc.append((o2, pp))
                    if o2 in ('!=', '<', '>'):
                        self.note_nz(nz, pp)
                st.rc = nrc
                st.nz = nz
                return True
            st.rc.append((op, p))
            return True
        st.rc.append((op, p))
        if op in ('!=', '<', '>'):
            self.note_nz(st.nz, p)
        return True

    def note_nz(self, nz, p):
        prim, k = R.pprim(p)
        if R.pis_const(prim):
            return
        if len(prim) == 1:
            (m, c), = prim.items()
            for i, e in R.mon_items(m):
                nz.add(R.freeze({1 << (R.BITS * i): 1}))
            return
        nz.add(R.freeze(prim))

    def rnorm(self, st, r):
        if st.sub:
            q = R.rsubs(r, st.sub)
            if q is None:
                raise UBError('denominator vanished under path condition')
            return q
        return r

    def rdecide(self, st, op, r):
        """decide (r op 0) for a Rat r, forking if both sides are possible"""
        f = st.forced
        if f:
            kind, v, already = f.pop(0)
            st.cur.append((kind, v, True))
            if not already:
                o, p = v[1], v[2]
                if not self.add_atom(st, o, p):
                    raise PathEnd('infeasible')
            return v[0]
        v, op, p = self._rdecide(st, op, r)
        if v is None:
            self.fork(st, ('r', (0, self.NEG[op], p), False))
            st.cur.append(('r', (1, op, p), True))
            if not self.add_atom(st, op, p):
                raise PathEnd('infeasible')
            return 1
        st.cur.append(('r', (v, op, p), True))
        return v

    def _rdecide(self, st, op, r):
        r = self.rnorm(st, r)
        if r.is_const():
            c = r.value()
            return holds(op, c), op, None
        p = r.num
        if op not in ('==', '!='):
            for f_, e in r.den.items():
                if e % 2:
                    p = R.pmul(p, f_.p)
        p, k = R.pprim(p)
        if k < 0 and op not in ('==', '!='):
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
        if op in ('==', '!=') and self.known(st, p):
            return int(op == '!='), op, p
        # syntactically known atom
        for o2, p2 in st.rc:
            if p2 == p:
                if o2 == op or (o2 in '<>' and op == o2 + '='):
                    return 1, op, p
                if o2 == self.NEG[op] or (o2 == '<' and op == '>') or (o2 == '>' and op == '<'):
                    return 0, op, p
        nop = self.NEG[op]
        t_ok = f_ok = True
        if self.simple_real(st) and op in ('==', '!='):
            # only disequalities so far and p is not identically zero: the '!=' side is feasible
            eq_alt = st.copy()
            bad = not self.add_atom(eq_alt, '==', p)
            if not bad and any(a[0] == '==' for a in eq_alt.rc):
                bad = self.rfeasible(eq_alt) is False
            if bad:
                if op == '==':
                    t_ok = False
                else:
                    f_ok = False
        else:
            t_ok = self.rfeasible_with(st, op, p)
            f_ok = True if not t_ok else self.rfeasible_with(st, nop, p)
        if t_ok and f_ok:
            return None, op, p
        return int(t_ok), op, p

    def rfeasible_with(self, st, op, p):
        t = st.copy()
        if not self.add_atom(t, op, p):
            return False
        return self.rfeasible(t) is not False

    def rfeasible(self, st):
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', self.feas_ms)
        s.add(*self.real_constraints(st))
        r = s.check()
        self.nfeas += 1
        self.feas_time += time.time() - t0
        if r == z3.unsat:
            return False
        return True

    # ---------------------------------------------------------------- fp ops
    def zf(self, v, w):
        if v.__class__ is float:
            return z3.FPVal(v, F32 if w == 32 else F64)
        return v

    def track(self, st, r):
        if self.exact_bound is not None and st.exact:
            if r.den or any(c.__class__ is not int for c in r.num.values()):
                st.exact = False
            else:
                b = R.pabs_bound(r.num, self.exact_bound)
                if b > self.exact_max:
                    self.exact_max = b
                if b > ((1 << 53) if self.dbl else (1 << 24)):
                    st.exact = False
        return r

    def fbin(self, st, op, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a.__class__ is tuple and not self.real:
            pass
        if self.real:
            if isinstance(a, Poison):
                return a
            if isinstance(b, Poison):
                return b
            if op == 'fadd':
                return self.track(st, a + b)
            if op == 'fsub':
                return self.track(st, a - b)
            if op == 'fmul':
                return self.track(st, a * b)
            if op == 'fdiv':
                if self.rdecide(st, '==', b):
                    st.events.append(('fdiv0', ''))
                    return Poison('division by zero')
                b = self.rnorm(st, b)
                return self.track(st, a / b)
            raise Unsupported(op)
        if a.__class__ is float and b.__class__ is float:
            try:
                if op == 'fadd':
                    r = a + b
                elif op == 'fsub':
                    r = a - b
                elif op == 'fmul':
                    r = a * b
                elif op == 'fdiv':
                    if b == 0:
                        if a == 0 or a != a:
                            r = float('nan')
                        else:
                            neg = (fbits(a, 64) ^ fbits(b, 64)) >> 63
                            r = float('-inf') if neg else float('inf')
                    else:
                        r = a / b
                else:
                    raise Unsupported(op)
            except OverflowError:
                raise Unsupported('fp overflow')
            return f32(r) if w == 32 else r
        x, y = self.zf(a, w), self.zf(b, w)
        # IEEE addition and multiplication commute: canonical operand order
        if op in ('fadd', 'fmul') and x.get_id() > y.get_id():
            x, y = y, x
        if op == 'fadd':
            return z3.fpAdd(RNE, x, y)
        if op == 'fsub':
            return z3.fpSub(RNE, x, y)
        if op == 'fmul':
            return z3.fpMul(RNE, x, y)
        if op == 'fdiv':
            return z3.fpDiv(RNE, x, y)
        raise Unsupported(op)

    def fcmp(self, st, pred, a, b, w):
        if pred == 0:
            return 0
        if pred == 15:
            return 1
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if self.real:
            if isinstance(a, Poison) or isinstance(b, Poison):
                raise PathEnd('poisoncmp', 'comparison with a non-finite value')
            if pred == 7:
                return 1
            if pred == 8:
                return 0
            op = {1: '==', 2: '>', 3: '>=', 4: '<', 5: '<=', 6: '!=', 9: '==', 10: '>', 11: '>=', 12: '<', 13: '<=', 14: '!='}[pred]
            return self.rdecide(st, op, a - b)
        if a.__class__ is float and b.__class__ is float:
            nan = a != a or b != b
            if pred == 7:
                return int(not nan)
            if pred == 8:
                return int(nan)
            r = {1: a == b, 2: a > b, 3: a >= b, 4: a < b, 5: a <= b, 6: a != b}[pred if pred < 7 else pred - 8]
            if pred < 7:
                return int(r and not nan)
            return int(r or nan)
        ia, ib = exact_int(a), exact_int(b)
        if ia is not None and ib is not None:
            # both sides are integers converted without rounding
            if pred in (7, 8):
                return int(pred == 7)
            base = pred if pred < 7 else pred - 8
            return self.sb({1: lambda: ia == ib, 2: lambda: ia > ib, 3: lambda: ia >= ib, 4: lambda: ia < ib, 5: lambda: ia <= ib, 6: lambda: ia != ib}[base]())
        x, y = self.zf(a, w), self.zf(b, w)
        if pred in (7, 8):
            u = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            return self.sb(z3.Not(u) if pred == 7 else u)
        base = pred if pred < 7 else pred - 8
        if base in (1, 6) and x.get_id() > y.get_id():
            x, y = y, x
        if pred < 7:
            c = {1: lambda: z3.fpEQ(x, y), 2: lambda: z3.fpLT(y, x), 3: lambda: z3.fpLEQ(y, x), 4: lambda: z3.fpLT(x, y),
                 5: lambda: z3.fpLEQ(x, y), 6: lambda: z3.And(z3.Not(z3.fpEQ(x, y)), z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsNaN(y)))}[base]()
        else:
            c = {1: lambda: z3.Or(z3.fpEQ(x, y), z3.fpIsNaN(x), z3.fpIsNaN(y)), 2: lambda: z3.Not(z3.fpLEQ(x, y)), 3: lambda: z3.Not(z3.fpLT(x, y)),
                 4: lambda: z3.Not(z3.fpLEQ(y, x)), 5: lambda: z3.Not(z3.fpLT(y, x)), 6: lambda: z3.Not(z3.fpEQ(x, y))}[base]()
        return self.sb(c)

    def fneg(self, st, a, w):
        if a is UNDEF or isinstance(a, Poison):
            return a
        if self.real:
            return -a
        if a.__class__ is float:
            return -a
        return z3.fpNeg(a)

    def fabs(self, st, a, w):
        if a is UNDEF or isinstance(a, Poison):
            return a
        if self.real:
            if a.is_const():
                return a if a.value() >= 0 else -a
            if self.rdecide(st, '<', a):
                return -a
            return a
        if a.__class__ is float:
            return abs(a)
        return z3.fpAbs(a)

    def fsqrt(self, st, a, w):
        if a is UNDEF or isinstance(a, Poison):
            return a
        if self.real:
            a = self.rnorm(st, a)
            if self.rdecide(st, '<', a):
                st.events.append(('sqrtneg', ''))
                return Poison('sqrt of a negative number')
            if a.is_zero():
                return a
            q = R.rsqrt_exact(a)
            if q is not None:
                q = Rat(q.num, q.den, ('sqrt', a.raw))
                if self.rdecide(st, '<', q):
                    return -q
                return self.track(st, q)
            key = (frozenset(a.num.items()), frozenset(a.den.items()))
            nm = self.sqrtmemo.get(key)
            if nm is None:
                nm = 'sqrt!%d' % len(R.POOL.sqrt)
                i = R.POOL.new(nm)
                R.POOL.sqrt[i] = Rat(a.num, a.den)
                self.derived[i] = lambda env, a=a: _fsqrt(a.eval(env))
                self.sqrtmemo[key] = nm
            st.exact = False
            r = Rat.var(nm)
            return Rat(r.num, r.den, ('sqrt', a.raw))
        if a.__class__ is float:
            if a < 0:
                return float('nan')
            r = a ** 0.5
            import math
            r = math.sqrt(a)
            return f32(r) if w == 32 else r
        return z3.fpSqrt(RNE, a)

    # ---------------------------------------------------------------- run
    def prepare(self, st, F):
        p = self.prepared.get(F.name)
        if p is None:
            self.m.decode(F)
            code = [(getattr(self, 'op_' + I.op, self.op_unsupported), I) for I in F.code]
            p = (code, F)
            self.prepared[F.name] = p
        return p

    def push_frame(self, st, F, args, retreg, inv):
        self.prepare(st, F)
        fr = Frame()
        fr.f = F
        regs = [None] * F.nregs
        for r, d in F.consts:
            k = d[0]
            regs[r] = d[1] if k == 'int' else self.cval(st, d)
        for i, a in enumerate(args):
            regs[i] = a
        fr.regs = regs
        fr.ip = 0
        fr.blk = 0
        fr.allocas = []
        fr.retreg = retreg
        fr.inv = inv
        fr.catching = None
        for i, size in F.byval:
            a = self.new_obj(st, size, 'stack', 'byval')
            st.owned.add(a >> 32)
            self.copy_mem(st, a, args[i], size)
            regs[i] = a
            fr.allocas.append(a >> 32)
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise PathEnd('limit', 'call depth')
        self.funcs_run.add(F.name)

    def initial(self):
        st = State()
        st.frames = []
        st.mem = {}
        st.owned = set()
        st.nobj = 16
        st.pc = []
        st.rc = []
        st.sub = []
        st.nz = set()
        st.pos = set()
        st.forced = None
        st.cur = []
        st.events = []
        st.steps = 0
        st.exc = None
        st.guard = 0
        st.gaddr = {}
        st.exact = True
        st.caught = []
        st.depth = 0
        st.noise = 0
        self.sqrtmemo = {}
        return st

    def run(self, st, fname, args):
        """explore all paths; yields Path"""
        F = self.m.funcs[fname]
        self.work = []
        self.push_frame(st, F, args, None, None)
        self.work.append(st)
        n = 0
        while self.work:
            if n >= self.max_paths or (self.deadline and time.time() > self.deadline):
                self.truncated = True
                return
            s = self.work.pop()
            s.cur = []
            try:
                self.exec_path(s)
                continue
            except PathEnd as e:
                if e.outcome == 'infeasible':
                    continue
                n += 1
                yield Path(s, e.outcome, e.detail)
            except UBError as e:
                n += 1
                yield Path(s, 'ub', str(e))
            except Unsupported as e:
                n += 1
                yield Path(s, 'unsupported', str(e))

    def exec_path(self, st):
        ms = self.max_steps
        dl = self.deadline
        cnt = 0
        try:
            while True:
                fr = st.frames[-1]
                code = self.prepared[fr.f.name][0]
                # inner loop while we stay in this frame
                regs = fr.regs
                while True:
                    h, I = code[fr.ip]
                    if st.cur:
                        st.cur = []
                    cnt += 1
                    if cnt & 4095 == 0:
                        st.steps += 4096
                        if st.steps > ms:
                            raise PathEnd('limit', 'instruction limit')
                        if dl and time.time() > dl:
                            raise PathEnd('timeout', 'time limit')
                    if h(st, fr, regs, I):
                        break
        finally:
            self.steps_done += cnt

    # each op returns True when the frame changed
    def op_unsupported(self, st, fr, r, I):
        raise Unsupported('instruction ' + I.op)

    def goto(self, st, fr, b):
        F = fr.f
        ph = F.phis[b]
        if ph:
            vals = [(i, fr.regs[inc[fr.blk]]) for i, inc in ph]
            for i, v in vals:
                fr.regs[i] = v
        fr.blk = b
        fr.ip = F.starts[b]

    def op_br(self, st, fr, r, I):
        x = I.x
        if len(x) == 1:
            self.goto(st, fr, x[0])
            return
        c = r[I.ops[0]]
        if c.__class__ is not int:
            if c is UNDEF:
                raise UBError('branch on uninitialised value')
            if self.merge and not st.forced and isinstance(c, z3.BoolRef) and self.try_merge(st, fr, I, c):
                return
            c = self.bdecide(st, c)
        self.goto(st, fr, x[0] if c & 1 else x[1])

    # ---- merging the two sides of a branch
    def postdom(self, F):
        p = self.pdoms.get(F.name)
        if p is not None:
            return p
        nb = len(F.starts)
        succ = []
        for b in range(nb):
            end = F.starts[b + 1] if b + 1 < nb else len(F.code)
            I = F.code[end - 1] if end > F.starts[b] else None
            if I is None:
                succ.append([])
            elif I.op == 'br':
                succ.append(list(I.x))
            elif I.op == 'switch':
                succ.append([I.x[0]] + [x for _, x in I.x[1]])
            elif I.op == 'invoke':
                succ.append([I.x[3]])
            else:
                succ.append([])
        term = [not s and F.code[(F.starts[b + 1] if b + 1 < nb else len(F.code)) - 1].op == 'ret' for b, s in enumerate(succ)]
        full = set(range(nb))
        pd = [{b} if term[b] else full for b in range(nb)]
        # blocks that never return do not constrain the post-dominators of the others
        live = {b for b in range(nb) if term[b]}
        ch = True
        while ch:
            ch = False
            for b in range(nb):
                if b not in live and any(s in live for s in succ[b]):
                    live.add(b)
                    ch = True
        ch = True
        while ch:
            ch = False
            for b in range(nb - 1, -1, -1):
                ss = [s for s in succ[b] if s in live]
                if term[b] or not ss:
                    continue
                n = set.intersection(*[pd[s] for s in ss]) | {b}
                if n != pd[b]:
                    pd[b] = n
                    ch = True
        ip = []
        for b in range(nb):
            c = [x for x in pd[b] if x != b] if b in live else []
            # the nearest one is post-dominated by all the others
            best = [x for x in c if all(y in pd[x] for y in c)]
            ip.append(best[0] if best else None)
        self.pdoms[F.name] = ip
        return ip

    def run_side(self, st, depth, target):
        n = 0
        while True:
            fr = st.frames[-1]
            if len(st.frames) == depth and fr.ip == target:
                return
            n += 1
            if n > 3000 or len(st.frames) < depth:
                raise MergeAbort()
            h, I = self.prepared[fr.f.name][0][fr.ip]
            st.cur = []
            h(st, fr, fr.regs, I)

    def try_merge(self, st, fr, I, c, zero=None, reg=None, again=True):
        """run both sides of this branch up to the block where they meet; True if they were merged into st.
        zero: (real mode) the polynomial whose vanishing is the condition; reg: register holding the condition (comparison not yet executed)"""
        site = (fr.f.name, fr.ip)
        if self.noworth.get(site, 0) >= 3 or self.nofork > 3:
            return False
        pd = self.postdom(fr.f)[fr.blk]
        if pd is None:
            return False
        depth = len(st.frames)
        target = fr.f.starts[pd]
        self.nofork += 1
        nf = self.nfeas
        try:
            sides = []
            for v in (1, 0):
                s = st.copy()
                s.cur = []
                if zero is None:
                    s.pc.append(c if v else z3.Not(c))
                npc, nrc = len(s.pc), len(s.rc)
                f2 = s.frames[-1]
                if reg is not None:
                    f2.regs[reg] = v
                    f2.ip += 1
                else:
                    self.goto(s, f2, I.x[0] if v else I.x[1])
                self.run_side(s, depth, target)
                if len(s.pc) != npc or len(s.rc) != nrc:
                    raise MergeAbort()
                sides.append(s)
            self.merge_states(st, sides[0], sides[1], c, zero, pd)
        except MergeRetry:
            if again:
                return self.try_merge(st, fr, I, c, zero, reg, False)
            return False
        except (MergeAbort, PathEnd, UBError, Unsupported):
            self.noworth[site] = self.noworth.get(site, 0) + 1
            return False
        finally:
            self.nofork -= 1
        self.merged += 1
        return True

    def try_merge_real(self, st, fr, I, z, eq):
        # side 1 of try_merge is 'condition register true'; merge_val takes the side where z may be non-zero
        return self.try_merge(st, fr, I, eq, zero=z, reg=I.id)

    def merge_states(self, st, a, b, c, zero, pd):
        if a.gaddr != b.gaddr:
            # globals first used inside the branch: create them before it, for the next attempt
            for name in list(a.gaddr) + list(b.gaddr):
                self.glob_addr(st, name)
            raise MergeRetry()
        if a.events != b.events or a.exc is not b.exc or a.guard != b.guard or a.caught != b.caught or a.depth != b.depth or a.noise != b.noise:
            raise MergeAbort()
        base = st.nobj
        for s in (a, b):
            for oid in s.mem:
                if oid > base and s.mem[oid].alive:
                    raise MergeAbort()
        new = {}
        for oid, o in st.mem.items():
            x, y = a.mem.get(oid), b.mem.get(oid)
            if x is y:
                if x is not o:
                    new[oid] = x
                continue
            if x is None or y is None or x.alive != y.alive:
                raise MergeAbort()
            z = x.clone()
            cuts = set()
            for k, cx in x.cells.items():
                cy = y.cells.get(k)
                if cy is None or cy[0] != cx[0]:
                    cuts.update((k, k + cx[0]))
                    if cy is not None:
                        cuts.add(k + cy[0])
                elif x.kind == 'stack' and (cx[1] is UNDEF or cy[1] is UNDEF):
                    z.cells[k] = (cx[0], UNDEF)
                elif cx[1] is not cy[1]:
                    z.cells[k] = (cx[0], self.merge_val(c, cx[1], cy[1], cx[0], zero))
            for k, cy in y.cells.items():
                if k not in x.cells:
                    cuts.update((k, k + cy[0]))
            cuts = sorted(cuts)
            for lo, hi in zip(cuts, cuts[1:]):
                v, w = self.gather(x, lo, hi - lo), self.gather(y, lo, hi - lo)
                if v is UNDEF and w is UNDEF:
                    continue
                if x.kind == 'stack' and (v is UNDEF or w is UNDEF):
                    v = UNDEF          # a local of one side only
                elif v is not w:
                    v = self.merge_val(c, v, w, hi - lo, zero)
                self.raw_store(z, lo, hi - lo, v)
            new[oid] = z
        fa, fb = a.frames[-1], b.frames[-1]
        ph = {i for i, _ in fa.f.phis[pd]}
        regs = fa.regs[:]
        for k, (v, w) in enumerate(zip(fa.regs, fb.regs)):
            if v is not w:
                try:
                    regs[k] = self.merge_val(c, v, w, None, zero)
                except MergeAbort:
                    if k in ph:
                        raise
                    regs[k] = UNDEF
        fr = st.frames[-1]
        fr.regs[:] = regs
        fr.blk = pd
        fr.ip = fr.f.starts[pd]
        for oid, o in new.items():
            st.mem[oid] = o
            st.owned.discard(oid)
        st.nobj = max(a.nobj, b.nobj)
        st.events = a.events
        st.steps = max(a.steps, b.steps)
        st.exact = a.exact and b.exact

    def merge_val(self, c, v, w, n, zero):
        if v.__class__ is w.__class__ and v.__class__ in (int, float) and v == w and (v.__class__ is int or fbits(v, 64) == fbits(w, 64)):
            return v
        if v is UNDEF or w is UNDEF or v.__class__ is tuple or w.__class__ is tuple:
            raise MergeAbort()
        if n in (4, 8):
            # raw bytes (zero initialisation) against a floating-point value
            if v.__class__ is int and (w.__class__ is float or isinstance(w, (Rat, z3.FPRef))):
                v = bitsf(v, 8 * n)
                v = Rat.const(Fraction(v)) if isinstance(w, Rat) else v
            elif w.__class__ is int and (v.__class__ is float or isinstance(v, (Rat, z3.FPRef))):
                w = bitsf(w, 8 * n)
                w = Rat.const(Fraction(w)) if isinstance(v, Rat) else w
        if zero is not None:
            # value w off the zero set; it may also stand for v on it when they agree there
            if isinstance(v, Rat) and isinstance(w, Rat) and not isinstance(v, Poison) and not isinstance(w, Poison):
                d = w - v
                if d.is_zero() or R.pdivexact(d.num, zero) is not None:
                    return w if c else v
            raise MergeAbort()
        if isinstance(v, z3.BitVecRef) and w.__class__ is int:
            w = z3.BitVecVal(w, v.size())
        elif isinstance(w, z3.BitVecRef) and v.__class__ is int:
            v = z3.BitVecVal(v, w.size())
        if isinstance(v, z3.ExprRef) and isinstance(w, z3.ExprRef):
            if v.get_id() == w.get_id():
                return v
            if v.sort() != w.sort():
                raise MergeAbort()
            if isinstance(v, z3.BitVecRef):
                # x == k ? v : w  is  w  when w agrees with v at x = k (and conversely)
                e = z3.simplify(c)
                n, y, x = (True, v, w) if z3.is_not(e) else (False, w, v)
                e = e.arg(0) if n else e
                if z3.is_eq(e) and isinstance(e.arg(0), z3.BitVecRef):
                    p, q = e.arg(0), e.arg(1)
                    if z3.is_bv_value(p):
                        p, q = q, p
                    if z3.is_bv_value(q) and z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        d = z3.simplify(z3.substitute(y - x, (p, q)), som=True)
                        if z3.is_bv_value(d) and d.as_long() == 0:
                            return y
            return z3.If(c, v, w)
        for x, y, sw in ((v, w, False), (w, v, True)):
            if isinstance(x, z3.ExprRef):
                if isinstance(x, z3.BoolRef):
                    if y.__class__ is not int or y not in (0, 1):
                        raise MergeAbort()
                    y = z3.BoolVal(bool(y))
                elif isinstance(x, z3.FPRef) and y.__class__ is float:
                    y = self.zf(y, 32 if x.sort() == F32 else 64)
                else:
                    raise MergeAbort()
                r = z3.If(c, y, x) if sw else z3.If(c, x, y)
                return self.sb(r) if isinstance(r, z3.BoolRef) else r
        if n is None or n == 8:
            if v.__class__ is float and w.__class__ is float and n == 8:
                return z3.If(c, self.zf(v, 64), self.zf(w, 64))
            raise MergeAbort()
        if v.__class__ is int and w.__class__ is int:
            return z3.If(c, z3.BitVecVal(v, 8 * n), z3.BitVecVal(w, 8 * n))
        if v.__class__ is float and w.__class__ is float:
            return z3.If(c, self.zf(v, 8 * n), self.zf(w, 8 * n))
        raise MergeAbort()

    def op_switch(self, st, fr, r, I):
        v = self.norm_int(r[I.ops[0]])
        if v is UNDEF:
            raise UBError('switch on uninitialised value')
        if v.__class__ is not int:
            v = self.concretize(st, v, I.x[2].w)
        for c, b in I.x[1]:
            if c == v:
                self.goto(st, fr, b)
                return
        self.goto(st, fr, I.x[0])

    def op_unreachable(self, st, fr, r, I):
        raise UBError('unreachable executed')

    def op_ret(self, st, fr, r, I):
        v = r[I.ops[0]] if I.ops else None
        for a in fr.allocas:
            self.wobj(st, a).alive = False
        st.frames.pop()
        if not st.frames:
            raise PathEnd('ret')
        c = st.frames[-1]
        if fr.retreg is not None:
            c.regs[fr.retreg] = v
        if fr.inv is not None:
            self.goto(st, c, fr.inv[0])
        return True

    def op_alloca(self, st, fr, r, I):
        n = r[I.ops[0]]
        a = self.new_obj(st, I.x.size * n, 'stack', fr.f.name)
        fr.allocas.append(a >> 32)
        r[I.id] = a
        fr.ip += 1

    def op_load(self, st, fr, r, I):
        r[I.id] = self.load(st, self.norm_int(r[I.ops[0]]), I.ty)
        fr.ip += 1

    def op_store(self, st, fr, r, I):
        self.store(st, self.norm_int(r[I.ops[1]]), I.x, r[I.ops[0]])
        fr.ip += 1

    def op_gep(self, st, fr, r, I):
        ty, its = I.x
        ops = I.ops
        if its and len(ops) >= 2:
            idx = [(r[o], t.w) for o, t in zip(ops[1:], its)]
        else:
            idx = []
        r[I.id] = self.gep(st, r[ops[0]], ty, idx)
        fr.ip += 1

    def ibin(self, op, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        a = self.norm_int(a)
        b = self.norm_int(b)
        M = (1 << w) - 1
        if a.__class__ is int and b.__class__ is int:
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & M if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w - 1)) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    raise UBError('integer division by zero')
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                if y == -1 and x == -(1 << (w - 1)):
                    raise UBError('signed division overflow')
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                if op == 'sdiv':
                    return q & M
                return (x - q * y) & M
            raise Unsupported(op)
        if w == 1:
            x = z3.BoolVal(bool(a)) if a.__class__ is int else a
            y = z3.BoolVal(bool(b)) if b.__class__ is int else b
            if op == 'and':
                return self.sb(z3.And(x, y))
            if op == 'or':
                return self.sb(z3.Or(x, y))
            if op in ('xor', 'add', 'sub'):
                return self.sb(z3.Xor(x, y))
            raise Unsupported('i1 ' + op)
        x = z3.BitVecVal(a, w) if a.__class__ is int else a
        y = z3.BitVecVal(b, w) if b.__class__ is int else b
        if isinstance(x, z3.BoolRef):
            x = z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(y, z3.BoolRef):
            y = z3.If(y, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if op == 'add':
            return x + y
        if op == 'sub':
            return x - y
        if op == 'mul':
            return x * y
        if op == 'and':
            return x & y
        if op == 'or':
            return x | y
        if op == 'xor':
            return x ^ y
        if op == 'shl':
            return x << y
        if op == 'lshr':
            return z3.LShR(x, y)
        if op == 'ashr':
            return x >> y
        if op == 'udiv':
            return z3.UDiv(x, y)
        if op == 'urem':
            return z3.URem(x, y)
        if op == 'sdiv':
            return x / y
        if op == 'srem':
            return z3.SRem(x, y)
        raise Unsupported(op)

    def _op_ibin(self, st, fr, r, I):
        a = r[I.ops[0]]
        b = r[I.ops[1]]
        op = I.op
        if I.ty.k == 'v':
            r[I.id] = tuple(self.ibin(op, x, y, I.ty.elt.w) for x, y in zip(a, b))
        else:
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                b = self.norm_int(b)
                if b is not UNDEF and b.__class__ is not int:
                    if self.bdecide(st, b == 0):
                        raise UBError('integer division by zero')
            r[I.id] = self.ibin(op, a, b, I.ty.w)
        fr.ip += 1

    op_add = op_sub = op_mul = op_udiv = op_sdiv = op_urem = op_srem = op_shl = op_lshr = op_ashr = op_and = op_or = op_xor = _op_ibin

    def _op_fbin(self, st, fr, r, I):
        a = r[I.ops[0]]
        b = r[I.ops[1]]
        if I.ty.k == 'v':
            r[I.id] = tuple(self.fbin(st, I.op, x, y, I.ty.elt.w) for x, y in zip(a, b))
        else:
            r[I.id] = self.fbin(st, I.op, a, b, I.ty.w)
        fr.ip += 1

    op_fadd = op_fsub = op_fmul = op_fdiv = op_frem = _op_fbin

    def op_fneg(self, st, fr, r, I):
        v = r[I.ops[0]]
        r[I.id] = tuple(self.fneg(st, x, 32) for x in v) if v.__class__ is tuple else self.fneg(st, v, I.ty.w)
        fr.ip += 1

    def icmp(self, p, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        a = self.norm_int(a)
        b = self.norm_int(b)
        if a.__class__ is int and b.__class__ is int:
            if p == 32:
                return int(a == b)
            if p == 33:
                return int(a != b)
            if p >= 38:
                a = sgn(a, w)
                b = sgn(b, w)
                p -= 4
            return int(a > b if p == 34 else a >= b if p == 35 else a < b if p == 36 else a <= b)
        if w == 1:
            x = z3.BoolVal(bool(a)) if a.__class__ is int else a
            y = z3.BoolVal(bool(b)) if b.__class__ is int else b
            if p == 32:
                return self.sb(x == y)
            if p == 33:
                return self.sb(x != y)
            raise Unsupported('i1 icmp')
        x = z3.BitVecVal(a, w) if a.__class__ is int else a
        y = z3.BitVecVal(b, w) if b.__class__ is int else b
        c = {32: lambda: x == y, 33: lambda: x != y, 34: lambda: z3.UGT(x, y), 35: lambda: z3.UGE(x, y), 36: lambda: z3.ULT(x, y),
             37: lambda: z3.ULE(x, y), 38: lambda: x > y, 39: lambda: x >= y, 40: lambda: x < y, 41: lambda: x <= y}[p]()
        return self.sb(c)

    def op_icmp(self, st, fr, r, I):
        a = r[I.ops[0]]
        b = r[I.ops[1]]
        p, t = I.x
        if t.k == 'v':
            r[I.id] = tuple(self.icmp(p, x, y, t.elt.w) for x, y in zip(a, b))
        else:
            r[I.id] = self.icmp(p, a, b, t.w)
        fr.ip += 1

    def op_fcmp(self, st, fr, r, I):
        a = r[I.ops[0]]
        b = r[I.ops[1]]
        p, t = I.x
        if t.k == 'v':
            raise Unsupported('vector fcmp')
        if self.merge and self.real and not st.forced and p in (1, 6, 9, 14) and isinstance(a, Rat) and isinstance(b, Rat):
            J = fr.f.code[fr.ip + 1]
            if J.op == 'br' and len(J.x) == 2 and J.ops[0] == I.id:
                d = self.rnorm(st, a - b)
                if not d.is_const() and not R.POOL.sqrt:
                    z, _ = R.pprim(d.num)
                    if self.try_merge_real(st, fr, I, z, p in (1, 9)):
                        return
        r[I.id] = self.fcmp(st, p, a, b, t.w)
        fr.ip += 1

    def op_select(self, st, fr, r, I):
        c, a, b = (r[o] for o in I.ops)
        if c is UNDEF:
            raise UBError('select on uninitialised value')
        if c.__class__ is int:
            r[I.id] = a if c & 1 else b
        else:
            if self.merge and not self.real and not st.forced and isinstance(c, z3.BoolRef):
                try:
                    t = I.ty
                    n = t.w // 8 if t.k in ('i', 'f') and t.w % 8 == 0 and not (t.k == 'i' and t.w == 64) else None
                    r[I.id] = self.merge_val(c, a, b, n, None)
                    fr.ip += 1
                    return
                except (MergeAbort, AttributeError):
                    pass
            r[I.id] = a if self.bdecide(st, c) else b
        fr.ip += 1

    def op_freeze(self, st, fr, r, I):
        r[I.id] = r[I.ops[0]]
        fr.ip += 1

    def op_trunc(self, st, fr, r, I):
        v = r[I.ops[0]]
        w = I.ty.w
        if v is not UNDEF:
            if v.__class__ is tuple:
                v = self.slice_val(I.x.store, v, 0, I.ty.store) if w % 8 == 0 else self.tuple_bv(v)
                v = self.norm_int(v) if v is not UNDEF else v
                if w % 8 == 0:
                    r[I.id] = v
                    fr.ip += 1
                    return
            if v.__class__ is int:
                v &= (1 << w) - 1
            elif w == 1:
                v = self.sb(z3.Extract(0, 0, v) == 1)
            else:
                v = z3.Extract(w - 1, 0, v)
        r[I.id] = v
        fr.ip += 1

    def op_zext(self, st, fr, r, I):
        v = self.norm_int(r[I.ops[0]])
        w = I.ty.w
        if v is not UNDEF and v.__class__ is not int:
            if isinstance(v, z3.BoolRef):
                v = z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            else:
                v = z3.ZeroExt(w - I.x.w, v)
        r[I.id] = v
        fr.ip += 1

    def op_sext(self, st, fr, r, I):
        v = self.norm_int(r[I.ops[0]])
        w = I.ty.w
        if v is not UNDEF:
            if v.__class__ is int:
                v = sgn(v, I.x.w) & ((1 << w) - 1)
            elif isinstance(v, z3.BoolRef):
                v = z3.If(v, z3.BitVecVal((1 << w) - 1, w), z3.BitVecVal(0, w))
            else:
                v = z3.SignExt(w - I.x.w, v)
        r[I.id] = v
        fr.ip += 1

    def op_ptrtoint(self, st, fr, r, I):
        v = r[I.ops[0]]
        r[I.id] = v if v.__class__ is not int else v & ((1 << I.ty.w) - 1)
        fr.ip += 1

    def op_inttoptr(self, st, fr, r, I):
        r[I.id] = r[I.ops[0]]
        fr.ip += 1

    def op_bitcast(self, st, fr, r, I):
        v = r[I.ops[0]]
        s, t = I.x, I.ty
        if s.k == t.k and s.k != 'v':
            r[I.id] = v
        elif v is UNDEF:
            r[I.id] = v
        else:
            # through a scratch object
            a = self.new_obj(st, max(s.size, t.size), 'stack', 'bitcast')
            self.store(st, a, s, v)
            r[I.id] = self.load(st, a, t)
            del st.mem[a >> 32]
        fr.ip += 1

    def op_fpext(self, st, fr, r, I):
        v = r[I.ops[0]]
        if not self.real and v is not UNDEF and v.__class__ is not float:
            v = z3.fpFPToFP(RNE, v, F64)
        r[I.id] = v
        fr.ip += 1

    def op_fptrunc(self, st, fr, r, I):
        v = r[I.ops[0]]
        if v is UNDEF:
            pass
        elif self.real:
            if self.dbl and self.round_const and not isinstance(v, Poison) and v.is_const():
                v = v * Rat.const(1 + _rerr(v.value()))
            elif self.dbl and not isinstance(v, Poison) and not v.is_const():
                # precision loss inside a double computation: relative error up to 2^-24
                nm = 'rnd!%d' % len(R.POOL.names)
                d = Rat.var(nm)
                i = R.POOL.index[nm]
                self.derived[i] = lambda env, v=v: _rerr(v.eval(env))
                eps = Fraction(1, 1 << 24)
                st.rc.append(('<=', (d - Rat.const(eps)).num))
                st.rc.append(('>=', (d + Rat.const(eps)).num))
                st.noise += 1
                v = v * (Rat.const(1) + d)
        elif v.__class__ is float:
            v = f32(v)
        else:
            v = z3.fpFPToFP(RNE, v, F32)
        r[I.id] = v
        fr.ip += 1

    def _itof(self, st, fr, r, I, signed):
        v = self.norm_int(r[I.ops[0]])
        w = I.x.w
        if v is UNDEF:
            r[I.id] = v
        elif v.__class__ is int:
            x = sgn(v, w) if signed else v
            if self.real:
                r[I.id] = Rat.const(x)
            else:
                fl = float(x)
                if I.ty.w == 32:
                    fl = int_to_f32(x)
                r[I.id] = fl
        else:
            if isinstance(v, z3.BoolRef):
                v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            if self.real:
                q = self.bvreal.get(v.get_id())
                if q is None:
                    nm = 'itof!%d' % len(R.POOL.names)
                    q = Rat.var(nm)
                    i = R.POOL.index[nm]
                    iv = z3.BV2Int(v, is_signed=signed)
                    st.pc.append(self.zvar(i) == z3.ToReal(iv))
                    self.derived[i] = None
                    self.bvreal[v.get_id()] = q
                    self.keep.append(v)
                r[I.id] = q
            else:
                s = F32 if I.ty.w == 32 else F64
                r[I.id] = z3.fpSignedToFP(RNE, v, s) if signed else z3.fpUnsignedToFP(RNE, v, s)
        fr.ip += 1

    def op_sitofp(self, st, fr, r, I):
        self._itof(st, fr, r, I, True)

    def op_uitofp(self, st, fr, r, I):
        self._itof(st, fr, r, I, False)

    def _ftoi(self, st, fr, r, I, signed):
        v = r[I.ops[0]]
        w = I.ty.w
        if v is UNDEF:
            r[I.id] = v
        elif self.real:
            if isinstance(v, Poison):
                raise UBError('conversion of a non-finite value to integer')
            v = self.rnorm(st, v)
            if v.is_const():
                x = v.value()
                q = abs(x.numerator) // x.denominator
                r[I.id] = (-q if x < 0 else q) & ((1 << w) - 1)
            else:
                neg = self.rdecide(st, '<', v)
                nm = 'ftoi!%d' % len(R.POOL.names)
                t = Rat.var(nm)
                i = R.POOL.index[nm]
                self.derived[i] = lambda env, v=v: Fraction(int(v.eval(env)))
                tz = self.zvar(i)
                st.pc.append(z3.IsInt(tz))
                d = v - t
                if neg:
                    self.rel_atom(st, '<=', d)
                    self.rel_atom(st, '>', d + Rat.const(1))
                else:
                    self.rel_atom(st, '>=', d)
                    self.rel_atom(st, '<', d - Rat.const(1))
                b = z3.BitVec(nm + 'b', w)
                self.keep.append(b)
                self.bvreal[b.get_id()] = t
                r[I.id] = b
        elif v.__class__ is float:
            if v != v or abs(v) >= 2.0 ** w:
                raise UBError('float to int conversion out of range')
            r[I.id] = int(v) & ((1 << w) - 1)
        else:
            x = exact_int(v)
            if x is not None:
                x = z3.simplify(z3.Extract(w - 1, 0, z3.SignExt(64, x)))
                r[I.id] = x.as_long() if z3.is_bv_value(x) else x
                fr.ip += 1
                return
            s = z3.BitVecSort(w)
            r[I.id] = z3.fpToSBV(z3.RTZ(), v, s) if signed else z3.fpToUBV(z3.RTZ(), v, s)
        fr.ip += 1

    def rel_atom(self, st, op, r):
        p = r.num
        for f, e in r.den.items():
            if e % 2:
                p = R.pmul(p, f.p)
        st.rc.append((op, p))

    def op_fptosi(self, st, fr, r, I):
        self._ftoi(st, fr, r, I, True)

    def op_fptoui(self, st, fr, r, I):
        self._ftoi(st, fr, r, I, False)

    def op_extractvalue(self, st, fr, r, I):
        v = r[I.ops[0]]
        for i in I.x:
            v = v[i]
        r[I.id] = v
        fr.ip += 1

    def op_insertvalue(self, st, fr, r, I):
        def ins(a, idx, v):
            if not idx:
                return v
            l = list(a)
            l[idx[0]] = ins(l[idx[0]], idx[1:], v)
            return tuple(l)
        r[I.id] = ins(r[I.ops[0]], I.x, r[I.ops[1]])
        fr.ip += 1

    def op_extractelement(self, st, fr, r, I):
        v = r[I.ops[0]]
        i = r[I.ops[1]]
        r[I.id] = UNDEF if v is UNDEF else v[i]
        fr.ip += 1

    def op_insertelement(self, st, fr, r, I):
        v = list(r[I.ops[0]])
        v[r[I.ops[2]]] = r[I.ops[1]]
        r[I.id] = tuple(v)
        fr.ip += 1

    def op_shufflevector(self, st, fr, r, I):
        a = r[I.ops[0]]
        b = r[I.ops[1]]
        l = list(a) + list(b)
        r[I.id] = tuple(UNDEF if k < 0 else l[k] for k in I.x)
        fr.ip += 1

    def op_fence(self, st, fr, r, I):
        fr.ip += 1

    # ---------------------------------------------------------------- calls and exceptions
    def op_call(self, st, fr, r, I):
        x = I.x
        name = x[0]
        if name is None:
            a = r[x[1]]
            name = self.faddr_inv.get(a)
            if name is None:
                raise UBError('call through invalid function pointer')
        args = [r[o] for o in I.ops]
        inv = (x[3], x[4]) if I.op == 'invoke' else None
        c = self.contracts.get(name)
        if c is not None:
            v = c(self, st, args, I)
            self.finish_call(st, fr, I, v, inv)
            return False
        F = self.m.funcs.get(name)
        if F is not None and not F.decl and name not in self.stubs:
            rr = I.id if I.ty.k != 'void' else None
            if inv is None:
                fr.ip += 1
            self.push_frame(st, F, args, rr, inv)
            return True
        h = self.stubs.get(name)
        if h is None:
            for pre, hh in PREFIX_STUBS:
                if name.startswith(pre):
                    h = hh
                    break
        if h is None:
            raise Unsupported('external function ' + name)
        v = h(self, st, args, I, name)
        if v is THROWN:
            return True
        self.finish_call(st, fr, I, v, inv)

    def finish_call(self, st, fr, I, v, inv):
        if I.ty.k != 'void':
            fr.regs[I.id] = v
        if inv is not None:
            self.goto(st, fr, inv[0])
        else:
            fr.ip += 1

    op_invoke = op_call

    def throw(self, st, tname, ptr):
        """unwind"""
        st.exc = (tname, ptr)
        # the frame executing the throwing call: is that call an invoke?
        first = True
        while st.frames:
            fr = st.frames[-1]
            if first:
                h, I = self.prepared[fr.f.name][0][fr.ip]
                inv = (I.x[3], I.x[4]) if I.op == 'invoke' else None
                first = False
            if inv is not None and inv[1] is not None:
                blk = inv[1]
                if self.lands(st, fr, blk, tname):
                    self.goto(st, fr, blk)
                    return
            for a in fr.allocas:
                self.wobj(st, a).alive = False
            st.frames.pop()
            inv = fr.inv
        raise PathEnd('throw', tname)

    def lands(self, st, fr, blk, tname):
        h, I = self.prepared[fr.f.name][0][fr.f.starts[blk]]
        if I.op != 'landingpad':
            return True
        cleanup, clauses = I.x
        if cleanup:
            return True
        for c in clauses:
            v = fr.regs[c]
            if v == 0 or self.catches(st, v, tname):
                return True
        return False

    def catches(self, st, tiaddr, tname):
        n = None
        for k, a in st.gaddr.items():
            if a == tiaddr:
                n = k
        if n is None:
            return False
        t = tname
        while t:
            if t == n:
                return True
            t = BASES.get(t)
        return False

    def op_landingpad(self, st, fr, r, I):
        tname, ptr = st.exc
        sel = 0
        for c in I.x[1]:
            v = r[c]
            if v == 0 or self.catches(st, v, tname):
                sel = self.typeid(v)
                break
        r[I.id] = (ptr, sel)
        fr.ip += 1

    def typeid(self, addr):
        return 1 if addr == 0 else ((addr >> 32) & 0x7fffffff) + 2

    def op_resume(self, st, fr, r, I):
        tname, ptr = st.exc
        for a in fr.allocas:
            self.wobj(st, a).alive = False
        st.frames.pop()
        inv = fr.inv
        while st.frames:
            f2 = st.frames[-1]
            if inv is not None and inv[1] is not None and self.lands(st, f2, inv[1], tname):
                self.goto(st, f2, inv[1])
                return True
            for a in f2.allocas:
                self.wobj(st, a).alive = False
            st.frames.pop()
            inv = f2.inv
        raise PathEnd('throw', tname)


BASES = {'_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt15underflow_error': '_ZTISt13runtime_error',
         '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt13runtime_error': '_ZTISt9exception',
         '_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
         '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
         '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception'}

THROWN = object()


def _rerr(x):
    """relative error of rounding x to single precision"""
    try:
        y = f32(float(x))
    except OverflowError:
        return Fraction(0)
    if not x or y != y or y in (float('inf'), float('-inf')):
        return Fraction(0)
    return Fraction(y) / x - 1


def _fsqrt(x):
    import math
    if x < 0:
        return Fraction(0)
    return Fraction(math.sqrt(float(x)))


def int_to_f32(x):
    """round to nearest even from integer, single rounding"""
    if abs(x) < (1 << 53):
        return f32(float(x))
    import numpy as np
    return float(np.float32(x))


# -------------------------------------------------------------------- stubs
def s_nop(ex, st, a, I, n):
    return None


def s_arg0(ex, st, a, I, n):
    return a[0]


def s_memcpy(ex, st, a, I, n):
    k = ex.norm_int(a[2])
    if k.__class__ is not int:
        k = ex.concretize(st, k, 64)
    ex.copy_mem(st, a[0], a[1], k)
    return a[0]


def s_memset(ex, st, a, I, n):
    k = ex.norm_int(a[2])
    if k.__class__ is not int:
        k = ex.concretize(st, k, 64)
    b = a[1]
    if isinstance(b, z3.BitVecRef) and b.size() > 8:
        b = z3.simplify(z3.Extract(7, 0, b))
    ex.fill_mem(st, a[0], b & 0xff if b.__class__ is int else b, k)
    return a[0]


def s_memcmp(ex, st, a, I, n):
    k = ex.norm_int(a[2])
    if k.__class__ is not int:
        k = ex.concretize(st, k, 64)
    for i in range(k):
        x = ex.load(st, a[0] + i, _U8)
        y = ex.load(st, a[1] + i, _U8)
        if x is UNDEF or y is UNDEF:
            raise UBError('memcmp of uninitialised memory')
        if x.__class__ is int and y.__class__ is int:
            eq = int(x == y)
        else:
            eq = ex.bdecide(st, (z3.BitVecVal(x, 8) if x.__class__ is int else x) == y)
        if not eq:
            if x.__class__ is int and y.__class__ is int:
                return (1 if x > y else -1) & 0xffffffff
            X = z3.BitVecVal(x, 8) if x.__class__ is int else x
            return 1 if ex.bdecide(st, z3.UGT(X, y)) else 0xffffffff
    return 0


class _T:
    pass


_U8 = _T()
_U8.k = 'i'
_U8.w = 8
_U8.store = _U8.size = 1
_P = _T()
_P.k = 'p'
_P.w = 64
_P.store = _P.size = 8
_I32 = _T()
_I32.k = 'i'
_I32.w = 32
_I32.store = _I32.size = 4


def exact_int(v):
    """the 66-bit integer a floating-point value was converted from, if the conversion cannot round"""
    if v.__class__ is float:
        return z3.BitVecVal(int(v), 66) if v == v and abs(v) < 2.0 ** 53 and v == int(v) else None
    if not isinstance(v, z3.FPRef) or not z3.is_app(v):
        return None
    k = v.decl().kind()
    mant = v.sort().sbits()
    if k == z3.Z3_OP_FPA_TO_FP and v.num_args() == 2 and isinstance(v.arg(1), z3.FPRef):
        return exact_int(v.arg(1)) if v.arg(1).sort().sbits() <= mant else None
    if k == z3.Z3_OP_FPA_NUM:
        return None
    if k not in (z3.Z3_OP_FPA_TO_FP, z3.Z3_OP_FPA_TO_FP_UNSIGNED) or v.num_args() != 2 or not isinstance(v.arg(1), z3.BitVecRef):
        return None
    b = v.arg(1)
    signed = k == z3.Z3_OP_FPA_TO_FP
    e = b
    while z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
        e = e.arg(0)
    if e.size() > mant or b.size() > 64:
        return None
    return z3.SignExt(66 - b.size(), b) if signed else z3.ZeroExt(66 - b.size(), b)


def s_new(ex, st, a, I, n):
    k = ex.norm_int(a[0])
    if k.__class__ is not int:
        k = ex.concretize(st, k, 64)
    st.events.append(('heap', '%s(%d)' % (n, k)))
    return ex.new_obj(st, k, 'heap', 'heap')


def s_calloc(ex, st, a, I, n):
    k = [ex.norm_int(x) for x in a[:2]]
    k = [x if x.__class__ is int else ex.concretize(st, x, 64) for x in k]
    p = s_new(ex, st, [k[0] * k[1]], I, n)
    s_memset(ex, st, [p, 0, k[0] * k[1]], I, n)
    return p


def s_realloc(ex, st, a, I, n):
    if a[0] == 0:
        return s_new(ex, st, a[1:], I, n)
    o = st.mem.get(a[0] >> 32)
    if o is None or o.kind != 'heap' or not o.alive or a[0] & 0xffffffff:
        raise UBError('invalid realloc')
    p = s_new(ex, st, a[1:], I, n)
    k = ex.norm_int(a[1])
    s_memcpy(ex, st, [p, a[0], min(k, o.size) if k.__class__ is int else o.size], I, n)
    s_del(ex, st, a[:1], I, n)
    return p


def s_del(ex, st, a, I, n):
    if a[0] == 0:
        return None
    o = st.mem.get(a[0] >> 32)
    if o is None or o.kind != 'heap' or not o.alive or a[0] & 0xffffffff:
        raise UBError('invalid free')
    ex.wobj(st, a[0] >> 32).alive = False
    return None


def s_cxa_alloc(ex, st, a, I, n):
    return ex.new_obj(st, max(a[0], 8), 'exc', 'exception')


def s_cxa_throw(ex, st, a, I, n):
    t = None
    for k, v in st.gaddr.items():
        if v == a[1]:
            t = k
    ex.throw(st, t or 'unknown', a[0])
    return THROWN


def s_rethrow(ex, st, a, I, n):
    if st.caught:
        t, p = st.caught[-1]
        ex.throw(st, t, p)
        return THROWN
    raise PathEnd('terminate', 'rethrow without an active exception (std::terminate)')


def s_begin_catch(ex, st, a, I, n):
    st.caught = st.caught + [st.exc]
    return a[0]


def s_end_catch(ex, st, a, I, n):
    st.caught = st.caught[:-1]
    return None


def s_terminate(ex, st, a, I, n):
    raise PathEnd('terminate', n)


def s_assert_fail(ex, st, a, I, n):
    txt = ''
    try:
        for p in (a[3], a[2]):
            s = b''
            q = p
            while len(s) < 200:
                c = ex.load(st, q, _U8)
                if c == 0:
                    break
                s += bytes([c])
                q += 1
            txt += s.decode(errors='replace') + ' in '
    except Exception:
        pass
    raise UBError('library precondition failed: ' + txt[:120])


def mk_throw(t):
    def f(ex, st, a, I, n):
        ex.throw(st, t, 0)
        return THROWN
    return f


def s_typeid(ex, st, a, I, n):
    return ex.typeid(a[0])


def s_guard_acquire(ex, st, a, I, n):
    b = ex.load(st, a[0], _U8)
    if b:
        return 0
    st.guard += 1
    return 1


def s_guard_release(ex, st, a, I, n):
    st.guard -= 1
    ex.store(st, a[0], _U8, 1)
    return None


def s_fabs(ex, st, a, I, n):
    return ex.fabs(st, a[0], I.ty.w)


def s_sqrt(ex, st, a, I, n):
    return ex.fsqrt(st, a[0], I.ty.w)


def s_iabs(ex, st, a, I, n):
    v = ex.norm_int(a[0])
    w = I.ty.w
    if v is UNDEF:
        return v
    if v.__class__ is int:
        return (-v) & ((1 << w) - 1) if v >> (w - 1) else v
    return z3.If(v < 0, -v, v)


def _round(ex, st, a, I, kind):
    v = a[0]
    if v is UNDEF or isinstance(v, Poison):
        return v
    import math
    if ex.real:
        v = ex.rnorm(st, v)
        if v.is_const():
            x = v.value()
            return Rat.const(math.floor(x) if kind == 'floor' else math.ceil(x) if kind == 'ceil' else math.trunc(x))
        raise Unsupported('symbolic ' + kind)
    if v.__class__ is float:
        if v != v or math.isinf(v):
            return v
        return float(math.floor(v) if kind == 'floor' else math.ceil(v) if kind == 'ceil' else math.trunc(v))
    rm = z3.RTN() if kind == 'floor' else z3.RTP() if kind == 'ceil' else z3.RTZ()
    return z3.fpRoundToIntegral(rm, v)


def s_floor(ex, st, a, I, n):
    return _round(ex, st, a, I, 'floor')


def s_ceil(ex, st, a, I, n):
    return _round(ex, st, a, I, 'ceil')


def s_trunc(ex, st, a, I, n):
    return _round(ex, st, a, I, 'trunc')


def s_fmuladd(ex, st, a, I, n):
    if ex.real:
        return ex.fbin(st, 'fadd', ex.fbin(st, 'fmul', a[0], a[1], I.ty.w), a[2], I.ty.w)
    if all(x.__class__ is float for x in a[:3]):
        raise Unsupported('concrete fma')
    s = F32 if I.ty.w == 32 else F64
    return z3.fpFMA(RNE, *[ex.zf(x, I.ty.w) for x in a[:3]])


def s_fminmax(ex, st, a, I, n):
    mx = 'max' in n
    c = ex.fcmp(st, 2 if mx else 4, a[0], a[1], I.ty.w)
    if c.__class__ is not int:
        c = ex.bdecide(st, c)
    return a[0] if c else a[1]


def s_powi(ex, st, a, I, n):
    """pow(x, y) with a concrete small non-negative integer exponent"""
    y = a[1]
    if ex.real and isinstance(y, Rat) and y.is_const() and y.value().denominator == 1 and 0 <= y.value() <= 16:
        r = Rat.const(1)
        for _ in range(int(y.value())):
            r = r * a[0]
        return r
    if ex.real and isinstance(y, Rat) and y.is_const() and y.value() == Fraction(1, 2):
        return ex.fsqrt(st, a[0], I.ty.w)
    raise Unsupported('pow')


def s_ctlz(ex, st, a, I, n):
    v = ex.norm_int(a[0])
    if v.__class__ is not int:
        raise Unsupported('symbolic ctlz')
    return I.ty.w - v.bit_length()


def s_cttz(ex, st, a, I, n):
    v = ex.norm_int(a[0])
    if v.__class__ is not int:
        raise Unsupported('symbolic cttz')
    return I.ty.w if v == 0 else (v & -v).bit_length() - 1


def s_iminmax(ex, st, a, I, n):
    p = {'llvm.umin': 36, 'llvm.umax': 34, 'llvm.smin': 40, 'llvm.smax': 38}[n[:9]]
    c = ex.icmp(p, a[0], a[1], I.ty.w)
    if c.__class__ is not int:
        c = ex.bdecide(st, c)
    return a[0] if c else a[1]


def s_expect(ex, st, a, I, n):
    return a[0]


def s_isconst(ex, st, a, I, n):
    return 0


def s_overflow(ex, st, a, I, n):
    op = n.split('.')[1]
    w = I.ty.fields[0].w
    x, y = ex.norm_int(a[0]), ex.norm_int(a[1])
    base = op[1:4]
    r = ex.ibin(base, x, y, w)
    if x.__class__ is int and y.__class__ is int:
        if op[0] == 's':
            X, Y = sgn(x, w), sgn(y, w)
            t = X + Y if base == 'add' else X - Y if base == 'sub' else X * Y
            return (r, int(not -(1 << (w - 1)) <= t < (1 << (w - 1))))
        t = x + y if base == 'add' else x - y if base == 'sub' else x * y
        return (r, int(not 0 <= t < (1 << w)))
    raise Unsupported('symbolic overflow intrinsic')


# red-black tree primitives of libstdc++ (std::map): same ordering, no rebalancing
def _ld(ex, st, a):
    return ex.load(st, a, _P)


def _sto(ex, st, a, v):
    ex.store(st, a, _P, v)


def s_rb_incr(ex, st, a, I, n):
    x = a[0]
    if _ld(ex, st, x + 24):
        x = _ld(ex, st, x + 24)
        while _ld(ex, st, x + 16):
            x = _ld(ex, st, x + 16)
        return x
    y = _ld(ex, st, x + 8)
    while x == _ld(ex, st, y + 24):
        x = y
        y = _ld(ex, st, y + 8)
    if _ld(ex, st, x + 24) != y:
        x = y
    return x


def s_rb_decr(ex, st, a, I, n):
    x = a[0]
    if ex.load(st, x, _I32) == 0 and _ld(ex, st, _ld(ex, st, x + 8) + 8) == x:
        return _ld(ex, st, x + 24)
    if _ld(ex, st, x + 16):
        y = _ld(ex, st, x + 16)
        while _ld(ex, st, y + 24):
            y = _ld(ex, st, y + 24)
        return y
    y = _ld(ex, st, x + 8)
    while x == _ld(ex, st, y + 16):
        x = y
        y = _ld(ex, st, y + 8)
    return y


def s_rb_insert(ex, st, a, I, n):
    left, x, p, h = a
    if left.__class__ is not int:
        left = ex.bdecide(st, left)
    _sto(ex, st, x + 8, p)
    _sto(ex, st, x + 16, 0)
    _sto(ex, st, x + 24, 0)
    ex.store(st, x, _I32, 1)
    if left:
        _sto(ex, st, p + 16, x)
        if p == h:
            _sto(ex, st, h + 8, x)
            _sto(ex, st, h + 24, x)
        elif p == _ld(ex, st, h + 16):
            _sto(ex, st, h + 16, x)
    else:
        _sto(ex, st, p + 24, x)
        if p == _ld(ex, st, h + 24):
            _sto(ex, st, h + 24, x)
    return None


# ostream: output is recorded as events
def s_out_num(ex, st, a, I, n):
    st.events.append(('num', a[1]))
    return a[0]


def _cstr(ex, st, p):
    s = b''
    while len(s) < 4096:
        c = ex.load(st, p, _U8)
        if c.__class__ is not int:
            raise Unsupported('symbolic string output')
        if c == 0:
            return s.decode('latin1')
        s += bytes([c])
        p += 1
    raise Unsupported('long string')


def s_out_str(ex, st, a, I, n):
    st.events.append(('str', _cstr(ex, st, a[1])))
    return a[0]


def s_out_strn(ex, st, a, I, n):
    k = a[2]
    s = ''
    for i in range(k):
        c = ex.load(st, a[1] + i, _U8)
        if c.__class__ is not int:
            raise Unsupported('symbolic string output')
        s += chr(c)
    st.events.append(('str', s))
    return a[0]


def s_out_chr(ex, st, a, I, n):
    c = a[1]
    if c.__class__ is not int:
        raise Unsupported('symbolic char output')
    st.events.append(('str', chr(c & 0xff)))
    return a[0]


def s_out_manip(ex, st, a, I, n):
    f = ex.faddr_inv.get(a[1], '')
    if f.startswith('_ZSt4endl'):
        st.events.append(('str', '\n'))
    elif f.startswith('_ZSt') and not f.startswith('_ZSt5flush'):
        st.events.append(('fmt', f))
    elif not f.startswith('_ZSt5flush'):
        raise Unsupported('ostream manipulator ' + f)
    return a[0]


def s_endl(ex, st, a, I, n):
    st.events.append(('str', '\n'))
    return a[0]


def s_out_fmt(ex, st, a, I, n):
    st.events.append(('fmt', n))
    return a[0] if I.ty.k == 'p' else 0


def s_strlen(ex, st, a, I, n):
    return len(_cstr(ex, st, a[0]))


STUBS = {
    'memcpy': s_memcpy, 'memmove': s_memcpy, 'memset': s_memset, 'memcmp': s_memcmp, 'bcmp': s_memcmp, 'strlen': s_strlen,
    '_Znwm': s_new, '_ZnwmRKSt9nothrow_t': s_new, '_ZnamRKSt9nothrow_t': s_new, '_ZdlPvRKSt9nothrow_t': s_del, '_ZdaPvRKSt9nothrow_t': s_del, 'calloc': s_calloc, 'realloc': s_realloc, 'aligned_alloc': lambda ex, st, a, I, n: s_new(ex, st, a[1:], I, n), '_Znam': s_new, 'malloc': s_new, '_ZdlPv': s_del, '_ZdlPvm': s_del, '_ZdaPv': s_del, '_ZdaPvm': s_del,
    'free': s_del,
    '__cxa_allocate_exception': s_cxa_alloc, '__cxa_free_exception': s_nop, '__cxa_throw': s_cxa_throw,
    '__cxa_rethrow': s_rethrow, '__cxa_begin_catch': s_begin_catch, '__cxa_end_catch': s_end_catch,
    '_ZSt9terminatev': s_terminate, 'abort': s_terminate, '__clang_call_terminate': s_terminate, 'exit': s_terminate,
    '__cxa_pure_virtual': s_terminate, '__assert_fail': s_terminate, '_ZSt10unexpectedv': s_terminate,
    '_ZSt21__glibcxx_assert_failPKciS0_S0_': s_assert_fail,
    '__cxa_guard_acquire': s_guard_acquire, '__cxa_guard_release': s_guard_release, '__cxa_guard_abort': s_nop,
    '__cxa_atexit': s_nop,
    'fabs': s_fabs, 'fabsf': s_fabs, 'sqrt': s_sqrt, 'sqrtf': s_sqrt, 'abs': s_iabs, 'labs': s_iabs, 'llabs': s_iabs,
    'floor': s_floor, 'floorf': s_floor, 'ceil': s_ceil, 'ceilf': s_ceil, 'trunc': s_trunc, 'truncf': s_trunc,
    'fma': s_fmuladd, 'fmaf': s_fmuladd, 'fmax': s_fminmax, 'fmaxf': s_fminmax, 'fmin': s_fminmax, 'fminf': s_fminmax,
    'pow': s_powi, 'powf': s_powi,
    '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base': s_rb_incr,
    '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base': s_rb_incr,
    '_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base': s_rb_decr,
    '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base': s_rb_decr,
    '_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_': s_rb_insert,
    '_ZSt20__throw_length_errorPKc': mk_throw('_ZTISt12length_error'),
    '_ZSt20__throw_out_of_rangePKc': mk_throw('_ZTISt12out_of_range'),
    '_ZSt24__throw_out_of_range_fmtPKcz': mk_throw('_ZTISt12out_of_range'),
    '_ZSt24__throw_invalid_argumentPKc': mk_throw('_ZTISt16invalid_argument'),
    '_ZSt19__throw_logic_errorPKc': mk_throw('_ZTISt11logic_error'),
    '_ZSt21__throw_runtime_errorPKc': mk_throw('_ZTISt13runtime_error'),
    '_ZSt22__throw_overflow_errorPKc': mk_throw('_ZTISt14overflow_error'),
    '_ZSt20__throw_domain_errorPKc': mk_throw('_ZTISt12domain_error'),
    '_ZSt17__throw_bad_allocv': mk_throw('_ZTISt9bad_alloc'),
    '_ZSt28__throw_bad_array_new_lengthv': mk_throw('_ZTISt20bad_array_new_length'),
    '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc': s_out_str,
    '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c': s_out_chr,
    '_ZNSolsEPFRSt8ios_baseS0_E': s_out_manip, '_ZNSolsEPFRSt9basic_iosIcSt11char_traitsIcEES3_E': s_out_manip,
    '_ZNSt8ios_base9precisionEl': s_out_fmt, '_ZNSt8ios_base5widthEl': s_out_fmt, '_ZNSt8ios_base5flagsESt13_Ios_Fmtflags': s_out_fmt,
    '_ZNSt8ios_base4setfESt13_Ios_Fmtflags': s_out_fmt, '_ZNSt8ios_base4setfESt13_Ios_FmtflagsS0_': s_out_fmt, '_ZNSt8ios_base6unsetfESt13_Ios_Fmtflags': s_out_fmt,
    '_ZNSolsEPFRSoS_E': s_out_manip, '_ZNSo5flushEv': s_arg0, '_ZNSo3putEc': s_out_chr, '_ZNSo5writeEPKcl': s_out_strn,
    '_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_': s_endl,
    '_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l': s_out_strn,
}
for _c in 'fdijlmxyst':
    STUBS['_ZNSolsE' + _c] = s_out_num

PREFIX_STUBS = [
    ('llvm.memcpy', s_memcpy), ('llvm.memmove', s_memcpy), ('llvm.memset', s_memset), ('llvm.lifetime', s_nop),
    ('llvm.fabs', s_fabs), ('llvm.sqrt', s_sqrt), ('llvm.fmuladd', s_fmuladd), ('llvm.fma', s_fmuladd),
    ('llvm.ctlz', s_ctlz), ('llvm.cttz', s_cttz), ('llvm.abs', s_iabs), ('llvm.umin', s_iminmax), ('llvm.umax', s_iminmax),
    ('llvm.smin', s_iminmax), ('llvm.smax', s_iminmax), ('llvm.expect', s_expect), ('llvm.assume', s_nop),
    ('llvm.is.constant', s_isconst), ('llvm.eh.typeid.for', s_typeid), ('llvm.threadlocal.address', s_arg0),
    ('llvm.floor', s_floor), ('llvm.ceil', s_ceil), ('llvm.trunc', s_trunc), ('llvm.maxnum', s_fminmax),
    ('llvm.minnum', s_fminmax), ('llvm.sadd.with', s_overflow), ('llvm.uadd.with', s_overflow),
    ('llvm.smul.with', s_overflow), ('llvm.umul.with', s_overflow), ('llvm.ssub.with', s_overflow),
    ('llvm.usub.with', s_overflow), ('llvm.stacksave', s_nop), ('llvm.stackrestore', s_nop),
    ('llvm.experimental.noalias', s_nop), ('llvm.donothing', s_nop), ('llvm.trap', s_terminate), ('llvm.ubsantrap', s_terminate),
    ('llvm.launder', s_arg0), ('llvm.strip.invariant', s_arg0),
    # constructors / destructors of standard exception classes: no observable state modelled
    ('_ZNSt14overflow_error', s_nop), ('_ZNSt13runtime_error', s_nop), ('_ZNSt12domain_error', s_nop),
    ('_ZNSt16invalid_argument', s_nop), ('_ZNSt11logic_error', s_nop), ('_ZNSt12out_of_range', s_nop),
    ('_ZNSt11range_error', s_nop), ('_ZNSt15underflow_error', s_nop), ('_ZNSt12length_error', s_nop),
    ('_ZNSt9exception', s_nop),
]
