"""Runs one harness entry: symbolic execution, obligations, counterexamples, replay."""
import math
import os
import random
import struct
import time
from fractions import Fraction
import z3
from . import rat as R
from . import symex as SX
from . import spec as SP
from .rat import Rat
from .spec import Goal, Ctx, lift, bad
from .llvmir import Module


class BT:
    """pseudo LLVM type for reading buffers"""
    def __init__(self, buf):
        self.k = buf.kind
        self.w = buf.bits
        self.store = self.size = buf.bytes


def sym_inputs(e, ex, c):
    """symbolic (or built) input values: name -> flat list"""
    vals = {}
    built = e.build(c) if e.build else {}
    for b in e.ins:
        if b.name in built:
            fl = b.flat(built[b.name])
            out = []
            for v in fl:
                if isinstance(v, (int, float, Fraction)):
                    if b.kind == 'f':
                        v = Rat.const(Fraction(v)) if ex.real else float(v)
                    else:
                        v = int(v) & ((1 << b.bits) - 1)
                out.append(v)
            vals[b.name] = out
            continue
        vals[b.name] = [c.sym(b, i) for i in range(b.count)]
    return vals


def _sym(self, b, i):
    nm = b.name
    if len(b.shape) == 2:
        nm = '%s_%d_%d' % (b.name, i // b.shape[1], i % b.shape[1])
    elif len(b.shape) == 1:
        nm = '%s_%d' % (b.name, i)
    if b.kind == 'f':
        if self.real:
            return Rat.var(nm)
        return z3.FP(nm, z3.Float32() if b.bits == 32 else z3.Float64())
    return z3.BitVec(nm, b.bits)


Ctx.sym = _sym


WITNESS = object()


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = {}
        self.instr = 0
        self.feas_queries = 0
        self.feas_time = 0.0
        self.obligations = 0
        self.discharged = 0
        self.by_nf = 0
        self.queries = 0
        self.solver_time = 0.0
        self.raw_confirmed = 0
        self.raw_tried = 0
        self.undecided = []
        self.violations = []      # dicts
        self.witness_ok = 0
        self.witness_bad = []
        self.functions = set()
        self.exact_paths = 0
        self.exact_max = 0
        self.sample = None
        self.wall = 0.0
        self.reached = 0
        self.notes = []


class Runner:
    def __init__(self, e, ll, replay, seed=1, deadline=None, raw_budget=3.0):
        self.e = e
        self.ll = ll
        self.replay = replay          # Replay object (check.py)
        self.rng = random.Random(seed * 7919 + hash_name(e.name))
        self.deadline = deadline
        self.res = Result(e.name)
        self.raw_budget = raw_budget
        self.tried = 0

    # ------------------------------------------------------------------
    def run(self):
        e, res = self.e, self.res
        t0 = time.time()
        R.reset_pool()
        mod = Module(self.ll)
        ex = SX.Executor(mod, mode=e.mode, feas=e.feas, max_paths=e.max_paths, feas_ms=e.feas_ms, exact_bound=e.exact,
                         dbl=e.dbl, deadline=self.deadline)
        ex.merge = e.merge
        if e.contracts:
            ex.contracts = e.contracts(mod)
        self.ex = ex
        c = Ctx(e)
        st = ex.initial()
        self.vals = sym_inputs(e, ex, c)
        args = []
        self.outaddr = {}
        for b in e.ins:
            a = ex.new_obj(st, b.count * b.bytes, 'input', b.name)
            o = st.mem[a >> 32]
            for k, v in enumerate(self.vals[b.name]):
                o.cells[k * b.bytes] = (b.bytes, v)
            args.append(a)
        for b in e.outs:
            a = ex.new_obj(st, b.count * b.bytes, 'output', b.name)
            args.append(a)
            self.outaddr[b.name] = a
        self.I = {b.name: b.nest([lift(v, b, ex.real) for v in self.vals[b.name]]) for b in e.ins}
        NS = type('NS', (), {})
        I = NS()
        for k, v in self.I.items():
            setattr(I, k, v)
        self.Ins = I
        self.assumed = []
        if e.assume:
            for a in e.assume(c, I):
                if isinstance(a, tuple):
                    op, r = a
                    p = r.num
                    for f, k in r.den.items():
                        if k % 2:
                            p = R.pmul(p, f.p)
                    ex.add_atom(st, op, p)
                else:
                    st.pc.append(a)
        if e.name not in mod.funcs:
            res.undecided.append('harness function missing')
            return res
        npath = 0
        for p in ex.run(st, e.name, args):
            npath += 1
            res.paths[p.outcome] = res.paths.get(p.outcome, 0) + 1
            try:
                self.path(p)
            except z3.Z3Exception as x:
                res.undecided.append('solver error: %s' % str(x)[:80])
            except SX.UBError as x:
                res.undecided.append('post-state: %s' % x)
            except SX.Unsupported as x:
                res.undecided.append('post-state unsupported: %s' % x)
            if len(res.violations) >= 1:
                break
            if self.deadline and time.time() > self.deadline:
                ex.truncated = True
                break
        if ex.truncated and not res.violations:
            res.undecided.append('exploration stopped at the bound (%d paths)' % npath)
        if not npath:
            res.undecided.append('no feasible path (vacuous)')
        res.instr = ex.steps_done
        res.feas_queries = ex.nfeas
        res.feas_time = ex.feas_time
        res.functions = {f for f in ex.funcs_run if '4mlib' in f}
        res.exact_max = ex.exact_max
        res.wall = time.time() - t0
        return res

    # ------------------------------------------------------------------
    def outputs(self, st):
        O = {}
        raw = {}
        for b in self.e.outs:
            fl = []
            t = BT(b)
            for k in range(b.count):
                v = self.ex.load(st, self.outaddr[b.name] + k * b.bytes, t)
                if b.kind == 'i' and v.__class__ is tuple:
                    v = self.ex.tuple_bv(v)
                fl.append(lift(v, b, self.ex.real))
            raw[b.name] = fl
            O[b.name] = b.nest(fl)
        NS = type('NS', (), {})
        o = NS()
        for k, v in O.items():
            setattr(o, k, v)
        return o, raw

    def throw_conds(self, c, I):
        if self.e.throws is None:
            return None
        return list(self.e.throws(c, I))

    def path(self, p):
        e, res, st = self.e, self.res, p.st
        oc = p.outcome
        if oc == 'unsupported':
            if e.feas == 'lazy' and not self.feasible(st):
                return
            res.undecided.append('unsupported: ' + p.detail)
            return
        if oc in ('limit', 'timeout', 'poisoncmp'):
            if oc != 'timeout' and self.report(p, None, '%s: %s' % (oc, p.detail), soft=True):
                return
            res.undecided.append('%s: %s' % (oc, p.detail))
            return
        if oc in ('ub', 'terminate'):
            if not self.feasible(st):
                return
            if not self.report(p, None, '%s: %s' % (oc, p.detail)):
                res.undecided.append('%s not reproduced: %s' % (oc, p.detail))
            return
        c = Ctx(e)
        fcache = {}

        def feas(cs):
            key = tuple(x.get_id() for x in cs)
            if key not in fcache:
                fcache[key] = self.ex.check(st.pc, *cs) != z3.unsat
            return fcache[key]
        c.feas = feas
        conds = self.throw_conds(c, self.Ins)
        goals = []
        raw = None
        if oc == 'throw':
            res.obligations += 1
            if e.any_throw and p.detail == e.exc:
                res.discharged += 1
                res.reached += 1
                self.witness(p, None)
                return
            if conds is None or p.detail != e.exc:
                if not self.feasible(st):
                    res.discharged += 1
                    return
                if not self.report(p, None, 'unexpected exception %s' % p.detail):
                    res.undecided.append('unexpected exception %s not reproduced' % p.detail)
                return
            goals = [Goal('any', conds, None, 'exception only when documented')]
            res.obligations -= 1
        else:
            O, raw = self.outputs(st)
            for kind in e.events:
                ev = [x for x in st.events if x[0] == kind]
                if kind == 'gdep':
                    ev = [(kind, 'static storage %s holds a value derived from an argument' % o.name) for o in st.mem.values()
                          if o.kind == 'global' and not o.const and any(input_dep(c[1]) for c in o.cells.values())]
                if kind == 'undef':
                    ev = [(kind, '%s[%d] is uninitialised' % (n, i)) for n, fl in raw.items() for i, v in enumerate(fl) if v is SX.UNDEF]
                res.obligations += 1
                if ev:
                    if not self.feasible(st):
                        res.discharged += 1
                        continue
                    if not self.report(p, None, 'event %s: %s' % (kind, ev[0][1]), event=kind):
                        res.undecided.append('event %s not reproduced' % kind)
                        return
                    return
                res.discharged += 1
            if e.outspec:
                e.outspec(c, self.Ins, [x for x in st.events if x[0] in ('num', 'str', 'fmt')])
            elif e.spec:
                e.spec(c, self.Ins, O)
            goals = c.goals
            if conds is not None:
                for k, t in enumerate(conds):
                    goals.append(Goal('none', t, None, 'exception raised when documented (%d)' % k))
            if st.exact:
                res.exact_paths += 1
        res.obligations += len(goals)
        if not self.discharge(p, goals):
            return
        res.discharged += len(goals)
        res.reached += 1
        self.witness(p, raw)

    # ------------------------------------------------------------------
    def solve(self, cs, ms=None):
        s = z3.Solver()
        s.set('timeout', ms or self.e.goal_ms)
        s.add(*cs)
        t = time.time()
        r = s.check()
        self.res.queries += 1
        self.res.solver_time += time.time() - t
        return r, (s.model() if r == z3.sat else None)

    def feasible(self, st):
        cs = self.ex.real_constraints(st) if self.ex.real else list(st.pc)
        if not cs:
            return True
        r, m = self.solve(cs)
        return r != z3.unsat

    def goal_formula(self, g):
        """fp-mode goal as z3 Bool"""
        if g.k == 'b':
            return g.a if not isinstance(g.a, bool) else z3.BoolVal(g.a)
        if g.k == 'any':
            return z3.Or(*[x if not isinstance(x, bool) else z3.BoolVal(x) for x in g.a])
        if g.k == 'none':
            return z3.Not(g.a)
        if g.k == 'eq':
            a, b = g.a, g.b
            if bad(a) or bad(b):
                return z3.BoolVal(False)
            if isinstance(a, z3.FPRef):
                if a.get_id() == b.get_id():
                    return z3.BoolVal(True)
                return z3.Or(z3.fpEQ(a, b), z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)))
            if isinstance(a, z3.BitVecRef):
                if a.get_id() == b.get_id():
                    return z3.BoolVal(True)
                d = z3.simplify(a - b, som=True)
                if z3.is_bv_value(d):
                    return z3.BoolVal(d.as_long() == 0)
                return a == b
            return a == b
        raise SX.Unsupported('goal %s' % g.k)

    def discharge(self, p, goals):
        if self.ex.real:
            return self.discharge_real(p, goals)
        st = p.st
        fs = []
        for g in goals:
            if g.k == 'alt':
                done = False
                for f in g.a:
                    f = z3.simplify(f)
                    if z3.is_true(f) or self.solve(list(st.pc) + list(g.guard) + [z3.Not(f)], max(2000, self.e.goal_ms // 3))[0] == z3.unsat:
                        done = True
                        break
                fs.append(z3.BoolVal(True) if done else g.a[0])
                continue
            f = self.goal_formula(g)
            if g.guard and not z3.is_true(f):
                f = z3.Implies(z3.And(*g.guard), f)
            if g.k == 'eq' and not z3.is_true(f) and not z3.is_false(f):
                f2 = z3.simplify(f)
                if z3.is_true(f2):
                    f = f2
            fs.append(f)
        todo = [(g, f) for g, f in zip(goals, fs) if not z3.is_true(f)]
        neg = z3.Or(*[z3.Not(f) for f in fs]) if fs else z3.BoolVal(False)
        if not todo:
            self.solve(list(st.pc) + [neg])
            self.res.by_nf += len(goals)
            return True
        r, m = self.solve(list(st.pc) + [neg])
        if r == z3.unsat:
            return True
        if r == z3.unknown and len(todo) > 1:
            # one by one
            ok = True
            for g, f in todo:
                r, m = self.solve(list(st.pc) + [z3.Not(f)])
                if r != z3.unsat:
                    ok = False
                    break
            if ok:
                return True
        what = 'post-condition'
        extra = []
        if self.e.fallback:
            extra = list(self.e.fallback(Ctx(self.e), self.Ins))
            r2, m2 = self.solve(list(st.pc) + extra + [neg])
            if r2 == z3.unsat:
                self.res.notes.append('holds under the stated no-overflow assumption')
                return True
            r, m = r2, m2
        tries = []
        if m is not None:
            tries.append(m)
        for k in range(6 if tries else 12):
            m = tries[0] if tries and k == 0 else self.random_model(list(st.pc) + extra + [neg], k)
            if m is None:
                continue
            for g, f in todo:
                v = m.eval(f, model_completion=True)
                if z3.is_false(v):
                    what = g.label
                    break
            inp = self.model_inputs(m)
            if inp is not None and self.confirm(inp, 'goal %s fails' % what, p):
                return False
        self.res.undecided.append(('counterexample not reproduced: ' if tries else 'solver gave no answer: ') + what)
        return False

    def random_model(self, cs, k):
        """search for a model with small concrete inputs (used when the solver gives no answer)"""
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*cs)
        for b in self.e.ins:
            for v in self.vals[b.name]:
                if isinstance(v, z3.ExprRef) and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if k < 4 and self.rng.random() < 0.15 * k:
                        continue
                    x = self.rng.randint(-9, 9)
                    if k == 2 or (k > 2 and self.rng.random() < 0.3):
                        x *= self.rng.choice((1, 1000, 10 ** 5, 10 ** 7))
                    if k > 5 and b.kind == 'i':
                        # any magnitude the type has
                        x = self.rng.getrandbits(self.rng.randint(1, min(b.bits - 1, (3 * b.bits // 8, b.bits // 2 - 4, b.bits - 1)[k % 3])))
                        x *= self.rng.choice((1, -1))
                    elif k > 5:
                        x = float(self.rng.choice((0.1, 1.5, 3e-5, 2.0 ** 30 + 1, 1e20, -1e-20, 0.0, -7.0, 16777217.0)))
                    if b.kind == 'i':
                        if not b.signed:
                            x = abs(x)
                        s.add(v == x)
                    else:
                        s.add(v == z3.FPVal(float(x), v.sort()))
        t = time.time()
        r = s.check()
        self.res.queries += 1
        self.res.solver_time += time.time() - t
        return s.model() if r == z3.sat else None

    def model_inputs(self, m):
        inp = {}
        for b in self.e.ins:
            out = []
            for v in self.vals[b.name]:
                if isinstance(v, z3.ExprRef):
                    x = m.eval(v, model_completion=True)
                    if isinstance(x, z3.FPRef):
                        if z3.is_true(z3.simplify(z3.fpIsNaN(x))):
                            bits = 0x7fc00000 if b.bits == 32 else 0x7ff8000000000000
                        else:
                            bv = z3.simplify(z3.fpToIEEEBV(x))
                            if not z3.is_bv_value(bv):
                                return None
                            bits = bv.as_long()
                    else:
                        x = z3.simplify(x)
                        if not z3.is_bv_value(x):
                            return None
                        bits = x.as_long()
                elif v.__class__ is int:
                    bits = v
                elif v.__class__ is float:
                    bits = SX.fbits(v, b.bits)
                else:
                    return None
                out.append(bits)
            inp[b.name] = out
        return inp

    # ------------------------------------------------------------------ real mode
    def rz3(self, r, st):
        return self.ex.pz3(r.num)

    def discharge_real(self, p, goals):
        ex, st = self.ex, p.st
        pend = []
        for g in goals:
            v = self.real_goal(st, g)
            if v is not True:
                pend.append((g, v))
        self.raw_check(p, goals)
        if not pend:
            self.res.by_nf += len(goals)
            return True
        base = ex.real_constraints(st)
        for g, negz in pend:
            if negz is None:
                r = z3.sat
            else:
                r, m = self.solve(base + [negz] + list(g.guard))
            if r == z3.unsat:
                continue
            if self.report(p, g, 'goal %s fails' % g.label):
                return False
            self.res.undecided.append('%s: %s' % ('counterexample not reproduced' if r == z3.sat else 'solver gave no answer', g.label))
            return False
        return True

    def real_goal(self, st, g):
        """True if it holds by normal form; else z3 formula of its negation (None: plainly false)"""
        ex = self.ex
        if g.k == 'eq' and isinstance(g.a, Rat) and isinstance(g.b, Rat):
            d = ex.rnorm(st, g.a - g.b)
            d = R._reduce_sqrt(d)
            if d.is_zero():
                return True
            if d.is_const():
                return None
            return ex.pz3(d.num) != 0
        if g.k == 'eq':
            if bad(g.a) or bad(g.b):
                return None
            a, b = g.a, g.b
            if isinstance(a, Rat) or isinstance(b, Rat):
                raise SX.Unsupported('mixed goal')
            f = z3.simplify(a == b)
            if z3.is_true(f):
                return True
            return z3.Not(f)
        if g.k == 'rel':
            if bad(g.a):
                return None
            r = ex.rnorm(st, g.a)
            op = g.b
            if r.is_const():
                return True if SX.holds(op, r.value()) else None
            if op == '!=' and ex.known(st, R.pprim(r.num)[0]):
                return True
            pnum = r.num
            if op not in ('==', '!='):
                for f, k in r.den.items():
                    if k % 2:
                        pnum = R.pmul(pnum, f.p)
            return ex.atom_z3((ex.NEG[op], pnum))
        if g.k == 'none':
            if isinstance(g.a, Rat):
                return self.real_goal(st, Goal('rel', g.a, '!=', ''))
            return z3.simplify(g.a) if not z3.is_false(z3.simplify(g.a)) else True
        if g.k == 'any':
            fs = []
            for r in g.a:
                if isinstance(r, Rat):
                    q = ex.rnorm(st, r)
                    if q.is_zero():
                        return True
                    fs.append(ex.pz3(q.num) != 0)
                else:
                    fs.append(z3.Not(r))
            return z3.And(*fs) if fs else None
        if g.k == 'b':
            f = z3.BoolVal(g.a) if isinstance(g.a, bool) else z3.simplify(g.a)
            if z3.is_true(f):
                return True
            if z3.is_false(f):
                return None
            return z3.Not(f)
        raise SX.Unsupported('goal')

    # z3's own verdict on the un-normalised terms, where it finishes quickly
    def raw_check(self, p, goals):
        if self.raw_budget <= 0 or R.POOL.sqrt or p.st.noise:
            return
        ex, st = self.ex, p.st
        memo = {}

        def conv(n):
            k = id(n)
            if k in memo:
                return memo[k]
            stack = [n]
            while stack:
                x = stack[-1]
                if id(x) in memo:
                    stack.pop()
                    continue
                if x is None:
                    raise KeyError
                if x[0] == 'c':
                    memo[id(x)] = z3.RealVal(str(x[1]))
                elif x[0] == 'v':
                    memo[id(x)] = ex.zvar(x[1])
                else:
                    todo = [y for y in x[1:] if id(y) not in memo]
                    if todo:
                        stack.extend(todo)
                        continue
                    a = [memo[id(y)] for y in x[1:]]
                    if x[0] == '+':
                        r = a[0] + a[1]
                    elif x[0] == '-':
                        r = a[0] - a[1]
                    elif x[0] == '*':
                        r = a[0] * a[1]
                    elif x[0] == '/':
                        r = a[0] / a[1]
                    elif x[0] == 'neg':
                        r = -a[0]
                    else:
                        raise KeyError
                    memo[id(x)] = r
                stack.pop()
            return memo[k]
        base = None
        for g in goals:
            if g.k != 'eq' or not isinstance(g.a, Rat) or not isinstance(g.b, Rat):
                continue
            if self.raw_budget <= 0:
                return
            t = time.time()
            try:
                d = conv((g.a - g.b).raw)
            except KeyError:
                continue
            if base is None:
                base = ex.real_constraints(st)
            self.res.raw_tried += 1
            r, m = self.solve(base + [d != 0], 700)
            if r == z3.unsat:
                self.res.raw_confirmed += 1
            self.raw_budget -= time.time() - t

    # candidates -------------------------------------------------------
    def candidates(self, st, g=None, n=10):
        """concrete inputs (bit patterns) satisfying the path condition, best first"""
        if not self.ex.real and g is WITNESS:
            for k in range(3):
                m = self.random_model(list(st.pc), k)
                if m is not None:
                    x = self.model_inputs(m)
                    if x is not None:
                        yield x
                        return
            r, m = self.solve(list(st.pc))
            if r == z3.sat:
                x = self.model_inputs(m)
                if x is not None:
                    yield x
            return
        wit = g is WITNESS
        if wit:
            g = None
        if not self.ex.real:
            r, m = self.solve(list(st.pc) + (list(self.e.fallback(Ctx(self.e), self.Ins)) if self.e.fallback else []))
            if r == z3.sat:
                x = self.model_inputs(m)
                if x is not None:
                    yield x
            for k in range(3):
                m = self.random_model(list(st.pc), k)
                if m is not None:
                    x = self.model_inputs(m)
                    if x is not None:
                        yield x
            return
        cands = []
        m = None
        if st.pc or (g is not None and g.guard):
            r, m = self.solve(list(st.pc) + (list(g.guard) if g is not None else []), 3000)
            if r != z3.sat:
                m = None
        subs = {v for v, _ in st.sub}
        names = R.POOL.names
        goal = None
        if g is not None and g.k == 'eq' and isinstance(g.a, Rat) and isinstance(g.b, Rat):
            goal = (self.ex.rnorm(st, g.a - g.b), g.b)
        lo, hi = self.e.search or (-4, 4)
        t0 = time.time()
        for k in range(400):
            if time.time() - t0 > 8:
                break
            env = {}
            wide = k > 200
            for i in range(len(names)):
                if i in subs or i in self.ex.derived:
                    continue
                q = self.rng.random()
                if st.noise and q < 0.5:
                    # values whose products and roots need more than 24 bits
                    lim = 14 if k % 2 else 26
                    env[i] = Fraction(self.rng.randint(1 << lim - 1, 1 << lim) | 1, self.rng.choice((1, 1, 64, 4096)))
                elif wide and q < 0.3:
                    env[i] = Fraction(self.rng.randint(4 * lo, 4 * hi), self.rng.choice((1, 2, 4)))
                elif q < 0.15 and k > 50:
                    env[i] = Fraction(0)
                else:
                    env[i] = Fraction(self.rng.randint(lo, hi))
            if not self.complete(st, env, m):
                continue
            ok = True
            for op, pp in st.rc:
                try:
                    if not SX.holds(op, R.peval(pp, env)):
                        ok = False
                        break
                except (KeyError, ZeroDivisionError):
                    ok = False
                    break
            if not ok:
                continue
            sc = 0
            if goal is not None:
                try:
                    d = abs(goal[0].eval(env))
                    if d == 0:
                        continue
                    sc = d / (1 + abs(goal[1].eval(env)) if not bad(goal[1]) else 1)
                except (KeyError, ZeroDivisionError):
                    continue
            x, exact = self.env_inputs(env, m)
            if x is None or (wit and not exact):
                continue
            cands.append((float(sc) + (1e6 if exact else 0), len(cands), x))
            if len(cands) >= 3 * n:
                break
        cands.sort(reverse=True)
        for _, _, x in cands[:n]:
            yield x
        if wit or (cands and goal is None):
            return
        base = self.ex.real_constraints(st)
        zs = [self.ex.zvar(i) for i in range(len(names)) if i not in subs and i not in self.ex.derived]
        rounds = [(0, None)]
        if goal is not None:
            rounds = [(2, 64), (1, 10 ** 4), (0, None)]
        for dist, lim in rounds:
            cs = list(base)
            if goal is not None:
                num = self.ex.pz3(goal[0].num)
                if dist and not goal[0].den:
                    cs.append(z3.Or(num >= dist, num <= -dist))
                else:
                    cs.append(num != 0)
            if lim:
                cs += [z3.And(z >= -lim, z <= lim) for z in zs]
            r, m = self.solve(cs, 4000)
            if r == z3.sat:
                env = {}
                for i, nm in enumerate(names):
                    env[i] = z3val(m.eval(self.ex.zvar(i), model_completion=True))
                self.complete(st, env, m)
                x, exact = self.env_inputs(env, m)
                if x is not None:
                    yield x

    def complete(self, st, env, m):
        try:
            for _ in range(2):
                for v, ex_ in reversed(st.sub):
                    try:
                        env[v] = ex_.eval(env)
                    except KeyError:
                        pass
                for i in sorted(self.ex.derived):
                    f = self.ex.derived[i]
                    if f is None:
                        if m is None:
                            return False
                        env[i] = z3val(m.eval(self.ex.zvar(i), model_completion=True))
                    else:
                        try:
                            env[i] = f(env)
                        except KeyError:
                            pass
        except (ZeroDivisionError, ValueError, OverflowError):
            return False
        return True

    def env_inputs(self, env, m):
        inp = {}
        exact = True
        for b in self.e.ins:
            out = []
            for v in self.vals[b.name]:
                if isinstance(v, Rat):
                    try:
                        x = v.eval(env)
                    except (ZeroDivisionError, KeyError):
                        return None, False
                    try:
                        f = float(x)
                    except OverflowError:
                        return None, False
                    if b.bits == 32:
                        f = SX.f32(f)
                    if f in (float('inf'), float('-inf')) or Fraction(f) != x:
                        exact = False
                        if f in (float('inf'), float('-inf')):
                            return None, False
                    out.append(SX.fbits(f, b.bits))
                elif v.__class__ is int:
                    out.append(v)
                elif v.__class__ is float:
                    out.append(SX.fbits(v, b.bits))
                elif isinstance(v, z3.ExprRef):
                    if m is None:
                        s = z3.Solver()
                        s.check()
                        m = s.model()
                    x = z3.simplify(m.eval(v, model_completion=True))
                    if not z3.is_bv_value(x):
                        return None, False
                    out.append(x.as_long())
                else:
                    return None, False
            inp[b.name] = out
        return inp, exact

    # reporting --------------------------------------------------------
    def report(self, p, g, what, soft=False, event=None):
        for inp in self.candidates(p.st, g):
            if self.confirm(inp, what, p, event=event):
                return True
        return False

    def confirm(self, inp, what, p, event=None):
        """run the real code on concrete inputs and judge the result by the spec"""
        if self.tried > 60:
            return False
        self.tried += 1
        e = self.e
        if not self.assumption_ok(inp):
            return False
        if event:
            v = self.replay.run_event(e, inp, event)
            if v:
                self.violate(inp, what, v)
                return True
            return False
        rr = self.replay.run(e, inp)
        v = judge(e, inp, rr)
        if v is None and p.outcome == 'ub':
            rr = self.replay.run_san(e, inp, 'uninit' in p.detail)
            if rr.get('san'):
                v = 'undefined behaviour: ' + rr['san']
        if v is None:
            return False
        if e.mode == 'real' and rr['outcome'] in ('ret', 'throw') and not rr.get('san'):
            if p.outcome == 'limit':
                return False
            if self.exact_ok(inp):
                self.res.notes.append('rounding only: ' + what)
                return False
        self.violate(inp, what, v)
        return True

    def exact_ok(self, inp):
        """do these inputs satisfy the spec in exact arithmetic? (then the deviation of the real run is rounding, which is not claimed)"""
        import os
        import signal
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                signal.alarm(30)
                rc = 0 if self._exact(inp) else 1
            except BaseException:
                rc = 1
            os._exit(rc)
        _, stt = os.waitpid(pid, 0)
        return os.WIFEXITED(stt) and os.WEXITSTATUS(stt) == 0

    def _exact(self, inp):
        e = self.e
        R.reset_pool()
        self.deadline = time.time() + 25
        ex = SX.Executor(Module(self.ll), mode='real', feas=e.feas, max_paths=50, feas_ms=e.feas_ms, dbl=e.dbl, deadline=self.deadline)
        ex.round_const = True
        self.ex = ex
        self.Ins = I = concrete_ins(e, inp)
        st = ex.initial()
        args = []
        for b in e.ins:
            a = ex.new_obj(st, b.count * b.bytes, 'input', b.name)
            o = st.mem[a >> 32]
            for k, v in enumerate(inp[b.name]):
                o.cells[k * b.bytes] = (b.bytes, cval(v, b, True) if b.kind == 'f' else v)
            args.append(a)
        for b in e.outs:
            a = ex.new_obj(st, b.count * b.bytes, 'output', b.name)
            args.append(a)
            self.outaddr[b.name] = a
        n = 0
        for p in ex.run(st, e.name, args):
            n += 1
            c = Ctx(e)
            c.feas = lambda cs: True
            conds = self.throw_conds(c, I)
            if p.outcome == 'throw':
                if e.any_throw and p.detail == e.exc:
                    continue
                if conds is None or p.detail != e.exc:
                    return False
                goals = [Goal('any', conds, None, '')]
            elif p.outcome == 'ret':
                O, raw = self.outputs(p.st)
                if e.spec:
                    e.spec(c, I, O)
                goals = c.goals + [Goal('none', t, None, '') for t in conds or []]
            else:
                return False
            base = None
            for g in goals:
                v = self.real_goal(p.st, g)
                if v is True:
                    continue
                if base is None:
                    base = ex.real_constraints(p.st)
                if v is None or self.solve(base + [v] + list(g.guard))[0] != z3.unsat:
                    return False
        return n > 0 and not ex.truncated

    def violate(self, inp, what, v):
        self.res.violations.append({'entry': self.e.name, 'symbolic': what, 'observed': v,
                                    'inputs': {b.name: [show(x, b) for x in inp[b.name]] for b in self.e.ins},
                                    'bits': inp})

    def assumption_ok(self, inp):
        e = self.e
        if not e.assume and not e.fallback:
            return True
        c = Ctx(e, True)
        I = concrete_ins(e, inp)
        if any(bad(v) for b in e.ins for v in b.flat(getattr(I, b.name))):
            return False
        for a in (list(e.assume(c, I)) if e.assume else []) + (list(e.fallback(c, I)) if e.fallback else []):
            if isinstance(a, tuple):
                if not SX.holds(a[0], a[1].value()):
                    return False
            elif not z3.is_true(z3.simplify(a)):
                return False
        return True

    # translation validation: the encoding must predict the real run ------
    def witness(self, p, raw):
        res = self.res
        k = res.paths.get(p.outcome, 0)
        if k > 2 or self.replay is None:
            return
        for inp in self.candidates(p.st, WITNESS, 1):
            rr = self.replay.run(self.e, inp)
            exp = 'throw' if p.outcome == 'throw' else 'ret'
            if rr['outcome'] != exp:
                if self.ex.real and rr['outcome'] in ('ret', 'throw') and self.exact_ok(inp):
                    return
                res.witness_bad.append('%s: expected %s got %s' % (self.e.name, exp, rr['outcome']))
                return
            if exp == 'ret':
                v = judge(self.e, inp, rr)
                if v is not None and not (self.ex.real and self.exact_ok(inp)):
                    res.witness_bad.append('%s: %s' % (self.e.name, v))
                    return
            res.witness_ok += 1
            if res.sample is None:
                res.sample = {'entry': self.e.name, 'inputs': {b.name: [show(x, b) for x in inp[b.name]][:12] for b in self.e.ins},
                              'outputs': {b.name: [show(x, b) for x in rr['outs'][b.name]][:12] for b in self.e.outs} if exp == 'ret' else exp}
            return


def input_dep(v):
    if isinstance(v, tuple):
        return any(input_dep(x) for x in v)
    if isinstance(v, Rat):
        return not v.is_const()
    return isinstance(v, z3.ExprRef) and not (z3.is_bv_value(v) or z3.is_fp_value(v) or z3.is_true(v) or z3.is_false(v))


def hash_name(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) & 0x7fffffff
    return h


def z3val(x):
    if z3.is_rational_value(x):
        return x.as_fraction()
    if z3.is_algebraic_value(x):
        return x.approx(30).as_fraction()
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    return Fraction(0)


def show(bits, b):
    if b.kind == 'f':
        f = SX.bitsf(bits, b.bits)
        return f if math.isfinite(f) else repr(f)
    return SX.sgn(bits, b.bits) if b.signed else bits


def cval(bits, b, real):
    if b.kind == 'f':
        f = SX.bitsf(bits, b.bits)
        if real:
            if f != f or f in (float('inf'), float('-inf')):
                return SX.Poison(repr(f))
            return Rat.const(Fraction(f))
        return z3.FPVal(f, z3.Float32() if b.bits == 32 else z3.Float64())
    return z3.BitVecVal(bits, b.bits)


def concrete_ins(e, inp):
    NS = type('NS', (), {})
    I = NS()
    for b in e.ins:
        setattr(I, b.name, b.nest([cval(x, b, e.mode == 'real') for x in inp[b.name]]))
    return I


def judge(e, inp, rr):
    """None if the concrete run satisfies the spec, else a description"""
    real = e.mode == 'real'
    c = Ctx(e, True)
    I = concrete_ins(e, inp)
    conds = list(e.throws(c, I)) if e.throws else None
    must = None
    if conds is not None:
        must = False
        for t in conds:
            if isinstance(t, Rat):
                must = must or t.is_zero()
            elif isinstance(t, bool):
                must = must or t
            else:
                must = must or z3.is_true(z3.simplify(t))
    oc = rr['outcome']
    if oc == 'timeout':
        if e.slow_ok:
            return None
        return 'does not terminate (10 s)'
    if oc == 'crash':
        return 'program terminates abnormally (%s)' % rr.get('detail', '')
    if oc == 'throw':
        if e.any_throw and '_ZTI' + rr['type'] == e.exc:
            return None
        if must and '_ZTI' + rr['type'] == e.exc:
            return None
        return 'throws %s' % rr['type'] + ('' if must is None else ' (expected %s)' % (e.exc if must else 'no exception'))
    if must:
        return 'no exception, outputs ' + outs_str(e, rr)
    NS = type('NS', (), {})
    O = NS()
    mx = Fraction(1)
    for b in e.outs:
        vs = [cval(x, b, real) for x in rr['outs'][b.name]]
        setattr(O, b.name, b.nest(vs))
        if real and b.kind == 'f':
            for v in vs:
                if isinstance(v, Rat):
                    mx = max(mx, abs(v.value()))
    if real:
        for b in e.ins:
            if b.kind == 'f':
                for v in b.flat(getattr(I, b.name)):
                    if isinstance(v, Rat):
                        mx = max(mx, abs(v.value()))
    if e.outspec:
        return e.outspec_concrete(I, rr)
    if e.spec:
        e.spec(c, I, O)
    for g in c.goals:
        r = concrete_goal(e, g, mx)
        if r is not None:
            return '%s: %s; outputs %s' % (g.label, r, outs_str(e, rr))
    return None


def outs_str(e, rr):
    return '; '.join('%s=%s' % (b.name, [show(x, b) for x in rr['outs'][b.name]][:40]) for b in e.outs)


def concrete_goal(e, g, mx):
    tol = Fraction(e.tol if e.tol is not None else (1e-9 if e.dbl else 1e-3))
    if g.k == 'eq':
        if isinstance(g.a, Rat) and isinstance(g.b, Rat):
            a, b = g.a.value(), g.b.value()
            if abs(a - b) > tol * max(abs(a), abs(b), mx):
                return 'got %s, expected %s' % (float(a), float(b))
            return None
        if bad(g.a) or bad(g.b):
            return None if (bad(g.a) and bad(g.b)) else 'got %r, expected %r' % (g.a, g.b)
        a, b = z3.simplify(g.a), z3.simplify(g.b)
        if isinstance(a, z3.FPRef):
            ok = z3.is_true(z3.simplify(z3.Or(z3.fpEQ(a, b), z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)))))
        else:
            ok = z3.is_true(z3.simplify(a == b))
        return None if ok else 'got %s, expected %s' % (a, b)
    if g.k == 'rel':
        if bad(g.a):
            return 'non-finite result'
        v = g.a.value()
        if SX.holds(g.b, v):
            return None
        if g.b in ('>=', '<=') and abs(v) <= tol * mx:
            return None
        if g.b == '==' and abs(v) <= tol * mx:
            return None
        return '%s %s 0 fails' % (float(v), g.b)
    if g.k in ('b', 'alt'):
        f = g.a[0] if g.k == 'alt' else g.a
        f = f if isinstance(f, bool) else z3.is_true(z3.simplify(f))
        return None if f else 'condition fails'
    return None
