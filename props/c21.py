"""Results depend on the arguments only: call histories and static storage."""
from .common import *
from engine.spec import bad
import copy
import importlib

BOUNDS = ["histories of three calls f(X), f(Y), f(X) of the same operation, X symbolic, Y symbolic for branch-free operations and fixed for det/inv/lu/pow/median/histogram/compare: the two results for X agree and no value derived from an argument remains in static storage; "
          "one or two shapes per operation and element type",
          "on the float harnesses of C01-C18 (sizes up to 9 elements and above 24, up to 33x33), no path writes to storage that outlives the call (static, global), so concurrent calls on distinct objects cannot interfere"]
ASSUMPTIONS = ["concurrency is decided through the absence of writes to shared storage on every path, not by exploring interleavings"]

PICK = {
    'c01': ['ew_f_1x1', 'ew_f_2x3', 'ew_i_2x2'], 'c02': None, 'c03': ['prod_f_2x2x2', 'prod_f_3x3x3', 'prod_i_2x3x2', 'strassen_f_2', 'strassen_f_2x2x2', 'mult_f_2x3x2', 'prod_d_2x2x2', 'prod_f_1x4x4'],
    'c04': None, 'c05': None, 'c06': ['cons_f_2x3', 'cons_i_3x3', 'eye_f_3', 'eye_i_2', 'uones_u_2x3', 'eye_d_4'], 'c07': ['swap_rows_f_3x3', 'swap_cols_f_2x3', 'minor_f_3', 'minor_i_4'],
    'c08': ['det_f_1', 'det_f_2', 'det_f_3', 'det_f_4', 'det_d_3', 'det_i_2', 'det_i_3'], 'c09': ['inv_f_1', 'inv_f_2', 'inv_f_3', 'inv_f_4', 'inv_d_2'],
    'c10': ['lu_f_2', 'lu_f_3', 'lu_f_4', 'lu_d_3'], 'c11': [], 'c12': ['pow_f_2_i_0_8', 'pow_f_2_i_m6_m1', 'pow_i_2_i_0_5', 'pow_d_3_i_0_5'],
    'c13': ['conv_f_2x3', 'conv_f_3x3', 'conv_i_4x4', 'conv_f_5x4'], 'c14': ['mv_f_2x2', 'mv_f_2x3', 'mv_d_3x3', 'sd_f_2x2', 'meani_i_2x2'],
    'c15': ['median_f_1x3', 'median_i_2x2', 'median_f_2x2', 'median_d_1x3'], 'c16': ['hist_i_1x3', 'hist_f_1x2', 'cum_i_1x3', 'cum_f_1x2'],
    'c17': ['compare_f_2x1', 'compare_d_1x2', 'ident_f_2', 'ident_i_3', 'symm_f_3', 'symm_i_4'], 'c18': ['abs_f_2x3', 'abs_i_2x2', 'abs_d_1x1'],
}
HEAVY = ('c02', 'c08', 'c09', 'c10', 'c12', 'c15', 'c16', 'c17', 'c07')


def const_for(b, i):
    if b.shape == ():
        return 2 if b.kind == 'i' and b.ty != 'std::size_t' else 1
    return ((i * 3 + i // max(1, b.shape[-1]) * 5) % 7) - 2 if b.signed else (i * 3) % 7


def twice(e, heavy):
    """first(A2); second(A); third(A2): the third result must equal the first, and nothing input-dependent may remain in static storage"""
    x = copy.copy(e)
    x.name = 'hist_' + e.name
    ins2, outs0, outs1 = [], [], []
    for b in e.ins:
        c = copy.copy(b)
        c.name = b.name + '2'
        ins2.append(c)
    for b in e.outs:
        for sfx, l in (('0', outs0), ('1', outs1)):
            c = copy.copy(b)
            c.name = b.name + sfx
            l.append(c)
    x.ins = e.ins + ins2
    x.outs = e.outs + outs0 + outs1
    sig = ', '.join(['const %s& %s' % (b.cxx(), b.name) for b in e.ins] + ['%s& %s' % (b.cxx(), b.name) for b in e.outs])
    x.pre = (e.pre + '\n' if e.pre else '') + 'static void once_%s(%s)\n{\n  %s\n}\n' % (x.name, sig, e.body)
    x.body = 'once_%s(%s);\n  once_%s(%s);\n  once_%s(%s);' % (
        x.name, ', '.join(b.name for b in ins2 + outs0), x.name, ', '.join(b.name for b in e.ins + e.outs), x.name, ', '.join(b.name for b in ins2 + outs1))
    x.events = ('gstore', 'gdep')
    x.exact = None
    x.throws = None
    x.any_throw = True
    x.triple = (len(e.ins), len(e.outs))

    def spec(k, I, O):
        for b in e.outs:
            for n, (p, q) in enumerate(zip(b.flat(getattr(O, b.name + '0')), b.flat(getattr(O, b.name + '1')))):
                if not bad(p) and not bad(q):
                    k.eq(q, p, 'repeated call %s[%d]' % (b.name, n))
    x.spec = spec
    if heavy:
        x.build = lambda k: {b.name: b.nest([const_for(b, i) for i in range(b.count)]) for b in e.ins}
    if e.assume:
        def assume(k, I, f=e.assume):
            out = list(f(k, second(e, I)))
            if not heavy or k.concrete:
                out += list(f(k, I))
            return out
        x.assume = assume
    if e.fallback:
        x.fallback = lambda k, I, f=e.fallback: list(f(k, I)) + list(f(k, second(e, I)))
    return x


def second(e, I):
    J = type('NS', (), {})()
    for b in e.ins:
        setattr(J, b.name, getattr(I, b.name + '2'))
    return J


def glob(m, e):
    size = max(b.count for b in e.ins + e.outs)
    if e.contracts or '_f_' not in e.name:
        return False
    if m in ('c07', 'c17'):
        return size <= 9 and 'compare' not in e.name or 'far' in e.name or '_at_f' in e.name and size > 64
    if m == 'c12':
        return 'big' not in e.name and ('pow_' in e.name or size <= 4)
    if m == 'c15':
        return size <= 4 or 'median2' in e.name or 'median1' in e.name
    if m == 'c16':
        return size <= 3 or size > 9
    return size <= 9 or size > 24


def entries(tier):
    out = []
    for m, names in PICK.items():
        es = importlib.import_module('props.' + m).entries('quick')
        if names is None:
            seen = {}
            names = []
            for e in es:
                p = e.name.split('_')
                key = (p[0], p[1] if len(p[1]) > 1 else '', '_f_' in e.name)
                size = max(b.count for b in e.ins + e.outs)
                if ('_f_' in e.name or '_i_' in e.name) and 4 <= size <= 12 and seen.get(key, 0) < 2:
                    seen[key] = seen.get(key, 0) + 1
                    names.append(e.name)
        for e in es:
            if e.name in names and not e.build:
                out.append(twice(e, m in HEAVY))
                out[-1].merge = m != 'c12' and out[-1].merge
    return out + clones(tier, 'glob', ('gstore',), ['c%02d' % i for i in range(1, 19)], glob)
