"""Histogram and cumulative histogram."""
from .common import *

BOUNDS = ["element types int, float, double (every non-NaN bit pattern), unsigned char, unsigned, long, short; every assignment for matrices with up to 4 elements (int, float: 5 in the thorough tier); "
          "shapes up to 5x4 with up to 2 symbolic elements among fixed ones, 6x7 (42 distinct values) and 16x17 with one"]
ASSUMPTIONS = ["the red-black tree rebalancing of libstdc++ (std::_Rb_tree_insert_and_rebalance, increment, decrement) is modelled, not executed"]


def hs(t, r, c, cum, fixed=None, **kw):
    n = r * c
    fl = is_float(t)
    b0 = M('A', t, r, c)

    def build(k):
        out = [k.sym(b0, i) if v is None else v for i, v in enumerate(fixed)]
        return {'A': [out[i * c:(i + 1) * c] for i in range(r)]}

    def spec(k, I, O):
        xs = flat(I.A)
        for classes in k.weak_orders(xs, TYPES[t][2]):
            k.eq(O.sz, z3.BitVecVal(len(classes), 64), 'number of distinct values')
            tot = 0
            for q, cl in enumerate(classes):
                tot += len(cl)
                k.eq(O.keys[q], xs[cl[0]], 'key %d' % q)
                k.eq(O.cnt[q], z3.BitVecVal(tot if cum else len(cl), 64), 'count %d' % q)
    body = 'for (std::size_t q = 0; q < %d; q++) { keys[q] = 0; cnt[q] = 0; }\n  const auto h = %s(A); sz = h.size(); std::size_t q = 0;\n  for (const auto& p : h) { keys[q] = p.first; cnt[q] = p.second; q++; }' % (
        n, 'cumulative_histogram' if cum else 'histogram')
    return Entry(nm(('cum' if cum else 'hist') + ('_fix' if fixed else ''), t, r, c), body, [b0], [S('sz', 'std::size_t'), V('keys', t, n), V('cnt', 'std::size_t', n)], spec,
                 assume=(lambda k, I: [z3.Not(z3.fpIsNaN(x)) for x in flat(I.A)]) if fl else None, build=build if fixed else None, weight=n ** 3, max_paths=20000, **kw)


def entries(tier):
    from .c15 import fixed
    out = []
    sh = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4)] + ([(1, 5), (5, 1)] if tier == 'thorough' else [])
    for cum in (False, True):
        for t in ('int', 'float', 'double', 'unsigned char', 'unsigned', 'long', 'short'):
            for r, c in sh:
                if r * c > 3 and t not in ('int', 'float') and tier == 'quick':
                    continue
                out.append(hs(t, r, c, cum, budget=120))
        for t in ('int', 'float'):
            out.append(hs(t, 3, 3, cum, fixed(9, (4,), 1)))
            out.append(hs(t, 3, 4, cum, [3, None, 7, 3, 3, -2, 7, 9, None, 0, -2, 3]))
            out.append(hs(t, 5, 4, cum, fixed(20, (0, 19), 2), budget=150))
            out.append(hs(t, 6, 7, cum, [None if i == 30 else (i * 11) % 42 - (9 if t != 'unsigned char' else 0) for i in range(42)], budget=150))
            out.append(hs(t, 16, 17, cum, [None if i == 100 else (7 if i % 90 == 3 else 2) for i in range(272)], budget=150))
    return out
