"""Memory safety, initialised results, untouched arguments, termination."""
from .common import *

BOUNDS = ["the harnesses of C01-C18 (types, shapes and symbolic inputs as listed there, reduced families in the quick tier): on every path no access outside an object or beyond an "
          "array's own extent, no use of an uninitialised value, no write to an argument passed by const reference, no path longer than 4 million instructions",
          "det, inv, lu, chol, stddev and compare additionally in IEEE mode for n <= 4 with every bit pattern (NaN, infinities, denormals), every branch combination explored"]
ASSUMPTIONS = ["row/column arguments are within the matrix; order-based functions get no NaN; signed overflow and division of the most negative integer by -1 are excluded"]


def keep(tier):
    def f(m, e):
        size = max([b.count for b in e.ins + e.outs] or [1])
        if tier == 'quick':
            if m in ('c15', 'c16'):
                return size <= 4 or '_fix' in e.name or 'median3' in e.name or '_f_' in e.name and ('median1' in e.name or 'median2' in e.name)
            if m == 'c17':
                return size <= 4 or '_at_f' in e.name and 'compare' in e.name
            if m == 'c12':
                return '_d_' not in e.name and 'big' not in e.name
            if m == 'c09':
                return not e.contracts and '_d_' not in e.name and ('two' not in e.name)
            if m in ('c08', 'c10', 'c11', 'c13'):
                return '_d_' not in e.name and (size <= 64 or '_f_' in e.name)
            return size <= 64 and ('_f_' in e.name or '_i_' in e.name or '_u_' in e.name) or '_f_' in e.name
        return not e.contracts
    return f


def lazy(name, body, ins, outs, **kw):
    return Entry('ieee_' + name, body, ins, outs, None, mode='fp', feas='lazy', events=('instore', 'undef'), any_throw=True, max_paths=60000, budget=120, **kw)


def entries(tier):
    out = clones(tier, 'safe', ('instore', 'undef'), ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c16', 'c17', 'c18'], keep(tier))
    for t in ('float', 'double'):
        for n in (1, 2, 3, 4):
            A = M('A', t, n, n)
            out.append(lazy(nm('det', t, n), 'd = det(A);', [A], [S('d', t)]))
            out.append(lazy(nm('inv', t, n), 'X = inv(A);', [A], [M('X', t, n, n)]))
            out.append(lazy(nm('lu', t, n), 'auto r = lu(A); L = r.first; U = r.second;', [A], [M('L', t, n, n), M('U', t, n, n)]))
            out.append(lazy(nm('chol', t, n), 'L = chol(A);', [A], [M('L', t, n, n)]))
            out.append(lazy(nm('stat', t, n), 's = stddev(A); m = mean(A); y = isSymetric(A);', [A], [S('s', t), S('m', t), S('y', 'bool')]))
    return out
