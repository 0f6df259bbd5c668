"""No dynamic memory allocation."""
from .common import *

BOUNDS = ["the harnesses of C01-C15, C17 and C18 (everything except histogram and print), shapes up to 33x33 and 300x1 (65x65 in the thorough tier): no path on which the call returns allocates heap memory; "
          "raising an exception is not counted"]


def keep(tier):
    def f(m, e):
        if tier == 'quick':
            size = max([b.count for b in e.ins + e.outs] or [1])
            if m in ('c12',):
                return '_d_' not in e.name and 'big' not in e.name and 'm' not in e.name.split('_i_')[-1]
            if m in ('c08', 'c09'):
                return '_f_' in e.name and not e.contracts and not ('two' in e.name) or size <= 9
            if m == 'c15':
                return size <= 4 or ('median2' in e.name or 'median1' in e.name) and '_f_' in e.name
            if m == 'c17':
                return size <= 4 or '_at_f' in e.name
            return '_f_' in e.name or size in (1, 6)
        return not e.contracts
    return f


def entries(tier):
    return clones(tier, 'heap', ('heap',), ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c17', 'c18'], keep(tier))
