"""C18: response normalisation."""
from .common import *

LEVEL = 'proof'
TECHNIQUE = TECH + 'normalisation as a gated affine map'
NOTE = ('normalize_min_max for any number of rows and columns: affine onto [0, 10] when the responses differ, identity otherwise (value-graph equality with the reference), '
        'no write to the argument.  How the loops use it is covered by C05.')


def norm(o):
    for cols in (1, None):
        o.fn(f'normalize_min_max ({"one column" if cols else "any columns"})', 'bayeso.utils.utils_bo.normalize_min_max', 'spec.misc.normalize',
             lambda h: ([h.arr('Y', n, cols or m)], {}))


def pure(o):
    h = o.h()
    r = h.call('bayeso.utils.utils_bo.normalize_min_max', [h.arr('Y', n, 1)])
    o.true('argument not written', not r.muts, str(r.muts[:1]))


def build(c):
    c.add('normalize', 'bayeso/utils/utils_bo.py:normalize_min_max', norm)
    c.add('pure', 'bayeso/utils/utils_bo.py:normalize_min_max', pure)
