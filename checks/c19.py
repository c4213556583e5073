"""C19: summaries of finished runs."""
from .common import *
from sa.values import i_

LEVEL = 'proof'
TECHNIQUE = TECH + 'running minima and cumulative sums closed as reductions'
NOTE = ('get_minimum for any number of rounds (one round separately), any number of initial points >= 1 and evaluations; get_time for any number of rounds and iterations with and without initial evaluations; '
        'get_grids for any grid size and dimension 1 to 4 (thorough 5), arbitrary ordered bounds (get_best_acquisition_by_history: C04). Real arithmetic.')
U = 'bayeso.utils.utils_common.'
r, ni, t = T.dim('r'), T.dim('ni'), T.dim('t')


def minimum(rounds, init):
    def go(o):
        rr = T.num(1) if rounds == 1 else T.add(r, T.num(1))
        nn = ni if init is None else T.num(init)
        o.fn('best so far, mean, deviation, standard error', U + 'get_minimum', 'spec.misc.best_so_far', lambda h: ([h.arr('Y', rr, T.add(nn, t)), h.dimv(nn)], {}))
    return go


def times(inc):
    def go(o):
        for nn in (ni, T.num(1), T.num(0)):
            o.fn('time curve', U + 'get_time', 'spec.misc.times', lambda h: ([h.arr('time', r, T.add(nn, t)), h.dimv(nn), inc], {}))
            o.fn('time curve of one round', U + 'get_time', 'spec.misc.times', lambda h: ([h.arr('time', 1, T.add(nn, t)), h.dimv(nn), inc], {}))
    return go


def orders(dd):
    """nesting orders of the dimensions, the implemented one first"""
    import itertools
    first = (1, 0) + tuple(range(2, dd)) if dd > 1 else (0,)
    return [first] + [p for p in itertools.permutations(range(dd)) if p != first]


def grids(dd):
    def go(o):
        from .bolib import okbox
        h = o.h()
        pre = okbox(h, T.num(dd))
        a = h.call(U + 'get_grids', [h.arr('R', dd, 2), h.int('N', 1)])
        if not o.returns('get_grids', a, pre) and a.dead:
            return
        rs = []
        for perm in orders(dd):
            s = h.call('spec.bo.grid_order', [h.arr('R', dd, 2), h.int('N', 1), h.it.newlist([i_(q) for q in perm])])
            rs.append((same(a.enc, s.enc, band(a.pc, s.pc), seconds=10), s))
            if rs[-1][0]:
                break
        o.put('every combination of grid values once', rs[-1][0] if rs[-1][0] else rs[0][0], a.enc, (rs[-1] if rs[-1][0] else rs[0])[1].enc)
    return go


def build(c):
    for rd in (1, 2):
        for init in (None, 1):
            c.add(f'minimum.{rd}.{init}', 'bayeso/utils/utils_common.py:get_minimum', minimum(rd, init))
    for inc in (True, False):
        c.add(f'time.{inc}', 'bayeso/utils/utils_common.py:get_time', times(inc))
    for dd in (1, 2, 3, 4) + ((5,) if c.thorough else ()):
        c.add(f'grids.{dd}', 'bayeso/utils/utils_common.py:get_grids', grids(dd))
