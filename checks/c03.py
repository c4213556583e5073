"""C03: no repeated query while a new candidate exists."""
from .runlib import *
from .c02 import run as c02run

LEVEL = 'proof'
TECHNIQUE = TECH + 'the filtering loop is closed into an existence condition per candidate, the selection loop into an arg-min over the surviving candidates; runs are recurrences'
NOTE = ('get_next_best_acquisition for an arbitrary number of candidates, evaluated points and dimensions equals "best candidate that is within 1e-8 of no evaluated point, else the last evaluated point"; '
        'every run loop (class and function API) applies it exactly when the proposal is within 1e-8 of an evaluated point and otherwise queries the proposal unchanged. Acquisition values are assumed finite.')
q = T.dim('q')


def unit(sh):
    def go(o):
        qq, nn, dd = sh
        one = lambda x: T.num(1) if x == 1 else x
        o.fn('best new candidate or the last evaluated point', 'bayeso.utils.utils_bo.get_next_best_acquisition', 'spec.bo.next_best',
             lambda h: ([h.arr('P', one(qq), one(dd)), h.arr('A', one(qq)), h.arr('E', one(nn), one(dd))], {}))
    return go


def loop(kind, sur):
    def go(o):
        h = o.h(OPTS)
        f = target(h, False)
        X, Y = h.arr('X', n, d), h.arr('Y', n, 1)
        one = h.it.const(1) if hasattr(h.it, 'const') else Sc(T.num(1), 'int')
        if kind == 'class':
            M = h.new(WC, [bounds(h), f, one], dict(str_surrogate=sur, **({'str_optimizer_method_bo': 'random_search'} if sur == 'rf' else {})))
            a = h.call(h.meth(M, 'optimize_with_all_initial_information'), [X, Y])
        else:
            a = h.call(WF + 'run_single_round_with_all_initial_information', [bare(h, sur), f, X, Y, one])
        if not o.returns('one iteration', a) and a.dead:
            return
        s = h.call('spec.bo.run', [bare(h, sur), f, X, Y, one, kws(h, sur)])
        o.eq('one iteration: queried point', h.it.enc(a.val[0]), h.it.enc(s.val[0]), band(a.pc, s.pc))
        o.eq('one iteration: evaluated point', h.it.enc(a.val[1]), h.it.enc(s.val[1]), band(a.pc, s.pc))
    return go


def build(c):
    for sh in ((q, n, d), (1, n, d), (q, 1, d), (q, n, 1), (1, 1, 1)):
        c.add('filter.' + '.'.join('1' if x == 1 else T.show(x) for x in sh), 'bayeso/utils/utils_bo.py:get_next_best_acquisition', unit(sh))
    for sur in ('gp', 'tp', 'rf'):
        c.add(f'step.class.{sur}', 'bayeso/wrappers/wrappers_bo_class.py:optimize_with_all_initial_information', loop('class', sur))
        c.add(f'run.class.{sur}', 'bayeso/wrappers/wrappers_bo_class.py:optimize_with_all_initial_information', c02run(('c', 'all'), sur, False))
    c.add('step.fun', 'bayeso/wrappers/wrappers_bo_function.py:run_single_round_with_all_initial_information', loop('fun', 'gp'))
    c.add('run.fun', 'bayeso/wrappers/wrappers_bo_function.py:run_single_round_with_all_initial_information', c02run(('f', 'all'), 'gp', False))
