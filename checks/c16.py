"""C16: acquisition values."""
from .common import *

LEVEL = 'proof'
TECHNIQUE = TECH + 'acquisition functions, direct and through the name dispatcher'
NOTE = ('All six acquisition functions, for any number of candidates, any responses, non-negative predictive deviations, with default and explicit options: '
        'value graph equals the closed form; choose_fun_acquisition(name) applied to (mean, std, responses) equals that closed form. Real arithmetic.')
F = 'bayeso/acquisition.py'


def ms(h):
    return [h.arr('mean', k), h.arr('std', k, sign='nonneg')]


def Y(h):
    return h.arr('Y', n, 1)


CASES = [
    ('pi', lambda h: (ms(h) + [Y(h)], {})), ('pi.jitter', lambda h: (ms(h) + [Y(h)], {'jitter': h.fl('jit', 'pos')})),
    ('ei', lambda h: (ms(h) + [Y(h)], {})), ('ei.jitter', lambda h: (ms(h) + [Y(h)], {'jitter': h.fl('jit', 'pos')})),
    ('ucb', lambda h: (ms(h) + [Y(h)], {})), ('ucb.none', lambda h: (ms(h), {})),
    ('ucb.kappa', lambda h: (ms(h) + [Y(h)], {'kappa': h.fl('kap', 'pos')})),
    ('ucb.const', lambda h: (ms(h) + [Y(h)], {'kappa': h.fl('kap', 'pos'), 'increase_kappa': False})),
    ('ucb.none.kappa', lambda h: (ms(h), {'kappa': h.fl('kap', 'pos'), 'increase_kappa': True})),
    ('aei', lambda h: (ms(h) + [Y(h), h.fl('noise', 'pos')], {})),
    ('aei.jitter', lambda h: (ms(h) + [Y(h), h.fl('noise', 'pos')], {'jitter': h.fl('jit', 'pos')})),
    ('pure_exploit', lambda h: (ms(h)[:1], {})), ('pure_explore', lambda h: (ms(h)[1:], {})),
]


def case(nm, mk):
    f = nm.split('.')[0]
    return lambda o: o.fn(nm, 'bayeso.acquisition.' + f, 'spec.acq.' + f, mk)


def disp(nm):
    def go(o):
        h = o.h()
        f = h.call('bayeso.utils.utils_bo.choose_fun_acquisition', [nm], {'noise': h.fl('noise', 'pos')} if nm == 'aei' else {})
        if not o.returns('choose', f):
            return
        r = h.call(f.val, ms(h) + [Y(h)])
        if not o.returns('dispatched call', r):
            return
        a = {'aei': ms(h) + [Y(h), h.fl('noise', 'pos')], 'pure_exploit': ms(h)[:1], 'pure_explore': ms(h)[1:]}.get(nm, ms(h) + [Y(h)])
        s = h.call('spec.acq.' + nm, a)
        o.eq(f'choose_fun_acquisition({nm})', r.enc, s.enc, r.pc)
        # also as called with keyword arguments
        if nm in ('pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore'):
            x = ms(h)
            r = h.call(f.val, [], {'pred_mean': x[0], 'pred_std': x[1], 'Y_train': Y(h)})
            if o.returns('dispatched keyword call', r):
                o.eq(f'choose_fun_acquisition({nm}) keywords', r.enc, s.enc, r.pc)
    return go


def build(c):
    for nm, mk in CASES:
        c.add('acq.' + nm, f'{F}:{nm.split(".")[0]}', case(nm, mk))
    for nm in ('pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore'):
        c.add('dispatch.' + nm, 'bayeso/utils/utils_bo.py:choose_fun_acquisition', disp(nm))
