"""C04: the proposal is the best reported candidate."""
from .runlib import *

LEVEL = 'proof'
TECHNIQUE = TECH + 'running minima over candidates closed into arg-min terms; optimiser calls are terms of objective, start and bounds; posteriors summarised row-wise (C14), transparent when that boundary moved'
NOTE = ('For every surrogate, acquisition, sampling method, acquisition optimiser (with its package present), fitting mode, prior mean, data size and number of candidates: proposal = reported candidate of smallest score, '
        'reported scores = scores of the reported candidates in order under the reported factor and hyperparameters; one local optimisation per sampled start, from that start; '
        'Thompson sampling proposes the arg-min of its draw; get_best_acquisition_by_evaluation / by_history equal their definitions. Scores are assumed finite; ties are resolved to the first.')
I = {'scipydirect': True, 'cma': True}
UB = 'bayeso.utils.utils_bo.'


def configs(c):
    out = [Cfg('gp', a) for a in ACQ] + [Cfg('gp', samp=s) for s in SAMPLING] + [Cfg('gp', samp='grid', dim=T.num(2)), Cfg('gp', opt='DIRECT'), Cfg('gp', opt='CMA-ES', dim=T.add(d, T.num(1))),
           Cfg('gp', mode='combined'), Cfg('gp', mode='converged'), Cfg('gp', mu=True, ard=False)]
    out += [Cfg('tp', a) for a in ACQ] + [Cfg('tp', mu=True, ard=False, fitm='L-BFGS-B'), Cfg('tp', opt='DIRECT'), Cfg('tp', opt='CMA-ES', dim=T.add(d, T.num(1))), Cfg('tp', samp='uniform')]
    out += [Cfg('rf', a) for a in ACQ] + [Cfg('rf', samp=s) for s in SAMPLING] + [Cfg('rf', samp='grid', dim=T.num(2))]
    if c.thorough:
        out += [Cfg(s, a, samp=m, opt=p, dim=T.add(d, T.num(1))) for s in ('gp', 'tp') for a in ACQ for m in SAMPLING for p in OBO]
    return out


def prop(cf):
    def go(o):
        def run(o, lv):
            h = o.h(lv, I)
            it = h.it
            a = cf.run(h, cf.model(h))
            if a.dead:
                o.returns('optimize', a)
                return
            X, Y = cf.data(h)
            mu = mu_user(h, cf.mu)
            if cf.sur == 'rf':
                s = h.call('spec.bo.rf_reported', [X, a.val[1], cf.acq])
            else:
                s = h.call(f'spec.bo.{cf.sur}_reported', [X, a.val[1], cf.cov, cf.acq, mu])
            pre = band(a.pc, s.pc)
            o.eq('reported scores are those of the reported candidates', it.enc(it.getitem(a.val[1], 'acquisitions')), it.enc(s.val[1]), pre)
            o.eq('proposal = best reported candidate', it.enc(a.val[0]), it.enc(s.val[0]), pre)
            r = cf.ref(h)
            pre = band(a.pc, r.pc)
            o.eq('candidates: one per start, optimised from that start within the search space', it.enc(it.getitem(a.val[1], 'next_points')), it.enc(it.getitem(r.val[1], 'next_points')), pre)
        o.tiers([LEVELS, LEVELS2], run)
    return go


def evaluation(vec):
    def go(o):
        o.fn('get_best_acquisition_by_evaluation', UB + 'get_best_acquisition_by_evaluation', 'spec.bo.best_by_evaluation',
             lambda h: ([h.arr('P', n, d), h.user('f', (lambda it, a: [T.num(1)]) if vec else None)], {}))
    return go


def history(o):
    o.fn('get_best_acquisition_by_history', UB + 'get_best_acquisition_by_history', 'spec.misc.best_by_history', lambda h: ([h.arr('X', n, d), h.arr('Y', n, 1)], {}))


PWO = 'bayeso.gp.gp.predict_with_optimized_hyps'
SF = 'bayeso.gp.gp.sample_functions'


def pwo(it, b):
    ea = argsenc(it, b, ('debug',))
    it.note('fit', {q: it.enc(v) for q, v in b.items()})
    mm = toarr(it, b['X_test']).shape[0]
    mk = lambda nm, *sh: it.newarr(mkarr(list(sh), lambda *ix: mk_el(node('app', nm, *ea), ix)))
    return (mk('pwo.mean', mm, T.num(1)), mk('pwo.std', mm, T.num(1)), mk('pwo.cov', mm, mm))


def sf(it, b):
    """a draw from the given mean and covariance; it may fail, each time independently.  The diagonal is left out: a retry adds jitter to it"""
    ex = toarr(it, b['Sigma'])
    i, j = T.fresh(), T.fresh()
    mm = toarr(it, b['mu']).shape[0]
    T.set_range(i, mm)
    T.set_range(j, mm)
    off = T.mk_lam([i, j], [mm, mm], ite(T.eq(i, j), T.num(0), ex.el(i, j)))
    it.note('draw', ('sample_functions', {q: it.enc(v) for q, v in b.items()}))
    k = it.sfcount = getattr(it, 'sfcount', 0) + 1
    it.may_raise(T.cond_atom('unusable', k), 'ValueError')
    base = node('app', 'sf', it.enc(b['mu']), off)
    N = b['num_samples'].n if isinstance(b['num_samples'], Sc) else T.num(b['num_samples'])
    return it.newarr(mkarr([N, mm], lambda *ix: mk_el(base, ix)))


def sf_ok(it, b):
    """a draw that succeeds, from the given mean and covariance"""
    mm = toarr(it, b['mu']).shape[0]
    it.note('draw', ('sample_functions', {q: it.enc(v) for q, v in b.items()}))
    base = node('app', 'sf', it.enc(b['mu']), it.enc(b['Sigma']))
    N = b['num_samples'].n if isinstance(b['num_samples'], Sc) else T.num(b['num_samples'])
    return it.newarr(mkarr([N, mm], lambda *ix: mk_el(base, ix)))


SAMPS = 'bayeso.bo.base_bo.BaseBO.get_samples'


def samps(it, b):
    ea = argsenc(it, b, ('self',))
    R = toarr(it, it.getattr(b['self'], 'range_X'))
    it.note('samples', {q: it.enc(v) for q, v in b.items() if q != 'self'})
    N = b['num_samples'].n if isinstance(b['num_samples'], Sc) else T.num(b['num_samples'])
    return it.newarr(mkarr([N, R.shape[0]], lambda *ix: mk_el(node('app', 'samples', *ea), ix)))


def thompson(samp):
    def go(o):
        h = o.h({PWO: pwo, SF: sf, SAMPS: samps})
        pre = okbox(h)
        X, Y = h.arr('X', n, d), h.arr('Y', n, 1)
        a = h.call(TSI, [bounds(h), X, Y], dict(normalize_Y=h.flag('norm'), str_sampling_method=samp, num_samples=h.int('N', 1)), pre)
        ok = FALSE
        for q in range(1, 5):
            ok = bor(ok, bnot(T.cond_atom('unusable', q)))
        if not o.returns('thompson_sampling_gp_iteration', a, band(pre, ok)) and a.dead:
            return
        P = h.call(h.meth(h.new('bayeso.bo.BOwGP', [bounds(h)]), 'get_samples'), [samp], dict(num_samples=h.int('N', 1)), pre)
        h.it.sfcount = 1000
        s = h.call('spec.bo.thompson_point', [P.val, X, Y, h.flag('norm')], {}, band(pre, bnot(T.cond_atom('unusable', 1001))))
        p = band(band(a.pc, s.pc), band(pre, bnot(T.cond_atom('unusable', 1001))))
        o.eq('proposal = candidate minimising the sampled function', a.enc, s.enc, p)
        h = o.h({PWO: pwo, SF: sf_ok, SAMPS: samps})
        pre = okbox(h)
        X, Y = h.arr('X', n, d), h.arr('Y', n, 1)
        a = h.call(TSI, [bounds(h), X, Y], dict(normalize_Y=h.flag('norm'), str_sampling_method=samp, num_samples=h.int('N', 1)), pre)
        P = h.call(h.meth(h.new('bayeso.bo.BOwGP', [bounds(h)]), 'get_samples'), [samp], dict(num_samples=h.int('N', 1)), pre)
        s = h.call('spec.bo.thompson_point', [P.val, X, Y, h.flag('norm')], {}, pre)
        o.eq('a draw that succeeds at once is one from the posterior itself', a.enc, s.enc, band(band(a.pc, s.pc), pre))
    return go


def build(c):
    for cf in configs(c):
        c.add('optimize.' + str(cf) + '.' + T.show(cf.dim), f'bayeso/bo/bo_w_{dict(gp="gp", tp="tp", rf="trees")[cf.sur]}.py:optimize', prop(cf))
    for vec in (False, True):
        c.add(f'evaluation.{vec}', 'bayeso/utils/utils_bo.py:get_best_acquisition_by_evaluation', evaluation(vec))
    c.add('history', 'bayeso/utils/utils_bo.py:get_best_acquisition_by_history', history)
    for samp in ('uniform', 'sobol'):
        c.add(f'thompson.{samp}', 'bayeso/thompson_sampling.py:thompson_sampling_gp_iteration', thompson(samp))
