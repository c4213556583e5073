"""C15: hyperparameter fitting objectives."""
from .common import *
from . import opaque as Q
from .c10 import data

LEVEL = 'proof'
TECHNIQUE = TECH + 'training covariance, factor and gradient layers are uninterpreted (covered by C10/C13)'
NOTE = ('neg_log_ml (Cholesky and inverse branches, with and without gradient), leave-one-out pseudo-likelihood and Student-t neg_log_ml, arbitrary data and kernels: value and '
        'gradient equal the closed forms; kernel fitting hands that objective, the right starting vector and bounds to the optimiser and returns the matching covariance. Real arithmetic.')
G = 'bayeso.gp.gp_likelihood.'
TT = 'bayeso.tp.tp_likelihood.'


def vec(h, tp, ard, fix):
    L = T.num((0 if fix else 1) + (1 if tp else 0) + 1)
    return h.arr('v', T.add(L, d if ard else T.num(1)), sign='')


def scal(h, x):
    return h.it.enc(x)


def flat(h, o):
    """0-d / (1,1) results as scalars"""
    return o.enc


def ml(name, ard, fix, chol, grad):
    def go(o):
        h = o.h(Q.FAC)
        a = h.call(G + 'neg_log_ml', [data(h, name), h.arr('Y', n, 1), vec(h, False, ard, fix), name, h.arr('mu', n, 1)],
                   {'use_ard': ard, 'fix_noise': fix, 'use_cholesky': chol, 'use_gradient': grad})
        if not o.returns('neg_log_ml', a):
            return
        if chol:
            s = h.call('spec.gp.gp_nll_chol', [data(h, name), h.arr('Y', n, 1), vec(h, False, ard, fix), name, h.arr('mu', n, 1), ard, fix, grad])
        else:
            s = h.call('spec.gp.gp_nll_inv', [data(h, name), h.arr('Y', n, 1), vec(h, False, ard, fix), name, h.arr('mu', n, 1), ard, fix])
        o.eq('objective' + (' and gradient' if chol and grad else ''), a.enc, s.enc, a.pc)
    return go


def loo(name, ard, fix):
    def go(o):
        h = o.h(Q.FAC)
        a = h.call(G + 'neg_log_pseudo_l_loocv', [data(h, name), h.arr('Y', n, 1), vec(h, False, ard, fix), name, h.arr('mu', n, 1)],
                   {'fix_noise': fix, 'use_ard': ard})
        if not o.returns('neg_log_pseudo_l_loocv', a):
            return
        s = h.call('spec.gp.gp_loo', [data(h, name), h.arr('Y', n, 1), vec(h, False, ard, fix), name, h.arr('mu', n, 1), ard, fix])
        o.eq('leave-one-out objective', a.enc, s.enc, a.pc)
    return go


def tml(name, ard, fix, grad):
    def go(o):
        h = o.h(Q.FAC)
        a = h.call(TT + 'neg_log_ml', [data(h, name), h.arr('Y', n, 1), vec(h, True, ard, fix), name, h.arr('mu', n, 1)],
                   {'use_ard': ard, 'fix_noise': fix, 'use_gradient': grad})
        q = mk_el(node('arr', 'v', ''), (T.num(0 if fix else 1),))
        pre = T.lt(T.num(2), q)
        if not o.returns('neg_log_ml', a, pre):
            return
        ss = [h.call('spec.gp.tp_nll', [data(h, name), h.arr('Y', n, 1), vec(h, True, ard, fix), name, h.arr('mu', n, 1), ard, fix, grad, h.c(z)]) for z in (0.5, 1.0)]
        if grad:
            o.eq('objective', h.it.enc(a.val[0]), h.it.enc(ss[0].val[0]), band(a.pc, pre))
            o.eq_known('gradient', h.it.enc(a.val[1]), h.it.enc(ss[0].val[1]), h.it.enc(ss[1].val[1]), 'KF-C15-digamma', band(a.pc, pre))
        else:
            o.eq('objective', a.enc, ss[0].enc, band(a.pc, pre))
    return go


def fit(tp, name, meth, sel, ard, fix, mu):
    def go(o):
        from .c14 import mu_user
        h = o.h(Q.FAC)
        K = 'bayeso.tp.tp_kernel.get_optimized_kernel' if tp else 'bayeso.gp.gp_kernel.get_optimized_kernel'
        kw = {'str_optimizer_method': meth, 'use_ard': ard, 'fix_noise': fix}
        if not tp:
            kw['str_modelselection_method'] = sel
        a = h.call(K, [data(h, name), h.arr('Y', n, 1), mu_user(h, mu), name], kw)
        if not o.returns('get_optimized_kernel', a, T.simp(a.pc, TRUE)):
            if a.dead:
                return
        args = [data(h, name), h.arr('Y', n, 1), mu_user(h, mu), name, meth] + ([] if tp else [sel]) + [ard, fix, h.dimv(d)]
        s = h.call('spec.gp.tp_fit' if tp else 'spec.gp.gp_fit', args)
        o.eq('fit: objective, gradient flag, start, bounds, method; covariance and inverse of the returned hyperparameters', a.enc, s.enc, band(a.pc, s.pc), seconds=60)
    return go


def build(c):
    for name in ('se', 'set_matern52'):
        for ard in (True, False):
            for fix in (True, False):
                t = f'{name}.{"ard" if ard else "iso"}.{"fixed" if fix else "free"}'
                for chol in (True, False):
                    for grad in (True, False):
                        c.add(f'gp.{t}.{"chol" if chol else "inv"}.{"grad" if grad else "val"}', 'bayeso/gp/gp_likelihood.py:neg_log_ml', ml(name, ard, fix, chol, grad))
                c.add(f'loo.{t}', 'bayeso/gp/gp_likelihood.py:neg_log_pseudo_l_loocv', loo(name, ard, fix))
                for grad in (True, False):
                    c.add(f'tp.{t}.{"grad" if grad else "val"}', 'bayeso/tp/tp_likelihood.py:neg_log_ml', tml(name, ard, fix, grad))

    for name in ('se', 'set_se'):
        for meth in ('BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded'):
            for sel in ('ml', 'loocv'):
                for ard, fix, mu in ((True, True, True), (True, False, False), (False, True, False), (False, False, True)):
                    c.add(f'fit.gp.{name}.{meth}.{sel}.{ard}.{fix}', 'bayeso/gp/gp_kernel.py:get_optimized_kernel', fit(False, name, meth, sel, ard, fix, mu))
        for meth in ('L-BFGS-B', 'SLSQP'):
            for ard, fix, mu in ((True, True, True), (True, False, False), (False, True, False), (False, False, True)):
                c.add(f'fit.tp.{name}.{meth}.{ard}.{fix}', 'bayeso/tp/tp_kernel.py:get_optimized_kernel', fit(True, name, meth, None, ard, fix, mu))
