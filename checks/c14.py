"""C14: GP / Student-t posterior."""
from .common import *
from . import opaque as Q
from .c10 import modes, data

LEVEL = 'proof'
TECHNIQUE = TECH + 'covariance functions and the prior mean are uninterpreted (arbitrary)'
NOTE = ('predict_with_cov / predict_with_hyps / predict_with_optimized_hyps of the Gaussian and Student-t process, arbitrary data sizes, arbitrary kernel and prior mean function: '
        'mean, deviation and covariance equal the exact conditional; the optimised variant uses exactly the hyperparameters and inverse the optimiser returned. Real arithmetic.')


def mu_user(h, mu):
    from sa.npmodels import toarr
    return h.user('mu', lambda it, a: [toarr(it, a[0]).shape[0], T.num(1)], record=False) if mu else None


def hy(h, tp):
    return h.hyps(True, sign='', **({'dof': h.fl('dof', 'pos')} if tp else {}))


PRE_DOF = T.lt(T.num(2), T.sym('dof', 'real', 'pos'))


def withcov(tp, mu):
    def go(o):
        def run(o, h, name):
            P = 'bayeso.tp.tp.' if tp else 'bayeso.gp.gp.'
            a = h.call(P + 'predict_with_cov', [data(h, name), h.arr('Y', n, 1), data(h, name, 'Xs', m), h.arr('C', n, n), h.arr('Ci', n, n), hy(h, tp)],
                       {'str_cov': name, 'prior_mu': mu_user(h, mu)})
            pre = PRE_DOF if tp else TRUE
            if not o.returns('predict_with_cov', a, pre):
                if a.dead:
                    return
            s = h.call('spec.gp.tp_predict' if tp else 'spec.gp.gp_predict',
                       [data(h, name), h.arr('Y', n, 1), data(h, name, 'Xs', m), h.arr('Ci', n, n), hy(h, tp), name, mu_user(h, mu)])
            o.eq(f'posterior = exact conditional ({name})', a.enc, s.enc, band(pre, a.pc))
        modes(o, 'predict_with_cov', run)
    return go


def withhyps(tp, mu):
    def go(o):
        def run(o, h, name):
            P = 'bayeso.tp.tp.' if tp else 'bayeso.gp.gp.'
            a = h.call(P + 'predict_with_hyps', [data(h, name), h.arr('Y', n, 1), data(h, name, 'Xs', m), hy(h, tp)], {'str_cov': name, 'prior_mu': mu_user(h, mu)})
            pre = PRE_DOF if tp else TRUE
            if not o.returns('predict_with_hyps', a, pre):
                if a.dead:
                    return
            s = h.call('spec.gp.tp_predict_hyps' if tp else 'spec.gp.gp_predict_hyps',
                       [data(h, name), h.arr('Y', n, 1), data(h, name, 'Xs', m), hy(h, tp), name, mu_user(h, mu)])
            o.eq(f'posterior = exact conditional ({name})', a.enc, s.enc, band(pre, a.pc))
        modes(o, 'predict_with_hyps', run)
    return go


def fitsum(it, b):
    from sa.npmodels import toarr
    ea = argsenc(it, b, ('debug',))
    it.note('fit', {q: it.enc(v) for q, v in b.items()})
    nn = toarr(it, b['X_train']).shape[0]
    out = []
    for i in range(2):
        base = node('app', 'fit', i, *ea)
        out.append(it.newarr(mkarr([nn, nn], lambda *ix, base=base: mk_el(base, ix))))
    hb = node('app', 'fit', 2, *ea)

    def comp(q):
        return Sc(mk_el(node('hyp', q, hb), (T.num(0),)), 'float')
    D = {'noise': comp('noise'), 'signal': comp('signal'),
         'lengthscales': it.newarr(mkarr([toarr(it, b['X_train']).shape[-1]], lambda i: mk_el(node('hyp', 'ls', hb), (i,)))),
         'dof': comp('dof')}
    return (out[0], out[1], it.newdict(D))


def optim(tp, mu):
    def go(o):
        P = 'bayeso.tp.tp.' if tp else 'bayeso.gp.gp.'
        K = 'bayeso.tp.tp_kernel.get_optimized_kernel' if tp else 'bayeso.gp.gp_kernel.get_optimized_kernel'
        for meth in ('SLSQP', 'L-BFGS-B') + (() if tp else ('BFGS', 'Nelder-Mead', 'SLSQP-Bounded')):
            for fix in (True, False):
                h = o.h({**Q.COV, K: fitsum})
                name = 'matern32'
                a = h.call(P + 'predict_with_optimized_hyps', [data(h, name), h.arr('Y', n, 1), data(h, name, 'Xs', m)],
                           {'str_cov': name, 'prior_mu': mu_user(h, mu), 'str_optimizer_method': meth, 'fix_noise': fix})
                if not o.returns('predict_with_optimized_hyps', a):
                    continue
                f = h.call(K, [data(h, name), h.arr('Y', n, 1), mu_user(h, mu), name], {'str_optimizer_method': meth, 'fix_noise': fix})
                s = h.call('spec.gp.tp_predict' if tp else 'spec.gp.gp_predict',
                           [data(h, name), h.arr('Y', n, 1), data(h, name, 'Xs', m), f.val[1], f.val[2], name, mu_user(h, mu)])
                o.eq(f'posterior uses the fitted hyperparameters ({meth}, fix_noise={fix})', a.enc, s.enc, a.pc)
    return go


def prior(o):
    for mu in (False, True):
        for sh in ((n, d), (n, T.dim('s'), d)):
            o.fn(f'get_prior_mu ({"function" if mu else "none"}, {len(sh)}-d inputs)', 'bayeso.utils.utils_gp.get_prior_mu', 'spec.gp.prior',
                 lambda h: ([mu_user(h, mu), h.arr('X', *sh)], {}))


def build(c):
    for tp in (True, False):
        f = 'bayeso/tp/tp.py' if tp else 'bayeso/gp/gp.py'
        t = 'tp' if tp else 'gp'
        for mu in (True, False):
            c.add(f'{t}.cov.{mu}', f + ':predict_with_cov', withcov(tp, mu))
            c.add(f'{t}.hyps.{mu}', f + ':predict_with_hyps', withhyps(tp, mu))
            c.add(f'{t}.opt.{mu}', f + ':predict_with_optimized_hyps', optim(tp, mu))
    c.add('prior', 'bayeso/utils/utils_gp.py:get_prior_mu', prior)
