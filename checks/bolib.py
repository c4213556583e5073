"""Shared pieces for optimisation-level checks."""
from .common import *
from . import opaque as Q
from sa.npmodels import toarr
from sa.harness import argsenc

GPF = 'bayeso.gp.gp_kernel.get_optimized_kernel'
TPF = 'bayeso.tp.tp_kernel.get_optimized_kernel'
GPP = 'bayeso.gp.gp.predict_with_cov'
TPP = 'bayeso.tp.tp.predict_with_cov'
NLL = 'bayeso.gp.gp_likelihood.neg_log_ml'
INV = 'bayeso.covariance.get_kernel_inverse'
RFG = 'bayeso.trees.trees_random_forest.get_random_forest'
RFP = 'bayeso.trees.trees_common.predict_by_trees'

ACQ = ('ei', 'ucb', 'pi', 'aei', 'pure_exploit', 'pure_explore')
SAMPLING = ('uniform', 'gaussian', 'sobol', 'halton')
OBO = ('L-BFGS-B', 'DIRECT', 'CMA-ES')
OGP = ('BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded')
OTP = ('L-BFGS-B', 'SLSQP')
KERNELS = ('eq', 'se', 'matern32', 'matern52')


def rowterm(A, i):
    vs, rs = [], []
    for s in A.shape[1:]:
        v = T.fresh()
        T.set_range(v, s)
        vs.append(v)
        rs.append(s)
    return T.mk_lam(vs, rs, A.el(i, *vs))


def rowsof(it, name, A, rest):
    mm = A.shape[0]

    def col(q, nm):
        return it.newarr(mkarr([mm, T.num(1)], lambda i, j: mk_el(node('app', nm, q, rowterm(A, i), *rest), (T.num(0),))))
    return col(0, name), col(1, name + '.nonneg')


def post(tp):
    """posterior at each test row: an arbitrary function of that row and of the remaining arguments
    (exactness and row-wise form are C14)"""
    def summ(it, b):
        rest = argsenc(it, b, ('debug', 'X_test'))
        it.note('post', {q: it.enc(v) for q, v in b.items()})
        A = toarr(it, b['X_test'])
        mm = A.shape[0]
        name = 'tpost' if tp else 'post'
        mean, std = rowsof(it, name, A, rest)
        cov = it.newarr(mkarr([mm, mm], lambda i, j: mk_el(node('app', name, 2, rowterm(A, i), rowterm(A, j), *rest), (T.num(0),))))
        if tp:
            nu = Sc(mk_el(node('app', 'tpost.nu', *rest), (T.num(0),)), 'float')
            return (nu, mean, std, cov)
        return (mean, std, cov)
    return summ


def fit(name):
    def summ(it, b):
        from .c14 import fitsum
        return fitsum(it, b)
    return summ


def nll(it, b):
    """the model-selection likelihood: an arbitrary function of data, hyperparameter vector, kernel, prior mean"""
    ea = argsenc(it, b, ('debug', 'use_gradient', 'use_cholesky'))
    it.note('opq', ('nll', {q: it.enc(v) for q, v in b.items()}))
    v = Sc(mk_el(node('app', 'nll', *ea), (T.num(0),)), 'float')
    g = it.truth(b['use_gradient'])
    if g is FALSE:
        return v
    nh = toarr(it, b['hyps']).shape[0]
    base = node('app', 'nllgrad', *ea)
    return (v, it.newarr(mkarr([nh], lambda i: mk_el(base, (i,)))))


def forest(it, b):
    ea = argsenc(it, b)
    it.note('fit', {q: it.enc(v) for q, v in b.items()})
    return it.newlist([('opq', node('app', 'forest', *ea), T.sym('ntrees', 'int', 'pos'), lambda t: Op(node('tree', t), 'tree'))]) if False else Op(node('app', 'forest', *ea), 'list')


def treepost(it, b):
    it.note('post', {q: it.enc(v) for q, v in b.items()})
    A = toarr(it, b['X'])
    rest = argsenc(it, b, ('X',))
    return rowsof(it, 'treepost', A, rest)


LEVELS = {GPF: fit('gp'), TPF: fit('tp'), GPP: post(False), TPP: post(True), NLL: nll, INV: Q.FAC[INV], RFG: forest, RFP: treepost}


def covrows(it, b):
    """covariance: a function of the two rows, plus the jitter on the diagonal of a training covariance
    (C13 proves this pairwise form for every kernel)"""
    rest = argsenc(it, b, ('X', 'Xp', 'same_X_Xp', 'jitter'))
    it.note('opq', ('cov_main', {q: it.enc(v) for q, v in b.items()}))
    A, B = toarr(it, b['X']), toarr(it, b['Xp'])
    same = it.truth(b['same_X_Xp'])
    jit = toarr(it, b['jitter']).el()

    def el(i, j):
        k = mk_el(node('app', 'cov', rowterm(A, i), rowterm(B, j), *rest), (T.num(0),))
        return T.add(k, ite(band(same, T.eq(i, j)), jit, T.num(0)))
    return it.newarr(mkarr([A.shape[0], B.shape[0]], el))


# more transparent: posteriors, likelihood and forests are looked into, only fits and factorisations are summarised
LEVELS2 = {**{q: LEVELS[q] for q in (GPF, TPF, RFG, RFP)}, **Q.FAC, 'bayeso.covariance.cov_main': covrows}


def bounds(h, name='R', dd=d):
    return h.arr(name, dd, 2)


def rows_ok(h, dd=d, name='R'):
    """every lower bound is at most its upper bound, for a fresh dimension j"""
    R = node('arr', name, '')
    return lambda j: T.le(mk_el(R, (j, T.num(0))), mk_el(R, (j, T.num(1))))


def okbox(h, dd=d, name='R'):
    """condition: no dimension has reversed bounds"""
    v = T.fresh()
    T.set_range(v, dd)
    return bnot(T.mk_exists([v], [dd], bnot(rows_ok(h, dd, name)(v))))


def mu_user(h, on):
    return h.user('mu', lambda it, a: [toarr(it, a[0]).shape[0], T.num(1)], record=False) if on else None


class Cfg:
    """one configuration of a model and an optimisation call"""

    def __init__(self, sur='gp', acq='ei', cov='matern52', norm=None, ard=True, mu=False, fitm=None, opt='L-BFGS-B', sel='ml', samp='sobol', mode='regular', seed='seed', N=k, debug=None, dim=d):
        self.__dict__.update(sur=sur, acq=acq, cov=cov, norm=norm, ard=ard, mu=mu, fitm=fitm or ('SLSQP' if sur == 'tp' else 'BFGS'), opt=opt, sel=sel, samp=samp, mode=mode, seed=seed, N=N, debug=debug, dim=dim)

    def __str__(self):
        return '.'.join(str(x) for x in (self.sur, self.acq, self.cov, 'ard' if self.ard else 'iso', 'mu' if self.mu else '0', self.fitm, self.opt, self.sel, self.samp, self.mode, 'seed' if self.seed else 'noseed'))

    def n(self, h):
        return h.flag('norm') if self.norm is None else self.norm

    def model(self, h):
        kw = dict(str_acq=self.acq, normalize_Y=self.n(h), debug=h.flag('debug') if self.debug is None else self.debug)
        if self.sur != 'rf':
            kw.update(str_cov=self.cov, use_ard=self.ard, prior_mu=mu_user(h, self.mu), str_optimizer_method_bo=self.opt)
        if self.sur == 'gp':
            kw.update(str_optimizer_method_gp=self.fitm, str_modelselection_method=self.sel)
        if self.sur == 'tp':
            kw.update(str_optimizer_method_tp=self.fitm)
        return h.new('bayeso.bo.' + {'gp': 'BOwGP', 'tp': 'BOwTP', 'rf': 'BOwTrees'}[self.sur], [bounds(h, dd=self.dim)], kw)

    def data(self, h, s=''):
        nn = T.dim('n' + s) if s else n
        return h.arr('X' + s, nn, self.dim), h.arr('Y' + s, nn, 1)

    def sd(self, h):
        return h.int('seed') if self.seed else None

    def run(self, h, M, s=''):
        kw = dict(str_sampling_method=self.samp, num_samples=h.dimv(self.N), seed=self.sd(h))
        if self.sur == 'gp':
            kw['str_mlm_method'] = self.mode
        return h.call(h.meth(M, 'optimize'), list(self.data(h, s)), kw)

    def ref(self, h, s=''):
        X, Y = self.data(h, s)
        a = [bounds(h, dd=self.dim), X, Y, self.samp, h.dimv(self.N), self.sd(h)]
        if self.sur == 'rf':
            return h.call('spec.bo.rf_optimize', a + [self.acq, self.n(h)])
        a += [self.cov, self.acq, self.n(h), self.ard, mu_user(h, self.mu), self.fitm, self.opt]
        if self.sur == 'tp':
            return h.call('spec.bo.tp_optimize', a)
        return h.call('spec.bo.gp_optimize', a + [self.sel, self.mode])


KEYS = ('next_points', 'acquisitions', 'Y_original', 'Y_normalized', 'cov_X_X', 'inv_cov_X_X', 'hyps')
TKEYS = KEYS[:4] + ('trees',)
