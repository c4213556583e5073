"""Shared pieces for whole-run checks: the optimisation call of a model is an arbitrary function of its arguments."""
from .bolib import *

WC = 'bayeso.wrappers.wrappers_bo_class.BayesianOptimization'
WF = 'bayeso.wrappers.wrappers_bo_function.'
OPT = {'gp': 'bayeso.bo.bo_w_gp.BOwGP.optimize', 'tp': 'bayeso.bo.bo_w_tp.BOwTP.optimize', 'rf': 'bayeso.bo.bo_w_trees.BOwTrees.optimize'}
TSI = 'bayeso.thompson_sampling.thompson_sampling_gp_iteration'
INITS = 'bayeso.bo.base_bo.BaseBO.get_initials'


def optsum(sur):
    def summ(it, b):
        ea = tuple(node('kv', q, it.enc(v)) for q, v in sorted(b.items()) if q != 'self')
        it.note('optimize', (sur, {q: it.enc(v) for q, v in b.items() if q != 'self'}))
        q, dd = T.dim('q'), toarr(it, b['X_train']).shape[1]
        nn = toarr(it, b['X_train']).shape[0]
        base = lambda nm: node('app', 'prop.' + nm, sur, *ea)
        mk = lambda nm, *sh: it.newarr(mkarr(list(sh), lambda *ix: mk_el(base(nm), ix)))
        sc = lambda nm: Sc(mk_el(base(nm), (T.num(0),)), 'float')
        return (mk('x', dd), it.newdict({'next_points': mk('pts', q, dd), 'acquisitions': mk('acq', q), 'Y_original': b['Y_train'], 'Y_normalized': mk('ynorm', nn, T.num(1)),
                                         'cov_X_X': mk('cov', nn, nn), 'inv_cov_X_X': mk('icov', nn, nn), 'hyps': Op(base('hyps'), 'dict'), 'trees': Op(base('trees'), 'list'),
                                         'time_surrogate': sc('ts'), 'time_acq': sc('ta'), 'time_overall': sc('to')}))
    return summ


OPTS = {OPT[s]: optsum(s) for s in OPT}


def tsi(it, b):
    it.note('optimize', ('ts', {q: it.enc(v) for q, v in b.items()}))
    ea = argsenc(it, b, ('debug',))
    base = node('app', 'tsi', *ea)
    return it.newarr(mkarr([toarr(it, b['X']).shape[1]], lambda i: mk_el(base, (i,))))


def inits(it, b):
    ea = argsenc(it, b, ('self',))
    it.note('initials', {q: it.enc(v) for q, v in b.items() if q != 'self'})
    base = node('app', 'initials', *ea)
    R = toarr(it, it.getattr(b['self'], 'range_X'))
    N = b['num_initials'].n if isinstance(b['num_initials'], Sc) else T.num(b['num_initials'])
    return it.newarr(mkarr([N, R.shape[0]], lambda *ix: mk_el(base, ix)))


def cls(h, sur, f, **kw):
    """a BayesianOptimization object over the box R running K iterations"""
    return h.new(WC, [bounds(h), f, h.int('K', 1)], dict(str_surrogate=sur, **kw))


def kws(h, sur, samp='sobol', N=None, mode='regular'):
    kw = dict(str_sampling_method=samp, num_samples=Sc(T.num(N or 128), 'int'))
    if sur == 'gp':
        kw['str_mlm_method'] = mode
    return h.it.newdict(kw)


def bare(h, sur):
    return h.new('bayeso.bo.' + {'gp': 'BOwGP', 'tp': 'BOwTP', 'rf': 'BOwTrees'}[sur], [bounds(h)])


def target(h, vec):
    """the user's target function: any function of the input, returning a scalar or an array of one element"""
    return h.user('f', (lambda it, a: [T.num(1)]) if vec else None)
