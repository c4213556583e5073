"""Opaque summaries of repository functions (modular analysis: the callee is covered by its own property)."""
from .common import *
from sa.npmodels import toarr


def rows(q):
    return lambda it, b: [toarr(it, b[q]).shape[0]]


def kshape(it, b):
    return [toarr(it, b['X']).shape[0], toarr(it, b['Xp']).shape[0]]


def sq(q):
    return lambda it, b: [toarr(it, b[q]).shape[0]] * 2


COV = {'bayeso.covariance.cov_main': opq('cov_main', ('arr', kshape), skip=('jitter',) if False else ())}


def hyplen(it, b):
    X = toarr(it, b['X'] if 'X' in b else b['X_train'])
    return [X.shape[0], X.shape[0], T.sym('nh', 'int', 'pos')]


GRAD = {'bayeso.covariance.grad_cov_main': opq('grad_cov_main', ('arr', hyplen))}


def kernfac(name):
    def summ(it, b):
        """(covariance, inverse/factor, gradient or None)"""
        ea = argsenc(it, b, ('debug', 'use_gradient'))
        it.note('opq', (name, {q: it.enc(v) for q, v in b.items()}))
        nn = toarr(it, b['X_train']).shape[0]
        out = []
        for i in range(2):
            base = node('app', name + ('~' if i == 0 or not name.endswith('cholesky') else ''), i, *ea)
            out.append(it.newarr(mkarr([nn, nn], lambda *ix, base=base: mk_el(base, ix))))
        g = it.truth(b['use_gradient'])
        G = None
        if g is not FALSE:
            base = node('app', name + '~', 2, *ea)
            ls = it.getitem(b['hyps'], 'lengthscales')
            nh = T.num(1)
            nh = T.add(nh, toarr(it, ls).shape[0]) if isinstance(ls, Ref) else T.add(nh, T.num(1))
            fx = it.truth(b['fix_noise'])
            if fx is FALSE:
                nh = T.add(nh, T.num(1))
            G = it.newarr(mkarr([nn, nn, nh], lambda *ix, base=base: mk_el(base, ix)))
        return (out[0], out[1], G)
    return summ


FAC = {'bayeso.covariance.get_kernel_inverse': kernfac('get_kernel_inverse'),
       'bayeso.covariance.get_kernel_cholesky': kernfac('get_kernel_cholesky')}
