"""C10: training covariance and its factor."""
from .common import *
from . import opaque as Q

LEVEL = 'proof'
TECHNIQUE = TECH + 'covariance calls are uninterpreted first and inlined when that is not enough'
NOTE = ('get_kernel_inverse / get_kernel_cholesky for any data, hyperparameters, kernels: returned matrix is the symmetrised kernel matrix plus noise^2 on the diagonal (plus the retry '
        'jitter), it is symmetric, the inverse/factor is that of the returned matrix, and when every factorisation attempt fails an error is raised. Real arithmetic.')
F = 'bayeso/covariance.py'
U = 'bayeso.covariance.'


def modes(o, what, go, first=None):
    """go(ob, H, kernel) with opaque covariance, falling back to inlining for each kernel"""
    from sa.check import Ob
    t = Ob(o.name, o.where)
    go(t, t.h({**Q.COV, **Q.GRAD}), 'se')
    t.fin()
    if all(r['status'] == 'proved' for r in t.recs):
        o.recs += t.recs
        o.visited |= t.visited
        o.stmts += t.stmts
        return
    for kn in ('se', 'matern32', 'matern52', 'set_se'):
        go(o, o.h(), kn)


def data(h, name, x='X', rows=n):
    return h.arr(x, rows, T.dim('s'), d) if name.startswith('set_') else h.arr(x, rows, d)


def which(fn, spec, fix, grad, ard):
    def go(o):
        def run(o, h, name):
            if grad and name.startswith('set_'):
                return
            a = h.call(U + fn, [data(h, name), h.hyps(ard, sign=''), name], {'fix_noise': fix, 'use_gradient': grad})
            if not o.returns(fn, a, pre=TRUE if fn.endswith('inverse') else T.simp(a.pc, TRUE)):
                if a.dead:
                    return
            s = h.call('spec.gp.' + spec, [data(h, name), h.hyps(ard, sign=''), name, fix, grad])
            o.eq(f'{fn} = reference ({name})', a.enc, s.enc, band(a.pc, s.pc))
            o.eq(f'{fn} fails exactly when the reference does ({name})', a.pc, s.pc)
            from sa.npmodels import toarr
            K = toarr(h.it, h.it.getitem(a.val, h.c(0)))
            i, j = T.fresh(), T.fresh()
            T.set_range(i, n)
            T.set_range(j, n)
            o.eq(f'returned covariance is symmetric ({name})', K.el(i, j), K.el(j, i), a.pc)
        modes(o, fn, run)
    return go


def build(c):
    for fn, sp in (('get_kernel_inverse', 'kernel_inverse'), ('get_kernel_cholesky', 'kernel_cholesky')):
        for fix in (True, False):
            for grad in (True, False):
                for ard in (True, False):
                    c.add(f'{fn}.{"fixed" if fix else "free"}.{"grad" if grad else "nograd"}.{"ard" if ard else "iso"}', f'{F}:{fn}', which(fn, sp, fix, grad, ard))
