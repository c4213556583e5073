"""C13: covariance functions are the stated kernels; gradients are their derivatives."""
from .common import *

LEVEL = 'proof'
SG = ''  # noise and signal of either sign: unbounded fits may return negative values
TECHNIQUE = TECH + 'gradients are compared with the analytic derivative of the covariance value graph'
NOTE = ('Every covariance function, scalar and per-dimension lengthscales, arbitrary numbers of points, dimensions and set sizes: value graph equals the '
        'reference kernel; gradient layers equal the derivative of the covariance graph w.r.t. each hyperparameter. Real arithmetic, not floating point.')
F = 'bayeso/covariance.py'


def kern(name, fname, ard):
    def go(o):
        o.fn(f'{fname} = {name} kernel (ard={ard})', 'bayeso.covariance.' + fname, 'spec.kernels.' + name,
             lambda h: ([h.arr('X', n, d), h.arr('Xp', m, d), h.arr('ls', d, sign='pos') if ard else h.fl('ls', 'pos'), h.fl('sig', SG)], {}))
    return go


def setk(name, ard):
    def go(o):
        o.fn(f'cov_set({name}) = mean of the pairwise kernel (ard={ard})', 'bayeso.covariance.cov_set', 'spec.kernels.set_value',
             lambda h: ([name, h.arr('X', n, d), h.arr('Xp', m, d), h.arr('ls', d, sign='pos') if ard else h.fl('ls', 'pos'), h.fl('sig', SG)], {}))
    return go


def mainf(name, ard, sm, jit):
    def mk(h):
        s, t = T.dim('s'), T.dim('t')
        sh = (n, s, d) if name.startswith('set_') else (n, d)
        sh2 = sh if sm else ((m, t, d) if name.startswith('set_') else (m, d))
        kw = {'jitter': h.fl('jit', 'nonneg')} if jit else {}
        return [name, h.arr('X', *sh), h.arr('X' if sm else 'Xp', *sh2), h.hyps(ard), sm], kw

    def go(o):
        o.fn(f'cov_main({name}, same={sm}, ard={ard}, jitter={"given" if jit else "default"})', 'bayeso.covariance.cov_main', 'spec.kernels.main', mk)
    return go


def grad(name, ard, fix, sm='X'):
    def go(o):
        h = o.h()
        mk = lambda: [name, h.arr('X', n, d), h.arr('X', n, d), h.hyps(ard, sign=SG)]
        g = h.call('bayeso.covariance.grad_cov_main', mk() + [fix], {})
        if not o.returns('grad_cov_main', g):
            if g.dead:
                return
        K = h.call('spec.kernels.main', mk() + [False])
        i, j, c = T.fresh(), T.fresh(), T.fresh()
        T.set_range(i, n)
        T.set_range(j, n)
        from sa.npmodels import toarr
        G = toarr(h.it, g.val)
        Kb = toarr(h.it, K.val)
        Kij = Kb.el(i, j)
        dg = T.eq(i, j)
        off = 0 if fix else 1
        nh = T.add(T.num(2 + off), T.sub(d, T.num(1))) if ard else T.num(2 + off)
        o.eq('gradient shape', node('tup', *G.shape), node('tup', n, n, nh))
        if len(G.shape) != 3:
            return
        if not fix:
            nz = T.sym('noise', 'real', SG)
            o.eq('layer noise = d(noise^2 I)/d noise', G.el(i, j, T.num(0)), ite(dg, T.mul(T.num(2), nz), T.num(0)), g.pc)
        sg = T.sym('sig', 'real', SG)
        ref = T.diff(Kij, sg)
        o.eq_known('layer signal = dK/d signal', G.el(i, j, T.num(off)), ref,
                   T.add(ref, ite(dg, T.div(T.mul(T.num(2), T.num(1e-5)), sg), T.num(0))), 'KF-C13-jitter', g.pc)
        # lengthscales; coincident points are covered separately (sqrt is not differentiable there, the derivative is 0)
        if ard:
            ls = node('arr', 'ls', 'pos')
            T.set_range(c, d)
            x = mk_el(ls, (c,))
            code = G.el(i, j, T.add(T.num(off + 1), c))
        else:
            x = T.sym('ls', 'real', 'pos')
            code = G.el(i, j, T.num(off + 1))
        o.eq('layer lengthscale = dK/d lengthscale', code, T.diff(Kij, x), band(g.pc, bnot(dg)))
        o.eq('layer lengthscale is 0 on the diagonal', T.simp(T.subst(code, {j: i}), TRUE), T.num(0))
    return go


def choose(o):
    for nm, f in (('eq', 'se'), ('se', 'se'), ('matern32', 'matern32'), ('matern52', 'matern52')):
        h = o.h()
        for pre in ('cov_', 'grad_cov_'):
            r = h.call('bayeso.covariance.choose_fun_' + pre[:-1], [nm])
            if not o.returns(f'choose_fun_{pre[:-1]}({nm})', r):
                continue
            if pre == 'cov_':
                args = lambda: [h.arr('X', n, d), h.arr('Xp', m, d), h.arr('ls', d, sign='pos'), h.fl('sig', SG)]
                s = h.call('spec.kernels.' + f, args())
            else:
                args = lambda: [h.arr('K', n, n), h.arr('X', n, d), h.arr('X', n, d), h.hyps(True), h.dimv(T.add(d, T.num(1))), True]
                s = h.call('bayeso.covariance.' + pre + f, args())
            a = h.call(r.val, args())
            if a.dead:
                o.returns('selected function', a)
                continue
            o.eq(f'choose_fun_{pre[:-1]}({nm}) computes {pre}{f}', a.enc, s.enc, band(a.pc, s.pc))


def build(c):
    for nm, f in (('se', 'cov_se'), ('matern32', 'cov_matern32'), ('matern52', 'cov_matern52')):
        for ard in (True, False):
            c.add(f'{f}.{"ard" if ard else "iso"}', f'{F}:{f}', kern(nm, f, ard))
    for nm in BASES:
        for ard in (True, False):
            c.add(f'cov_set.{nm}.{ard}', f'{F}:cov_set', setk(nm, ard))
            for fix in (True, False):
                c.add(f'grad.{nm}.{ard}.{fix}', f'{F}:grad_cov_main', grad(nm, ard, fix))
    for nm in BASES + SETS:
        for ard in (True, False):
            for sm in (True, False):
                c.add(f'cov_main.{nm}.{ard}.{sm}', f'{F}:cov_main', mainf(nm, ard, sm, False), heavy=nm.startswith('set_'))
        c.add(f'cov_main.{nm}.jit', f'{F}:cov_main', mainf(nm, True, True, True))
