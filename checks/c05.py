"""C05: one coherent fitted model per proposal."""
from .runlib import *

LEVEL = 'proof'
TECHNIQUE = TECH + 'fits, factorisations and posteriors are uninterpreted functions of all their arguments, so data, hyperparameters and factor are tracked by identity; histories of calls on one model object'
NOTE = ('BOwGP / BOwTP / BOwTrees.optimize for every acquisition, kernel option, prior mean, normalisation flag, fitting mode: the returned covariance, inverse, hyperparameters and normalised responses are those of the fit to exactly the given data, '
        'and all scores come from them. Call histories of length 3 over all modes and 4 over default/convergence modes (thorough: 4 over all, 6 for the convergence mode) over every combination of modes at each step on one model, arbitrary data of a different size at each call. A second call on one model of every surrogate, with other data, gives what its own data determine. In the convergence mode responses are used as given (not normalised), as implemented and documented in the code.')
SW = dict(gp='gp', tp='tp', rf='trees')


def configs(c):
    out = [Cfg('gp', a, mode=m) for a in ACQ for m in ('regular', 'combined', 'converged')]
    out += [Cfg('gp', cov=v, ard=r, mu=u, fitm=f, sel=s) for v, r, u, f, s in
            (('eq', True, False, 'BFGS', 'ml'), ('se', False, True, 'L-BFGS-B', 'loocv'), ('matern32', True, True, 'Nelder-Mead', 'ml'), ('matern52', False, False, 'SLSQP', 'loocv'), ('matern52', True, True, 'SLSQP-Bounded', 'ml'))]
    out += [Cfg('gp', mode='combined', sel='loocv', mu=True, ard=False, cov='se')]
    out += [Cfg('tp', a) for a in ACQ] + [Cfg('tp', cov=v, ard=r, mu=u, fitm=f) for v, r, u, f in (('eq', True, True, 'SLSQP'), ('se', False, False, 'L-BFGS-B'), ('matern32', True, False, 'L-BFGS-B'))]
    out += [Cfg('rf', a) for a in ACQ]
    return out


def single(cf):
    def go(o):
        def run(o, lv):
            h = o.h(lv)
            it = h.it
            a = cf.run(h, cf.model(h))
            if a.dead:
                o.returns('optimize', a)
                return
            r = cf.ref(h)
            pre = band(a.pc, r.pc)
            for q in (TKEYS if cf.sur == 'rf' else KEYS):
                if q != 'next_points':
                    o.eq(f'{q} = that of the model fitted to the given data', it.enc(it.getitem(a.val[1], q)), it.enc(it.getitem(r.val[1], q)), pre)
            o.eq('scored candidates', it.enc(a.val[0]), it.enc(r.val[0]), pre)
        o.tiers([LEVELS, LEVELS2], run)
    return go


def hist(modes, norm, ard, mu, sel):
    def go(o):
        def run(o, lv):
            h = o.h(lv)
            it = h.it
            cf = Cfg('gp', mode='?', debug=False, norm=norm, ard=ard, mu=mu, sel=sel)
            M = cf.model(h)
            pre = TRUE
            outs = []
            for s, m in zip('123456', modes):
                cf.mode = m
                a = cf.run(h, M, s)
                if a.dead:
                    o.returns('optimize', a)
                    return
                pre = band(pre, a.pc)
                outs.append(a)
            D = it.newlist([tuple(cf.data(h, s)) for s in '123456'[:len(modes)]])
            S = h.call('spec.bo.gp_history', [D, it.newlist(list(modes)), cf.cov, norm, cf.ard, mu_user(h, mu), cf.fitm, cf.sel])
            pre = band(pre, S.pc)
            for i, a in enumerate(outs):
                ref = it.getitem(S.val, i_(i))
                for j, q in enumerate(('cov_X_X', 'inv_cov_X_X', 'hyps', 'Y_normalized')):
                    o.eq(f'call {i + 1} ({modes[i]}): {q}', it.enc(it.getitem(a.val[1], q)), it.enc(ref[j]), pre)
                q = h.call('spec.bo.gp_reported', [cf.data(h, str(i + 1))[0], a.val[1], cf.cov, cf.acq, mu_user(h, mu)])
                o.eq(f'call {i + 1} ({modes[i]}): scores under that model', it.enc(it.getitem(a.val[1], 'acquisitions')), it.enc(q.val[1]), band(pre, q.pc))
        o.tiers([LEVELS, LEVELS2], run)
    return go


def repeat(cf):
    """a second call on the same model, with other data: nothing of the first call is left in what it reports"""
    def go(o):
        def run(o, lv):
            h = o.h(lv)
            it = h.it
            M = cf.model(h)
            a = cf.run(h, M, '1')
            b = a if a.dead else cf.run(h, M, '2')
            if b.dead:
                o.returns('optimize', b)
                return
            r = cf.ref(h, '2')
            pre = band(band(a.pc, b.pc), r.pc)
            for q in (TKEYS if cf.sur == 'rf' else KEYS):
                o.eq(f'second call: {q} = that of the second data', it.enc(it.getitem(b.val[1], q)), it.enc(it.getitem(r.val[1], q)), pre)
            o.eq('second call: proposal', it.enc(b.val[0]), it.enc(r.val[0]), pre)
        o.tiers([LEVELS, LEVELS2], run)
    return go


def converged(ard):
    def go(o):
        mk = lambda h, s: h.it.newdict({'noise': h.fl('noise' + s, 'pos'), 'signal': h.fl('signal' + s, 'pos'), 'lengthscales': h.arr('ls' + s, d, sign='pos') if ard else h.fl('ls' + s, 'pos')})
        for fix in (True, False):
            o.fn(f'check_hyps_convergence: within 5% of the previous fit (fix_noise={fix})', 'bayeso.utils.utils_bo.check_hyps_convergence', 'spec.bo.has_converged',
                 lambda h: ([h.it.newlist([mk(h, '0'), mk(h, '1')]), mk(h, '2'), 'matern52', fix], {}))
            o.fn(f'check_hyps_convergence: first fit (fix_noise={fix})', 'bayeso.utils.utils_bo.check_hyps_convergence', 'spec.bo.has_converged',
                 lambda h: ([h.it.newlist([]), mk(h, '2'), 'se', fix], {}))
    return go


def build(c):
    import itertools
    for cf in configs(c):
        c.add('optimize.' + str(cf), f'bayeso/bo/bo_w_{SW[cf.sur]}.py:optimize', single(cf))
    for cf in [Cfg(s, mode=m, samp=q) for s, m in (('gp', 'regular'), ('gp', 'combined'), ('tp', 'regular'), ('rf', 'regular')) for q in ('sobol', 'uniform')]:
        c.add('second.' + str(cf), f'bayeso/bo/bo_w_{SW[cf.sur]}.py:optimize', repeat(cf))
    ms = ('regular', 'combined', 'converged')
    L = [('converged',) * 3, ('converged',) * 4] + [x for x in itertools.product(ms, repeat=3)]
    L += list(itertools.product(('regular', 'converged'), repeat=4))
    if c.thorough:
        L += list(itertools.product(ms, repeat=4)) + [('converged',) * 6]
    for x in dict.fromkeys(L):
        c.add('history.' + '-'.join(x), 'bayeso/bo/bo_w_gp.py:optimize', hist(x, len(set(x)) == 2, True, x[0] == 'combined', 'ml'))
    c.add('history.iso', 'bayeso/bo/bo_w_gp.py:optimize', hist(('converged',) * 3, True, False, True, 'loocv'))
    for ard in (True, False):
        c.add(f'converged.{ard}', 'bayeso/utils/utils_bo.py:check_hyps_convergence', converged(ard))
