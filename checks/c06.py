"""C06: user configuration reaches the computation."""
from .runlib import *

LEVEL = 'proof'
TECHNIQUE = TECH + 'every option is given a value different from its default (or a symbol) at the entry point and its value is followed to the computation that must use it; fits, posteriors and forests are uninterpreted functions of all their arguments'
NOTE = ('BayesianOptimization.optimize_single_iteration, whole runs of both wrapper APIs, BOwGP / BOwTP / BOwTrees.optimize, thompson_sampling_gp(_iteration) and predict_with_optimized_hyps of both processes: results equal the reference computation written with the options as given - '
        'each option at every documented value (others varied along with it), flags, seeds, sample counts and prior mean symbolic - and, with options omitted, with the documented defaults. The experiment name must reach the logger. '
        'Availability of optional optimiser packages: present (absent: C21).')
I = {'scipydirect': True, 'cma': True}
D1 = T.add(d, T.num(1))


def opts(cf, h):
    """options of the class API for configuration cf"""
    kw = dict(str_surrogate=cf.sur, str_acq=cf.acq, normalize_Y=cf.n(h), str_sampling_method_ao=cf.samp, num_samples_ao=h.int('N', 1), debug=h.flag('debug') if cf.debug is None else cf.debug)
    if cf.sur == 'rf':
        kw['str_optimizer_method_bo'] = 'random_search'
    else:
        kw.update(str_cov=cf.cov, use_ard=cf.ard, prior_mu=mu_user(h, cf.mu), str_optimizer_method_bo=cf.opt)
    if cf.sur == 'gp':
        kw.update(str_optimizer_method_gp=cf.fitm, str_modelselection_method=cf.sel, str_mlm_method=cf.mode)
    if cf.sur == 'tp':
        kw.update(str_optimizer_method_tp=cf.fitm)
    return kw


def compare(o, h, cf, a, r, what=''):
    it = h.it
    pre = band(a.pc, r.pc)
    o.eq(what + 'proposal', it.enc(a.val[0]), it.enc(r.val[0]), pre)
    for q in (TKEYS if cf.sur == 'rf' else KEYS):
        o.eq(what + q, it.enc(it.getitem(a.val[1], q)), it.enc(it.getitem(r.val[1], q)), pre)


def configs(c):
    G = lambda **k: Cfg('gp', seed=None, N=T.dim('N'), **k)
    P = lambda **k: Cfg('tp', seed=None, N=T.dim('N'), **k)
    F = lambda **k: Cfg('rf', seed=None, N=T.dim('N'), **k)
    out = [G(acq=a, cov=v, ard=r, mu=u, fitm=f, opt=p, sel=s, samp=m, mode=md, dim=D1 if p == 'CMA-ES' else d) for a, v, r, u, f, p, s, m, md in (
        ('ei', 'matern52', True, False, 'BFGS', 'L-BFGS-B', 'ml', 'sobol', 'regular'), ('pi', 'eq', False, True, 'L-BFGS-B', 'L-BFGS-B', 'loocv', 'uniform', 'regular'),
        ('ucb', 'se', True, True, 'Nelder-Mead', 'DIRECT', 'ml', 'gaussian', 'combined'), ('aei', 'matern32', False, False, 'SLSQP', 'CMA-ES', 'loocv', 'halton', 'converged'),
        ('pure_exploit', 'matern32', True, True, 'SLSQP-Bounded', 'L-BFGS-B', 'loocv', 'gaussian', 'combined'), ('pure_explore', 'se', False, False, 'Nelder-Mead', 'L-BFGS-B', 'ml', 'halton', 'regular'),
        ('ucb', 'eq', False, False, 'SLSQP', 'L-BFGS-B', 'loocv', 'sobol', 'converged'))]
    out += [P(acq=a, cov=v, ard=r, mu=u, fitm=f, opt=p, samp=m, dim=D1 if p == 'CMA-ES' else d) for a, v, r, u, f, p, m in (
        ('ei', 'matern52', True, False, 'SLSQP', 'L-BFGS-B', 'sobol'), ('pi', 'eq', False, True, 'L-BFGS-B', 'L-BFGS-B', 'uniform'), ('ucb', 'se', True, True, 'SLSQP', 'DIRECT', 'gaussian'),
        ('aei', 'matern32', False, False, 'L-BFGS-B', 'CMA-ES', 'halton'), ('pure_exploit', 'matern32', True, True, 'L-BFGS-B', 'L-BFGS-B', 'gaussian'), ('pure_explore', 'se', False, True, 'SLSQP', 'L-BFGS-B', 'halton'))]
    out += [F(acq=a, samp=m) for a, m in zip(ACQ, SAMPLING + SAMPLING)]
    if c.thorough:
        import itertools
        out += [G(acq=a, cov=v, ard=r, mu=r, fitm=f, opt='L-BFGS-B', sel=s, samp='uniform', mode=md) for a, v, r, f, s, md in itertools.product(('ei', 'aei'), KERNELS, (True, False), OGP, ('ml', 'loocv'), ('regular', 'combined', 'converged'))]
        out += [P(acq=a, cov=v, ard=r, mu=not r, fitm=f, samp=m) for a, v, r, f, m in itertools.product(('pi', 'ucb'), KERNELS, (True, False), OTP, SAMPLING)]
    return out


def single(cf):
    def go(o):
        def run(o, lv):
            h = o.h(lv, I)
            M = h.new(WC, [bounds(h, dd=cf.dim), h.user('f'), h.int('K', 1)], opts(cf, h))
            a = h.call(h.meth(M, 'optimize_single_iteration'), list(cf.data(h)))
            if a.dead:
                o.returns('optimize_single_iteration', a)
                return
            compare(o, h, cf, a, cf.ref(h))
        o.tiers([LEVELS, LEVELS2], run)
    return go


def model(cf):
    def go(o):
        def run(o, lv):
            h = o.h(lv, I)
            cf.seed = 'seed'
            a = cf.run(h, cf.model(h))
            if a.dead:
                o.returns('optimize', a)
                return
            compare(o, h, cf, a, cf.ref(h))
        o.tiers([LEVELS, LEVELS2], run)
    return go


DEF = dict(gp=Cfg('gp', norm=True, seed=None, N=T.num(128), debug=False), tp=Cfg('tp', norm=True, seed=None, N=T.num(128), debug=False), rf=Cfg('rf', norm=True, seed=None, samp='uniform', N=T.num(5000), debug=False))


def sam(it, b):
    """samples: an arbitrary function of method, count and seed; the number of rows is left open"""
    N, meth = b['num_samples' if 'num_samples' in b else 'N'], b['str_sampling_method' if 'str_sampling_method' in b else 'method']
    base = node('app', 'samples', it.enc(meth), N.n if isinstance(N, Sc) else T.num(N), it.enc(b['seed']))
    return it.newarr(mkarr([T.dim('NS'), d], lambda *ix: mk_el(base, ix)))


SAM = {'bayeso.bo.base_bo.BaseBO.get_samples': sam, 'spec.bo.sample': sam}


def defaults(sur, api):
    def go(o):
        def run(o, lv):
            h = o.h({**lv, **SAM}, I)
            cf = Cfg(**DEF[sur].__dict__)
            if api == 'class':
                kw = {} if sur == 'gp' else {'str_surrogate': sur}
                if sur == 'rf':
                    kw['str_optimizer_method_bo'] = 'random_search'
                    cf.samp, cf.N = 'sobol', T.num(128)
                M = h.new(WC, [bounds(h), h.user('f'), h.int('K', 1)], kw)
                a = h.call(h.meth(M, 'optimize_single_iteration'), list(cf.data(h)))
            else:
                M = h.new('bayeso.bo.' + {'gp': 'BOwGP', 'tp': 'BOwTP', 'rf': 'BOwTrees'}[sur], [bounds(h)])
                a = h.call(h.meth(M, 'optimize'), list(cf.data(h)))
            if a.dead:
                o.returns('optimize', a)
                return
            compare(o, h, cf, a, cf.ref(h), 'defaults: ')
        o.tiers([LEVELS, LEVELS2], run)
    return go


def whole(api, sur, init, samp, mode, dflt=False):
    """options of a whole run reach the initial points and every proposal"""
    def go(o):
        h = o.h({**OPTS, INITS: inits})
        it = h.it
        f = target(h, False)
        K, NI, N = h.int('K', 1), h.int('ni', 1), h.int('N', 1)
        if api == 'class':
            kw = {} if dflt else dict(str_initial_method_bo=init, str_sampling_method_ao=samp, num_samples_ao=N, debug=h.flag('debug'))
            if sur == 'gp' and not dflt:
                kw['str_mlm_method'] = mode
            if sur == 'rf':
                kw['str_optimizer_method_bo'] = 'random_search'
            M = h.new(WC, [bounds(h), f, K], dict(kw, str_surrogate=sur))
            a = h.call(h.meth(M, 'optimize'), [NI], {} if dflt else {'seed': h.int('seed')})
        else:
            M = bare(h, sur)
            kw = {} if dflt else dict(str_initial_method_bo=init, str_sampling_method_ao=samp, num_samples_ao=N, str_mlm_method=mode, seed=h.int('seed'))
            a = h.call(WF + 'run_single_round', [M, f, NI, K], kw)
        if not o.returns('run', a) and a.dead:
            return
        X0 = h.call(h.meth(bare(h, sur), 'get_initials'), [init, NI], {'seed': None if dflt else h.int('seed')}).val
        kk = dict(str_sampling_method=samp, num_samples=Sc(T.num(128), 'int') if dflt else N)
        if sur == 'gp':
            kk['str_mlm_method'] = mode
        s = h.call('spec.bo.run_inputs', [bare(h, sur), f, X0, K, it.newdict(kk)])
        p = band(a.pc, s.pc)
        o.eq('inputs of the run', it.enc(a.val[0]), it.enc(s.val[0]), p)
        o.eq('responses of the run', it.enc(a.val[1]), it.enc(s.val[1]), p)
    return go


def expname(sur, api):
    def go(o):
        h = o.h(LEVELS)
        it = h.it
        for nm in ('exp', None):
            e = Op(node('symstr', nm), 'str') if nm else None
            kw = dict(str_exp=e, debug=h.flag('debug'))
            if api == 'class':
                if sur == 'rf':
                    kw['str_optimizer_method_bo'] = 'random_search'
                M = h.meth(h.new(WC, [bounds(h), h.user('f'), h.int('K', 1)], dict(kw, str_surrogate=sur)), 'model_bo')
            else:
                M = h.new('bayeso.bo.' + {'gp': 'BOwGP', 'tp': 'BOwTP', 'rf': 'BOwTrees'}[sur], [bounds(h)], kw)
            lg = it.enc(it.getattr(M, 'logger'))
            if lg.op != 'logger':
                o.maybe('experiment name', 'logger of the model is not known: ' + T.show(lg)[:100])
                continue
            if nm:
                if has_symstr(lg):
                    o.rec('the experiment name is part of the name of the logger', 'proved', T.show(lg))
                else:
                    o.rec('the experiment name is part of the name of the logger', 'violated', 'logger: ' + T.show(lg))
            o.eq('debugging flag reaches the model', it.enc(it.getattr(M, 'debug')), it.enc(h.flag('debug')))
    return go


def has_symstr(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if not isinstance(x, T.N) or id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == 'symstr':
            return True
        st += x.args
    return False


def thomp(samp, dflt=False):
    def go(o):
        h = o.h({TSI: tsi, INITS: inits})
        f = target(h, False)
        pre = okbox(h)
        kw = {} if dflt else dict(normalize_Y=h.flag('norm'), str_sampling_method=samp, num_samples=h.int('N', 1), debug=h.flag('debug'))
        a = h.call('bayeso.thompson_sampling.thompson_sampling_gp', [bounds(h), f, h.int('ni', 1), h.int('K', 1)], kw, pre)
        if not o.returns('thompson_sampling_gp', a, pre) and a.dead:
            return
        X0 = h.call(h.meth(h.new('bayeso.bo.BOwGP', [bounds(h)]), 'get_initials'), [samp, h.int('ni', 1)]).val
        kk = lambda: dict(normalize_Y=True if dflt else h.flag('norm'), str_sampling_method=samp, num_samples=Sc(T.num(200), 'int') if dflt else h.int('N', 1))
        step = Op(node('user', 'step'), 'callable', {'call': lambda it, args, kw: it.call(h.look(TSI), [bounds(h), args[0], args[1]], kk())})
        s = h.call('spec.bo.thompson', [f, step, X0, h.int('K', 1)])
        p = band(band(a.pc, s.pc), pre)
        o.eq('inputs of the run', h.it.enc(a.val[0]), h.it.enc(s.val[0]), p)
    return go


def predopt(tp):
    """every option of predict_with_optimized_hyps reaches the fit and the prediction"""
    def go(o):
        P = f'bayeso.{"tp.tp" if tp else "gp.gp"}.'
        FT, PR = (TPF, TPP) if tp else (GPF, GPP)

        def run(o, lv):
            for i, (cov, fit, mu) in enumerate((c, f, u) for u, (c, f) in zip((True, False) * 4, zip(KERNELS + KERNELS, (OTP * 4 if tp else OGP + OGP)))):
                for dflt in ((False, True) if i == 0 else (False,)):
                    h = o.h(lv)
                    A = lambda: [h.arr('X', n, d), h.arr('Y', n, 1), h.arr('Xs', m, d)]
                    kw = {} if dflt else dict(str_cov=cov, str_optimizer_method=fit, prior_mu=mu_user(h, mu), fix_noise=h.flag('fix'), debug=h.flag('debug'))
                    a = h.call(P + 'predict_with_optimized_hyps', A(), kw)
                    if not o.returns('predict_with_optimized_hyps', a):
                        continue
                    kf = dict(prior_mu=None if dflt else mu_user(h, mu), str_cov='matern52' if dflt else cov, str_optimizer_method=('SLSQP' if tp else 'BFGS') if dflt else fit, fix_noise=True if dflt else h.flag('fix'))
                    X, Y, Xs = A()
                    f = h.call(FT, [X, Y, kf['prior_mu'], kf['str_cov']], dict(str_optimizer_method=kf['str_optimizer_method'], fix_noise=kf['fix_noise']))
                    s = h.call(PR, [X, Y, Xs, f.val[0], f.val[1], f.val[2]], dict(str_cov=kf['str_cov'], prior_mu=kf['prior_mu']))
                    o.eq('defaults' if dflt else f'{cov}, {fit}, {"prior mean" if mu else "no prior mean"}', a.enc, s.enc, band(a.pc, s.pc))
        o.tiers([LEVELS], run)
    return go


def samples(o):
    h = o.h()
    for sur in ('gp', 'tp', 'rf'):
        for s in SAMPLING:
            a = h.call(h.meth(bare(h, sur), 'get_samples'), [s])
            r = h.call('spec.bo.sample', [bounds(h), s, Sc(T.num(128), 'int'), None])
            o.eq(f'get_samples({s}) without a count takes 128 samples', a.enc, r.enc, band(a.pc, r.pc))


def build(c):
    for i, cf in enumerate(configs(c)):
        c.add(f'class.{i}.{cf}', 'bayeso/wrappers/wrappers_bo_class.py:optimize_single_iteration', single(cf))
        c.add(f'model.{i}.{cf}', f'bayeso/bo/bo_w_{dict(gp="gp", tp="tp", rf="trees")[cf.sur]}.py:optimize', model(cf))
    for sur in ('gp', 'tp', 'rf'):
        for api in ('class', 'model'):
            c.add(f'defaults.{sur}.{api}', 'bayeso/constants.py', defaults(sur, api))
            c.add(f'exp.{sur}.{api}', 'bayeso/bo/base_bo.py:__init__', expname(sur, api))
        c.add(f'whole.defaults.{sur}', 'bayeso/wrappers/wrappers_bo_class.py:optimize', whole('class', sur, 'sobol', 'sobol', 'regular', True))
    c.add('whole.defaults.fun', 'bayeso/wrappers/wrappers_bo_function.py:run_single_round', whole('fun', 'gp', 'sobol', 'sobol', 'regular', True))
    for i, (init, samp, mode) in enumerate((('uniform', 'halton', 'combined'), ('gaussian', 'uniform', 'converged'), ('halton', 'gaussian', 'regular'), ('sobol', 'sobol', 'combined'))):
        c.add(f'whole.fun.{init}.{samp}.{mode}', 'bayeso/wrappers/wrappers_bo_function.py:run_single_round', whole('fun', 'gp', init, samp, mode))
        for sur in (('gp', 'tp', 'rf') if c.thorough else ('gp', 'tp', 'rf')[i % 3:i % 3 + 1]):
            c.add(f'whole.class.{sur}.{init}.{samp}.{mode}', 'bayeso/wrappers/wrappers_bo_class.py:optimize', whole('class', sur, init, samp, mode))
    for s in ('gaussian', 'halton'):
        c.add(f'thompson.{s}', 'bayeso/thompson_sampling.py:thompson_sampling_gp', thomp(s))
    c.add('thompson.defaults', 'bayeso/thompson_sampling.py:thompson_sampling_gp', thomp('uniform', True))
    for tp in (True, False):
        c.add(f'predict.{"tp" if tp else "gp"}', f'bayeso/{"tp/tp" if tp else "gp/gp"}.py:predict_with_optimized_hyps', predopt(tp))
    c.add('samples', 'bayeso/bo/base_bo.py:get_samples', samples)
