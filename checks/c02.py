"""C02: a run records what was proposed and evaluated."""
from .runlib import *

LEVEL = 'proof'
TECHNIQUE = TECH + 'loops over iterations as recurrences (induction over iterations), target function and proposal uninterpreted, counted effects'
NOTE = ('BayesianOptimization.optimize / optimize_with_initial_inputs / optimize_with_all_initial_information for every surrogate, run_single_round*, and thompson_sampling_gp, for an arbitrary number of initial points and iterations, '
        'an arbitrary target function (scalar or one-element result) and an arbitrary proposal function of the data recorded so far: inputs and responses equal those of the reference run, the number of target evaluations and of proposals is exact, '
        'and the timing series have the stated lengths; a target that raises inside a handler which swallows it is a difference; the same holds for a second run on one session object. Proposals are treated as a function of the arguments of the optimisation call.')
Kt = T.sym('K', 'int', 'pos')


def finish(o, h, what, a, s, evals, nall, sur, pre=TRUE):
    it = h.it
    p = band(band(a.pc, s.pc), pre)
    o.eq(f'{what}: inputs', it.enc(a.val[0]), it.enc(s.val[0]), p)
    o.eq(f'{what}: responses', it.enc(a.val[1]), it.enc(s.val[1]), p)
    o.count(f'{what}: number of target evaluations', a, ('user',), evals, pre, lambda e: e.data[0] == 'f')
    o.count(f'{what}: number of proposals', a, ('optimize',), T.sym('K', 'int', 'pos'), pre)
    if len(a.val) > 2:
        o.eq(f'{what}: surrogate times', it.enc(a.val[3]), it.enc(s.val[2]), p)
        o.eq(f'{what}: acquisition times', it.enc(a.val[4]), it.enc(s.val[3]), p)
        A = toarr(it, a.val[2])
        o.eq(f'{what}: number of overall times', A.shape[0], nall, p)


def run(api, sur, vec, mode='regular', samp='sobol', init='uniform', dbg=False, again=()):
    def go(o):
        h = o.h({**OPTS, INITS: inits} if init == 'gaussian' else OPTS)
        K = lambda: h.int('K', 1)
        Kn = K().n
        f = target(h, vec)
        X, Y = h.arr('X', n, d), h.arr('Y', n, 1)
        kw = dict(str_sampling_method_ao=samp)
        if sur == 'gp':
            kw['str_mlm_method'] = mode
        NI = lambda: h.int('ni', 1)
        seed = lambda: h.int('seed')
        R = lambda: bounds(h)
        B = lambda: bare(h, sur)
        if api[0] == 'c':
            if sur == 'rf':
                kw['str_optimizer_method_bo'] = 'random_search'
            M = h.new(WC, [R(), f, K()], dict(str_surrogate=sur, str_initial_method_bo=init, debug=dbg, **kw))
            me = {'all': ('optimize_with_all_initial_information', [X, Y], {}), 'inp': ('optimize_with_initial_inputs', [X], {}), 'run': ('optimize', [NI()], {'seed': seed()})}[api[1]]
            g = h.meth(M, me[0])
            if again:  # an earlier run of the same session, from other data
                h.keep = True
                other = {'all': [h.arr('X1', T.dim('n1'), d), h.arr('Y1', T.dim('n1'), 1)], 'inp': [h.arr('X1', T.dim('n1'), d)], 'run': [h.int('ni1', 1)]}
                first = {'all': 'optimize_with_all_initial_information', 'inp': 'optimize_with_initial_inputs', 'run': 'optimize'}
                for q in again:
                    h.call(h.meth(M, first[q]), other[q], {'seed': h.int('seed1')} if q == 'run' else {})
            a = h.call(g, me[1], me[2])
        else:
            M = h.new('bayeso.bo.' + {'gp': 'BOwGP', 'tp': 'BOwTP', 'rf': 'BOwTrees'}[sur], [R()], {'debug': dbg})
            nm, ar, ex = {'all': ('run_single_round_with_all_initial_information', [X, Y], {}), 'inp': ('run_single_round_with_initial_inputs', [X], {}),
                          'run': ('run_single_round', [NI()], {'seed': seed(), 'str_initial_method_bo': init})}[api[1]]
            a = h.call(WF + nm, [M, f] + ar + [K()], dict(kw, **ex))
        if not o.returns(f'{api[1]}', a):
            if a.dead:
                return
        kk = kws(h, sur, samp, None, mode)
        if api[1] == 'all':
            s = h.call('spec.bo.run', [B(), f, X, Y, K(), kk])
            ev, na = Kn, Kn
        elif api[1] == 'inp':
            s = h.call('spec.bo.run_inputs', [B(), f, X, K(), kk])
            ev, na = T.add(n, Kn), T.add(n, Kn)
        else:
            if init == 'gaussian':
                X0 = h.call(h.meth(B(), 'get_initials'), [init, NI()], {'seed': seed()}).val
                s = h.call('spec.bo.run_inputs', [B(), f, X0, K(), kk])
            else:
                s = h.call('spec.bo.run_all', [B(), f, R(), init, NI(), seed(), K(), kk])
            ni = NI().n
            ev, na = T.add(ni, Kn), T.add(ni, Kn)
        finish(o, h, api[1], a, s, ev, na, sur)
    return go


def thompson(vec):
    def go(o):
        h = o.h({TSI: tsi, INITS: inits})
        f = target(h, vec)
        R = lambda: bounds(h)
        pre = okbox(h)
        a = h.call('bayeso.thompson_sampling.thompson_sampling_gp', [R(), f, h.int('ni', 1), h.int('K', 1)], dict(str_sampling_method='sobol', normalize_Y=h.flag('norm'), num_samples=h.int('N', 1)), pre)
        if not o.returns('thompson_sampling_gp', a, pre) and a.dead:
            return
        M = h.new('bayeso.bo.BOwGP', [R()])
        X0 = h.call(h.meth(M, 'get_initials'), ['sobol', h.int('ni', 1)]).val
        step = Op(node('user', 'step'), 'callable', {'call': lambda it, args, kw: it.call(h.look(TSI), [R(), args[0], args[1]], dict(normalize_Y=h.flag('norm'), str_sampling_method='sobol', num_samples=h.int('N', 1)))})
        s = h.call('spec.bo.thompson', [f, step, X0, h.int('K', 1)])
        finish(o, h, 'thompson_sampling_gp', a, s, T.add(h.int('ni', 1).n, h.int('K', 1).n), None, 'ts', pre)
    return go


def build(c):
    for kind, surs in (('c', ('gp', 'tp', 'rf')), ('f', ('gp',))):
        w = 'bayeso/wrappers/wrappers_bo_class.py:BayesianOptimization' if kind == 'c' else 'bayeso/wrappers/wrappers_bo_function.py'
        nm = 'class' if kind == 'c' else 'fun'
        for sur in surs:
            for a in ('all', 'inp', 'run'):
                for vec in ((False, True) if sur == 'gp' or c.thorough else (a == 'inp',)):
                    init = 'sobol' if vec else 'gaussian' if kind == 'f' else 'uniform'
                    c.add(f'{nm}.{sur}.{a}.{"vec" if vec else "scalar"}', w, run((kind, a), sur, vec, 'regular', 'sobol', init))
            if sur == 'gp':
                for mode in ('combined', 'converged'):
                    for a in (('all', 'inp', 'run') if c.thorough else ('all',)):
                        c.add(f'{nm}.gp.{a}.{mode}', w, run((kind, a), sur, False, mode, 'uniform', 'halton', True))
    for sur in ('gp', 'tp', 'rf'):
        for a in ('all', 'inp', 'run'):
            for q in (('all',), ('run',)) if sur != 'gp' or not c.thorough else (('all',), ('inp',), ('run',), ('run', 'all')):
                c.add(f'class.{sur}.{a}.after.{".".join(q)}', 'bayeso/wrappers/wrappers_bo_class.py:BayesianOptimization', run(('c', a), sur, False, 'regular', 'sobol', 'uniform', again=q))
    for vec in (False, True):
        c.add(f'thompson.{vec}', 'bayeso/thompson_sampling.py:thompson_sampling_gp', thompson(vec))
