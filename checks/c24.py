"""C24: documented result shapes for every size."""
from .runlib import *
from . import opaque as Q
from .c04 import pwo, sf, samps, PWO, SF, SAMPS
from sa.harness import n as N_, m as M_, d as D_, k as K_

LEVEL = 'proof'
TECHNIQUE = TECH + 'shape inference: result shapes as tuples of size terms, for symbolic sizes and with every size, and all of them, equal to one; gates that change the rank are kept as conditions on sizes'
NOTE = ('For every public function returning arrays the shape of the result is computed for symbolic sizes (any number of training and test inputs, samples, candidates, dimensions, initial points, iterations, rounds) '
        'and again with each size, and with all sizes together, equal to one; it must be the documented one with no axis added or dropped.')
S1 = T.num(1)
C = 'bayeso.covariance.'
G, TT = 'bayeso.gp.gp.', 'bayeso.tp.tp.'
A = 'bayeso.acquisition.'
UB, UC, UL = 'bayeso.utils.utils_bo.', 'bayeso.utils.utils_common.', 'bayeso.trees.trees_common.'
DOF = T.lt(T.num(2), T.sym('dof', 'real', 'pos'))


class Sz:
    """sizes of one case; those in `ones` are exactly one"""

    def __init__(self, ones):
        self.ones = ones
        for q, t in (('n', N_), ('m', M_), ('d', D_), ('s', K_), ('r', T.dim('r')), ('i', T.dim('ni')), ('K', T.dim('K'))):
            setattr(self, q, S1 if q in ones else t)

    def v(self, q):
        return Sc(getattr(self, q), 'int')


def shape(it, v):
    """the shape of a value as a term; None when unknown"""
    v = it.res(v)
    if isinstance(v, PyIte):
        a, b = shape(it, v.a), shape(it, v.b)
        return None if a is None or b is None else ite(v.c, a, b)
    if isinstance(v, Ref):
        c = it.cell(v)
        if isinstance(c, ArrCell):
            return node('shp', *c.val.shape)
        if hasattr(c, 'segs'):
            return node('len', it.list_len(c))
        return None
    if isinstance(v, tuple):
        return node('len', T.num(len(v)))
    if isinstance(v, (Sc, float, int)):
        return node('shp')
    if v is None:
        return node('none')
    return None


def expect(o, it, what, v, want, pre):
    s = shape(it, v)
    if s is None:
        o.rec(what, 'undecided', 'value of unknown shape ' + T.show(it.enc(v))[:200])
        return
    o.eq(what, s, want if isinstance(want, T.N) else node('shp', *want), pre)


WATCH = None      # another property may watch the same calls: f(ob, h, args, kw) -> g(out, pre)


def cases(names, mk, opaque=None, pre=None, levels=None, sel=None, imports=None):
    """mk(h, z) -> (function, args, kw, [(what, picker, shape)])"""
    def go(o):
        todo = [()] if WATCH else [()] + [(q,) for q in names] + ([tuple(names)] if len(names) > 1 else [])
        for ones in todo:
            z = Sz(ones)
            tag = ' with ' + ', '.join(f'{q}=1' for q in ones) if ones else ''

            def run(o, lv):
                h = o.h(lv, imports)
                f, args, kw, want = mk(h, z)
                p = pre(h, z) if pre else TRUE
                seen = WATCH and WATCH(o, h, args, kw)
                a = h.call(f, args, kw, p)
                if seen:
                    seen(f if isinstance(f, str) else 'call', a, p)
                    return
                if a.dead:
                    o.returns('call' + tag, a, p)
                    return
                for what, pick, w in want:
                    expect(o, h.it, what + tag, pick(h.it, a.val), w, band(a.pc, p))
            if levels:
                o.tiers(levels, run)
            else:
                run(o, opaque or {})
    return go


one = lambda it, v: v
at = lambda i: lambda it, v: it.getitem(v, i_(i))
key = lambda q: lambda it, v: it.getitem(it.getitem(v, i_(1)), q)


def hy(h, z, tp, ard=True):
    D = {'signal': h.fl('sig', 'pos'), 'lengthscales': h.arr('ls', z.d, sign='pos') if ard else h.fl('ls', 'pos'), 'noise': h.fl('noise', 'pos')}
    if tp:
        D['dof'] = h.fl('dof', 'pos')
    return h.it.newdict(D)


def mus(h, on):
    return mu_user(h, on)


# ------------------------------------------------------------------ processes
def pred(tp, kind, mu, ard):
    P = TT if tp else G
    b = 1 if tp else 0

    def mk(h, z):
        X, Y, Xs = h.arr('X', z.n, z.d), h.arr('Y', z.n, 1), h.arr('Xs', z.m, z.d)
        kw = {'str_cov': 'matern52', 'prior_mu': mus(h, mu)}
        if kind == 'cov':
            args = [X, Y, Xs, h.arr('C', z.n, z.n), h.arr('Ci', z.n, z.n), hy(h, z, tp, ard)]
        elif kind == 'hyps':
            args = [X, Y, Xs, hy(h, z, tp, ard)]
        else:
            args = [X, Y, Xs]
        return P + {'cov': 'predict_with_cov', 'hyps': 'predict_with_hyps', 'opt': 'predict_with_optimized_hyps'}[kind], args, kw, \
            ([('degrees of freedom', at(0), ())] if tp else []) + [('mean', at(b), (z.m, S1)), ('deviation', at(b + 1), (z.m, S1)), ('covariance', at(b + 2), (z.m, z.m))]
    from .c14 import fitsum
    op = {**Q.FAC, GPF: fitsum, TPF: fitsum}
    return cases(('n', 'm', 'd'), mk, op, (lambda h, z: DOF) if tp and kind != 'opt' else None)


def sampled(tp):
    def mk(h, z):
        a = [h.arr('mu', z.m), h.arr('S', z.m, z.m)]
        if tp:
            a = [h.fl('nu', 'pos')] + a
        return (TT if tp else G) + 'sample_functions', a, {'num_samples': z.v('s')}, [('samples', one, (z.s, z.m))]
    return cases(('m', 's'), mk)


def kernels(what, name):
    st = name.startswith('set_')

    def mk(h, z):
        X = h.arr('X', z.n, z.s, z.d) if st else h.arr('X', z.n, z.d)
        Xp = h.arr('Z', z.m, z.r, z.d) if st else h.arr('Z', z.m, z.d)
        if what == 'cov':
            return C + 'cov_main', [name, X, Xp, hy(h, z, False), False], {}, [('covariance', one, (z.n, z.m))]
        if what == 'same':
            X2 = h.arr('X', z.n, z.s, z.d) if st else h.arr('X', z.n, z.d)
            return C + 'cov_main', [name, X, X2, hy(h, z, False), True], {}, [('covariance', one, (z.n, z.n))]
        g = what.endswith('grad')
        f = 'get_kernel_cholesky' if 'chol' in what else 'get_kernel_inverse'
        L = T.add(z.d, T.num(2))
        return C + f, [X, hy(h, z, False), name], {'use_gradient': g, 'fix_noise': False}, [('covariance', at(0), (z.n, z.n)), ('factor', at(1), (z.n, z.n)), ('gradient', at(2), (z.n, z.n, L) if g else node('none'))]
    return cases(('n', 'm', 'd') + (('s', 'r') if st else ()), mk)


def fits(tp, meth, ard, fix, mu):
    def mk(h, z):
        kw = {'str_optimizer_method': meth, 'use_ard': ard, 'fix_noise': fix}
        return TPF if tp else GPF, [h.arr('X', z.n, z.d), h.arr('Y', z.n, 1), mus(h, mu), 'matern52'], kw, \
            [('covariance', at(0), (z.n, z.n)), ('inverse', at(1), (z.n, z.n)), ('lengthscales', lambda it, v: it.getitem(it.getitem(v, i_(2)), 'lengthscales'), (z.d,) if ard else ())]
    return cases(('n', 'd'), mk, Q.FAC)


def objective(tp, ard, fix):
    def mk(h, z):
        L = T.add(T.num((0 if fix else 1) + (1 if tp else 0) + 1), z.d if ard else S1)
        kw = {'use_ard': ard, 'fix_noise': fix, 'use_gradient': True}
        if not tp:
            kw['use_cholesky'] = True
        return ('bayeso.tp.tp_likelihood.' if tp else 'bayeso.gp.gp_likelihood.') + 'neg_log_ml', [h.arr('X', z.n, z.d), h.arr('Y', z.n, 1), h.arr('v', L, sign='pos'), 'se', h.arr('mu', z.n, 1)], kw, \
            [('objective', at(0), ()), ('gradient', at(1), (L,))]
    return cases(('n', 'd'), mk, Q.FAC, (lambda h, z: T.lt(T.num(2), mk_el(node('arr', 'v', 'pos'), (T.num(0 if fix else 1),)))) if tp else None)


def loo(o):
    def mk(h, z):
        L = T.add(T.num(1), z.d)
        return 'bayeso.gp.gp_likelihood.neg_log_pseudo_l_loocv', [h.arr('X', z.n, z.d), h.arr('Y', z.n, 1), h.arr('v', L, sign='pos'), 'se', h.arr('mu', z.n, 1)], {'fix_noise': True}, [('objective', one, ())]
    cases(('n', 'd'), mk, Q.FAC)(o)


def prior(mu, st):
    def mk(h, z):
        X = h.arr('X', z.n, z.s, z.d) if st else h.arr('X', z.n, z.d)
        return 'bayeso.utils.utils_gp.get_prior_mu', [mus(h, mu), X], {}, [('prior mean', one, (z.n, S1))]
    return cases(('n', 'd'), mk)


# ------------------------------------------------------------------ acquisition
def acqs(name):
    def mk(h, z):
        mean, std, Y = h.arr('mean', z.m), h.arr('std', z.m, sign='nonneg'), h.arr('Y', z.n, 1)
        a = {'pi': [mean, std, Y], 'ei': [mean, std, Y], 'ucb': [mean, std], 'aei': [mean, std, Y, h.fl('noise', 'pos')], 'pure_exploit': [mean], 'pure_explore': [std]}[name]
        return A + name, a, {}, [('values', one, (z.m,))]
    return cases(('m', 'n'), mk)


def opsel(f, mk):
    return cases(('n', 'd'), mk)


def utils(which):
    def mk(h, z):
        X, Y = h.arr('X', z.n, z.d), h.arr('Y', z.n, 1)
        P = h.arr('P', z.m, z.d)
        if which == 'normalize':
            return UB + 'normalize_min_max', [Y], {}, [('responses', one, (z.n, S1))]
        if which == 'evaluation':
            return UB + 'get_best_acquisition_by_evaluation', [P, h.user('f', None)], {}, [('best point', one, (S1, z.d))]
        if which == 'history':
            return UB + 'get_best_acquisition_by_history', [X, Y], {}, [('best query', at(0), (z.d,)), ('its response', at(1), ())]
        if which == 'next':
            return UB + 'get_next_best_acquisition', [P, h.arr('a', z.m), X], {}, [('point', one, (z.d,))]
        if which == 'bounds':
            return UB + 'check_points_in_bounds', [P, h.arr('R', z.d, 2)], {}, [('points', one, (z.m, z.d))]
        if which == 'minimum':
            rr = T.add(z.i, z.K)
            return UC + 'get_minimum', [h.arr('Y', z.r, rr), z.v('i')], {}, [('minima', at(0), (z.r, T.add(z.K, S1))), ('means', at(1), (T.add(z.K, S1),)), ('deviations', at(2), (T.add(z.K, S1),))]
        if which in ('time1', 'time0'):
            inc = which == 'time1'
            return UC + 'get_time', [h.arr('t', z.r, T.add(z.i, z.K) if inc else z.K), z.v('i'), inc], {}, [('times', one, (T.add(z.K, S1),))]
        if which == 'sigma':
            return UL + 'compute_sigma', [h.arr('a', z.n), h.arr('b', z.n, sign='nonneg')], {}, [('deviation', one, ())]
        raise KeyError(which)
    nm = {'normalize': ('n',), 'evaluation': ('m', 'd'), 'history': ('n', 'd'), 'next': ('n', 'm', 'd'), 'bounds': ('m', 'd'), 'minimum': ('r', 'i', 'K'), 'time1': ('r', 'i', 'K'), 'time0': ('r', 'i', 'K'), 'sigma': ('n',)}[which]
    return cases(nm, mk, pre=(lambda h, z: okbox(h, z.d)) if which == 'bounds' else None)


def vectors(str_cov, ard, tp, fix):
    def mk(h, z):
        L = T.add(T.num((0 if fix else 1) + (1 if tp else 0) + 1), z.d if ard else S1)
        D = hy(h, z, tp, ard)
        return 'bayeso.utils.utils_covariance.convert_hyps', [str_cov, D], {'fix_noise': fix, 'use_gp': not tp}, [('vector', one, (L,))]

    def mk2(h, z):
        L = T.add(T.num((0 if fix else 1) + (1 if tp else 0) + 1), z.d if ard else S1)
        return 'bayeso.utils.utils_covariance.restore_hyps', [str_cov, h.arr('v', L, sign='pos')], {'fix_noise': fix, 'use_gp': not tp, 'use_ard': ard}, \
            [('lengthscales', lambda it, v: it.getitem(v, 'lengthscales'), (z.d,) if ard else ())]

    def mk3(h, z):
        L = T.add(T.num((0 if fix else 1) + (1 if tp else 0) + 1), z.d if ard else S1)
        return 'bayeso.utils.utils_covariance.get_range_hyps', [str_cov, z.v('d')], {'fix_noise': fix, 'use_gp': not tp, 'use_ard': ard}, [('ranges', one, node('len', L))]

    def go(o):
        for q in (mk, mk2, mk3):
            cases(('d',), q)(o)
    return go


# ------------------------------------------------------------------ sampling and optimisation
CLS = {'gp': 'bayeso.bo.BOwGP', 'tp': 'bayeso.bo.BOwTP', 'rf': 'bayeso.bo.BOwTrees'}


def samples(meth, entry, sur):
    def mk(h, z):
        M = h.new(CLS[sur], [h.arr('R', z.d, 2)])
        return h.meth(M, entry), [meth, z.v('s')], {'seed': h.int('seed')}, [('points', one, (z.s, z.d))]
    return cases(('s', 'd'), mk, pre=lambda h, z: okbox(h, z.d))


def proposals(sur, acq, samp, opt, mode='regular', norm=False):
    def mk(h, z):
        kw = dict(str_acq=acq, normalize_Y=norm)
        if sur != 'rf':
            kw.update(str_cov='matern52', str_optimizer_method_bo=opt)
        M = h.new(CLS[sur], [h.arr('R', z.d, 2)], kw)
        k2 = dict(str_sampling_method=samp, num_samples=z.v('s'), seed=h.int('seed'))
        if sur == 'gp':
            k2['str_mlm_method'] = mode
        rows = S1 if opt in ('DIRECT', 'CMA-ES') and sur != 'rf' else z.s
        w = [('proposal', at(0), (z.d,)), ('candidates', key('next_points'), (rows, z.d)), ('scores', key('acquisitions'), (rows,)),
             ('original responses', key('Y_original'), (z.n, S1)), ('normalised responses', key('Y_normalized'), (z.n, S1))]
        if sur != 'rf':
            w += [('covariance', key('cov_X_X'), (z.n, z.n)), ('inverse', key('inv_cov_X_X'), (z.n, z.n))]
        w += [(q, key(q), ()) for q in ('time_overall', 'time_surrogate', 'time_acq')]
        return h.meth(M, 'optimize'), [h.arr('X', z.n, z.d), h.arr('Y', z.n, 1)], k2, w
    return cases(('n', 'd', 's'), mk, levels=[LEVELS, LEVELS2], imports={'scipydirect': True, 'cma': True})


def posteriors(sur, what):
    def mk(h, z):
        kw = dict(str_acq='aei', normalize_Y=True)
        M = h.new(CLS[sur], [h.arr('R', z.d, 2)], kw)
        X, Y, P = h.arr('X', z.n, z.d), h.arr('Y', z.n, 1), h.arr('P', z.m, z.d)
        if sur == 'rf':
            tr = Op(node('app', 'forest', 'x'), 'list')
            ar = [X, Y, P, tr]
            a2 = [P, X, Y, tr]
            ar = [P, tr]
        else:
            D = hy(h, z, sur == 'tp')
            ar = [X, Y, P, h.arr('C', z.n, z.n), h.arr('Ci', z.n, z.n), D] if False else [X, Y, P, h.arr('C', z.n, z.n), h.arr('Ci', z.n, z.n), D]
            a2 = [P, X, Y, h.arr('C', z.n, z.n), h.arr('Ci', z.n, z.n), D]
        if what == 'post':
            return h.meth(M, 'compute_posteriors'), ar, {}, [('mean', at(0), (z.m,)), ('deviation', at(1), (z.m,))]
        return h.meth(M, 'compute_acquisitions'), a2, {}, [('values', one, (z.m,))]
    return cases(('n', 'm', 'd'), mk, pre=(lambda h, z: DOF) if sur == 'tp' else None, levels=[{**Q.FAC, RFP: LEVELS[RFP]}])


# ------------------------------------------------------------------ runs
def runs(api, sur, vec):
    def mk(h, z):
        f = target(h, vec)
        X, Y = h.arr('X', z.n, z.d), h.arr('Y', z.n, 1)
        R = h.arr('R', z.d, 2)
        if api[0] == 'c':
            kw = {'str_optimizer_method_bo': 'random_search'} if sur == 'rf' else {}
            M = h.new(WC, [R, f, z.v('K')], dict(str_surrogate=sur, **kw))
            g, ar, k2 = {'all': ('optimize_with_all_initial_information', [X, Y], {}), 'inp': ('optimize_with_initial_inputs', [X], {}), 'run': ('optimize', [z.v('i')], {'seed': h.int('seed')})}[api[1]]
            g = h.meth(M, g)
        else:
            M = h.new(CLS[sur], [R])
            g, ar, k2 = {'all': ('run_single_round_with_all_initial_information', [X, Y], {}), 'inp': ('run_single_round_with_initial_inputs', [X], {}), 'run': ('run_single_round', [z.v('i')], {'seed': h.int('seed')})}[api[1]]
            g = WF + g
            ar = [M, f] + ar + [z.v('K')]
        n0 = z.i if api[1] == 'run' else z.n
        tot = T.add(n0, z.K)
        return g, ar, k2, [('inputs', at(0), (tot, z.d)), ('responses', at(1), (tot, S1)), ('overall times', at(2), (z.K if api[1] == 'all' else tot,)), ('surrogate times', at(3), (z.K,)), ('acquisition times', at(4), (z.K,))]
    return cases((('i',) if api[1] == 'run' else ('n',)) + ('d', 'K'), mk, OPTS, pre=lambda h, z: okbox(h, z.d))


def step(sur):
    def mk(h, z):
        kw = {'str_optimizer_method_bo': 'random_search'} if sur == 'rf' else {}
        M = h.new(WC, [h.arr('R', z.d, 2), target(h, False), z.v('K')], dict(str_surrogate=sur, **kw))
        return h.meth(M, 'optimize_single_iteration'), [h.arr('X', z.n, z.d), h.arr('Y', z.n, 1)], {}, [('next input', at(0), (z.d,))]
    return cases(('n', 'd'), mk, OPTS)


def thompson(o):
    def mk(h, z):
        return TSI, [h.arr('R', z.d, 2), h.arr('X', z.n, z.d), h.arr('Y', z.n, 1)], {'num_samples': z.v('s')}, [('next input', one, (z.d,))]
    cases(('n', 'd', 's'), mk, {PWO: pwo, SF: sf, SAMPS: samps}, pre=lambda h, z: okbox(h, z.d))(o)

    def mk2(h, z):
        return 'bayeso.thompson_sampling.thompson_sampling_gp', [h.arr('R', z.d, 2), target(h, False), z.v('i'), z.v('K')], {}, [('inputs', at(0), (T.add(z.i, z.K), z.d)), ('responses', at(1), (T.add(z.i, z.K), S1))]
    cases(('i', 'd', 'K'), mk2, {TSI: tsi}, pre=lambda h, z: okbox(h, z.d))(o)


def grids(dd):
    def mk(h, z):
        w = z.s
        for _ in range(dd - 1):
            w = T.mul(w, z.s)
        return UC + 'get_grids', [h.arr('R', T.num(dd), 2), z.v('s')], {}, [('grid', one, (w, T.num(dd)))]
    return cases(('s',), mk, pre=lambda h, z: okbox(h, T.num(dd)))


def forest(o):
    def mk(h, z):
        return UL + 'subsample', [h.arr('X', z.n, z.d), h.arr('Y', z.n, 1), Sc(S1, 'float'), True], {}, [('rows', at(0), (z.n, z.d)), ('responses', at(1), (z.n, S1))]
    cases(('n', 'd'), mk)(o)
    PT = 'bayeso.trees.trees_common._predict_by_trees'

    def pt(it, b):
        ea = argsenc(it, b)
        return tuple(Sc(mk_el(node('app', 'pt', q, *ea), (T.num(0),)), 'float') for q in (0, 1))

    def mk2(h, z):
        tr = h.it.newlist([Op(node('tree', 0), 'dict')])
        return UL + 'predict_by_trees', [h.arr('X', z.m, z.d), tr], {}, [('mean', at(0), (z.m, S1)), ('deviation', at(1), (z.m, S1))]
    cases(('m', 'd'), mk2, {PT: pt})(o)


def build(c):
    for tp in (False, True):
        t, f = ('tp', 'bayeso/tp/tp.py') if tp else ('gp', 'bayeso/gp/gp.py')
        for kind in ('cov', 'hyps', 'opt'):
            for mu, ard in ((False, True), (True, False)) if kind != 'opt' else ((True, True),):
                c.add(f'predict.{t}.{kind}.{mu}', f + ':predict_with_' + {'cov': 'cov', 'hyps': 'hyps', 'opt': 'optimized_hyps'}[kind], pred(tp, kind, mu, ard))
        c.add(f'sample.{t}', f + ':sample_functions', sampled(tp))
        for ard in (True, False):
            for fix in (True, False):
                c.add(f'objective.{t}.{ard}.{fix}', f'bayeso/{t}/{t}_likelihood.py:neg_log_ml', objective(tp, ard, fix))
                c.add(f'vector.{t}.{ard}.{fix}', 'bayeso/utils/utils_covariance.py', vectors('matern52', ard, tp, fix))
                for meth in (('SLSQP', 'L-BFGS-B') if tp else ('BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded')):
                    c.add(f'fit.{t}.{meth}.{ard}.{fix}', f'bayeso/{t}/{t}_kernel.py:get_optimized_kernel', fits(tp, meth, ard, fix, ard))
    c.add('loo', 'bayeso/gp/gp_likelihood.py:neg_log_pseudo_l_loocv', loo)
    for name in BASES + SETS:
        for w in ('cov', 'same', 'inverse', 'inverse-grad', 'chol', 'chol-grad'):
            if w in ('inverse', 'chol') and name not in ('se', 'set_se') or w.endswith('grad') and name in SETS:
                continue
            c.add(f'{w}.{name}', 'bayeso/covariance.py', kernels(w, name))
    for mu in (True, False):
        for st in (True, False):
            c.add(f'prior.{mu}.{st}', 'bayeso/utils/utils_gp.py:get_prior_mu', prior(mu, st))
    for q in ('pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore'):
        c.add(f'acq.{q}', 'bayeso/acquisition.py:' + q, acqs(q))
    for q in ('normalize', 'evaluation', 'history', 'next', 'bounds', 'minimum', 'time1', 'time0', 'sigma'):
        c.add(f'utils.{q}', 'bayeso/utils', utils(q))
    for dd in (1, 2, 3):
        c.add(f'grids.{dd}', 'bayeso/utils/utils_common.py:get_grids', grids(dd))
    for meth in SAMPLING:
        c.add(f'samples.{meth}', 'bayeso/bo/base_bo.py:get_samples', samples(meth, 'get_samples', 'gp'))
        c.add(f'initials.{meth}', 'bayeso/bo/base_bo.py:get_initials', samples(meth, 'get_initials', 'tp'))
    for sur in ('gp', 'tp', 'rf'):
        f = f'bayeso/bo/bo_w_{dict(gp="gp", tp="tp", rf="trees")[sur]}.py'
        for samp in ('sobol', 'uniform') if sur != 'gp' else SAMPLING:
            c.add(f'optimize.{sur}.{samp}', f + ':optimize', proposals(sur, 'ei', samp, 'L-BFGS-B', norm=samp == 'sobol'))
        if sur != 'rf':
            for opt in ('DIRECT',):
                c.add(f'optimize.{sur}.{opt}', f + ':optimize', proposals(sur, 'ucb', 'sobol', opt))
        if sur == 'gp':
            for mode in ('combined', 'converged'):
                c.add(f'optimize.gp.{mode}', f + ':optimize', proposals('gp', 'aei', 'sobol', 'L-BFGS-B', mode))
        for w in ('post', 'acq'):
            c.add(f'{w}.{sur}', f, posteriors(sur, w))
        c.add(f'step.{sur}', 'bayeso/wrappers/wrappers_bo_class.py:optimize_single_iteration', step(sur))
        for kind in ('c', 'f'):
            for a in ('all', 'inp', 'run'):
                if kind == 'f' and sur != 'gp':
                    continue
                w = 'bayeso/wrappers/wrappers_bo_class.py:BayesianOptimization' if kind == 'c' else 'bayeso/wrappers/wrappers_bo_function.py'
                for vec in (False, True):
                    c.add(f'run.{kind}.{sur}.{a}.{vec}', w, runs((kind, a), sur, vec))
    c.add('thompson', 'bayeso/thompson_sampling.py', thompson)
    c.add('forest', 'bayeso/trees/trees_common.py', forest)
