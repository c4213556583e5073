"""C20: inconsistent inputs are refused."""
from .runlib import *
from . import opaque as Q
from .c24 import CLS, DOF
from sa.check import walk
from sa.prove import has_unk

LEVEL = 'proof'
TECHNIQUE = TECH + 'every argument of every public entry point is made inconsistent in turn (one shared size replaced by another, an axis added or dropped, a single column widened, a count made non-positive, bounds reversed) with symbolic sizes; the path condition of a normal return must be unsatisfiable and no effect may precede the refusal'
NOTE = ('Entry points: covariance functions, Gaussian- and Student-t-process prediction, fitting and likelihoods, acquisition functions, the numeric utilities, the three models and their steps, the optimisation session class, '
        'the function-style runs, Thompson sampling, trees and plots. Each argument is corrupted alone: an array with one size different from the argument it must agree with (symbolic sizes), one axis more or fewer, '
        'a fixed size replaced, reversed bounds, a count below one, lengthscales of another dimension, a hyperparameter missing, a prior mean of another shape, more initial points than evaluations, a subsampling ratio that is none, an option name the library does not know. Not claimed, because the library accepts them: several response columns outside the '
        'optimisation entry points (prediction handles columns independently), counts of the function-style runs, of Thompson sampling, of trees and of the sampling methods, hyperparameter vectors longer than the kernel needs, '
        'and the number of points of plots and summaries that are drawn as given. Whole runs take the model step as a summary that refuses what the step is shown to refuse here.')


class A:
    """an array argument; sizes named by letters, fixed sizes as numbers"""

    def __init__(self, name, *dims, sign=''):
        self.name, self.dims, self.sign = name, dims, sign

    def make(self, h, dims=None):
        return h.arr(self.name, *[sz(q) for q in (dims or self.dims)], sign=self.sign)


class Cnt:
    """a count: at least one"""

    def __init__(self, name, lo=1):
        self.name, self.lo = name, lo

    def make(self, h):
        return h.int(self.name, 1)


class V:
    def __init__(self, f):
        self.f = f

    def make(self, h):
        return self.f(h)


class Bad:
    """an argument with hand-written inconsistent values: {label: (maker, condition)}"""

    def __init__(self, good, **bad):
        self.good, self.bad = good, bad

    def make(self, h):
        return self.good(h)


class Name:
    """an option name"""

    def __init__(self, v):
        self.v = v

    def make(self, h):
        return self.v


class Hy:
    """hyperparameters with one lengthscale per dimension"""

    def __init__(self, tp=False):
        self.tp = tp

    def make(self, h, dim='d', drop=None):
        D = {'signal': h.fl('sig', 'pos'), 'lengthscales': h.arr('ls', sz(dim), sign='pos'), 'noise': h.fl('noise', 'pos')}
        if self.tp:
            D['dof'] = h.fl('dof', 'pos')
        D.pop(drop, None)
        return h.it.newdict(D)


def sz(q):
    return q if isinstance(q, T.N) else T.num(q) if isinstance(q, int) else T.dim(q)


def ne(a, b):
    return bnot(T.eq(a, b))


class Case:
    def __init__(self, get, args, kw=None, held=(), pre=None, opaque=None, free=()):
        self.get, self.args, self.kw, self.held, self.pre, self.opaque = get, args, kw or {}, held, pre, opaque or {}
        self.free = free.split() if isinstance(free, str) else free

    def where(self):
        try:
            return self.get(None)
        except AttributeError:
            return 'bayeso'

    def slots(self):
        return [(i, a) for i, a in enumerate(self.args)] + sorted(self.kw.items())

    def corruptions(self):
        """(label, slot, maker, condition)"""
        used = {}
        for i, a in self.slots():
            for q in getattr(a, 'dims', ()):
                if isinstance(q, str):
                    used[q] = used.get(q, 0) + 1
            if isinstance(a, Hy):
                used['d'] = used.get('d', 0) + 1
        for q in self.held:
            used[q] = used.get(q, 0) + 1
        free = self.free
        for i, a in self.slots():
            if isinstance(a, A):
                for k_, q in enumerate(a.dims):
                    if isinstance(q, str) and used[q] < 2 or f'{a.name}.{k_}' in free:
                        continue
                    o_ = T.dim('z')
                    dims = a.dims[:k_] + (o_,) + a.dims[k_ + 1:]
                    yield f'{a.name}: size {k_} other than {q}', i, (lambda h, a=a, dims=dims: a.make(h, dims)), ne(o_, sz(q))
                if len(a.dims) > 1 and a.name + '-' not in free:
                    yield f'{a.name}: last axis missing', i, (lambda h, a=a: a.make(h, a.dims[:-1])), TRUE
                if a.name + '+' not in free:
                    yield f'{a.name}: an axis more', i, (lambda h, a=a: a.make(h, a.dims + (1,))), TRUE
                if a.name == 'R' and 'R!' not in free:
                    yield 'R: reversed bounds', i, (lambda h, a=a: a.make(h)), bnot(okbox(None, sz(a.dims[0])))
            if isinstance(a, Hy):
                for q in ('signal', 'lengthscales', 'noise') + (('dof',) if a.tp else ()):
                    if q not in free:
                        yield f'hyperparameters without {q}', i, (lambda h, a=a, q=q: a.make(h, drop=q)), TRUE
            if isinstance(a, Hy) and used['d'] > 1 and 'ls' not in free:
                yield 'lengthscales of another dimension', i, (lambda h, a=a: a.make(h, 'z')), ne(T.dim('z'), sz('d'))
            elif isinstance(a, Cnt) and a.name not in free:
                x = T.sym('cnt', 'int')
                yield f'{a.name}: not positive', i, (lambda h: Sc(x, 'int')), T.lt(x, T.num(1))
            elif isinstance(a, Bad):
                for q, (mk_, cond) in sorted(a.bad.items()):
                    yield f'{i}: {q.replace("_", " ")}', i, mk_, cond
            elif isinstance(a, Name):
                yield f'{i}: unsupported name', i, (lambda h: 'unsupported'), TRUE


LATE = ('lengthscales', 'hyperparameters', 'prior mean')  # refused where they are used, by the kernel: computing it is no effect
EFFECTS = ('user', 'fit', 'minimize', 'optimize', 'post', 'opq', 'setattr', 'fswrite', 'mpl', 'initials')


def strict(sur):
    """one step of a model, refusing what the step refuses (the step itself is checked below)"""
    run = OPTS[OPT[sur]]

    def summ(it, b):
        X_, Y_, R = (toarr(it, v) for v in (b['X_train'], b['Y_train'], it.getattr(b['self'], 'range_X')))
        if len(X_.shape) != 2 or len(Y_.shape) != 2:
            it.do_assert(FALSE)
        for u, v in ((X_.shape[0], Y_.shape[0]), (Y_.shape[1], T.num(1)), (X_.shape[1], R.shape[0])):
            it.do_assert(T.eq(u, v))
        n_ = b['num_samples']
        it.do_assert(T.le(T.num(1), n_.n if isinstance(n_, Sc) else T.num(n_)))
        if b['str_sampling_method'] not in SAMPLING:
            it.do_assert(FALSE)
        k = len(it.events)
        r = run(it, b)
        if not it.alive:
            del it.events[k:]
        return r
    return summ


STRICT = {OPT[q]: strict(q) for q in OPT}


def refuse(case, label, slot, mk, cond):
    def go(o):
        h = o.h(case.opaque, IMP)
        h.reset()
        it = h.it
        f = case.get(h)
        args = [mk(h) if i == slot else a.make(h) for i, a in enumerate(case.args)]
        kw = {q: mk(h) if q == slot else a.make(h) for q, a in sorted(case.kw.items())}
        pre = band(cond, case.pre(h) if case.pre and 'reversed' not in label else TRUE)
        if pre is FALSE:
            o.rec(label, 'undecided', 'no such input')
            return
        a = h.call(f, args, kw, pre)
        what = label
        o.rejects(what + ': refused', a, pre)
        for e, loops in walk(a.events):
            if e.kind not in EFFECTS or e.kind == 'opq' and any(q in label for q in LATE):
                continue
            pc = e.pc
            for l in loops:
                pc = T.band(pc, l.pc)
            if T.band(pc, pre) is FALSE:
                continue
            r = same(pc, FALSE, pre)
            if r.status != 'proved':
                o.rec(what + ': refused first', 'violated' if r.status == 'differs' else 'undecided', f'{e.kind} {str(e.data)[:200]} happens before the refusal', str(e.loc))
                return
        for m_ in a.muts:
            if T.band(m_[3], pre) is not FALSE and (m_[0] or '').startswith('arg:') and same(m_[3], FALSE, pre).status == 'differs':
                o.rec(what + ': refused first', 'violated', f'{m_[0]} is written before the refusal ({m_[1]})', str(m_[2]))
                return
        o.rec(what + ': refused first', 'proved', f'{len(a.events)} events')
    return go


IMP = {'scipydirect': True, 'cma': True, 'matplotlib': True, 'pylab': True}
C = 'bayeso.covariance.'
UB, UC, UG, UV = 'bayeso.utils.utils_bo.', 'bayeso.utils.utils_common.', 'bayeso.utils.utils_gp.', 'bayeso.utils.utils_covariance.'
TC = 'bayeso.trees.trees_common.'
P = 'bayeso.utils.utils_plotting.'
X, Y, XS = A('X', 'n', 'd'), A('Y', 'n', 1), A('Xs', 'm', 'd')
fn = lambda q: (lambda h: q)
SE = V(lambda h: 'se')


def model(sur, **kw):
    return lambda h: h.new(CLS[sur], [h.arr('R', d, 2)], kw)


def mu(rows=None, axes=1):
    """a prior mean function returning a column with one entry per input (or not)"""
    def shape(it, args):
        n_ = toarr(it, args[0]).shape[0] if rows is None else T.dim(rows)
        return [n_, T.num(1)][:1 if axes == 0 else 2] + ([T.num(1)] if axes == 2 else [])
    return lambda h: h.user('mu', shape, record=False)


PRIOR = Bad(mu(), prior_mean_with_another_number_of_rows=(mu('z'), ne(T.dim('z'), n)), prior_mean_without_column=(mu(None, 0), TRUE), prior_mean_with_an_axis_more=(mu(None, 2), TRUE))


def size(name, lo, hi, label):
    """a number that must not exceed a size"""
    z = T.dim('z')
    return Bad(lambda h: h.dimv(T.dim(name)), **{label: (lambda h: Sc(z, 'int'), T.lt(hi, z) if lo else T.le(hi, z))})


def cases(c):
    out = {}
    box = lambda h: okbox(h)
    N = T.add(T.dim('ni'), T.dim('t'))
    for tp in (False, True):
        t = 'tp' if tp else 'gp'
        Pk = f'bayeso.{t}.{t}.'
        dof = (lambda h: DOF) if tp else None
        out[f'{t}.predict_with_cov'] = Case(fn(Pk + 'predict_with_cov'), [X, Y, XS, A('C', 'n', 'n'), A('Ci', 'n', 'n'), Hy(tp), Name('se'), PRIOR], pre=dof, free='Y.1')
        out[f'{t}.predict_with_hyps'] = Case(fn(Pk + 'predict_with_hyps'), [X, Y, XS, Hy(tp), Name('se'), PRIOR], pre=dof, opaque=Q.FAC, free='Y.1')
        out[f'{t}.predict_with_optimized_hyps'] = Case(fn(Pk + 'predict_with_optimized_hyps'), [X, Y, XS], {'str_cov': Name('se'), 'str_optimizer_method': Name('L-BFGS-B')},
                                                       opaque={**Q.FAC, GPF: fit('gp'), TPF: fit('tp')}, free='Y.1')
        out[f'{t}.sample_functions'] = Case(fn(Pk + 'sample_functions'), ([V(lambda h: h.fl('nu', 'pos'))] if tp else []) + [A('mu', 'm'), A('S', 'm', 'm')])
        kw = {'str_optimizer_method': Name('L-BFGS-B')}
        if not tp:
            kw['str_modelselection_method'] = Name('ml')
        out[f'{t}.get_optimized_kernel'] = Case(fn(f'bayeso.{t}.{t}_kernel.get_optimized_kernel'), [X, Y, PRIOR, Name('se')], kw, opaque=Q.FAC, free='Y.1')
        L = T.add(T.num(2 + tp), d)
        out[f'{t}.neg_log_ml'] = Case(fn(f'bayeso.{t}.{t}_likelihood.neg_log_ml'), [X, Y, A('v', L, sign='pos'), Name('se'), A('mu', 'n', 1)], {'fix_noise': V(lambda h: False)}, opaque=Q.FAC, free='Y.1 v.0 mu.1')
    out['gp.neg_log_pseudo_l_loocv'] = Case(fn('bayeso.gp.gp_likelihood.neg_log_pseudo_l_loocv'), [X, Y, A('v', T.add(T.num(2), d), sign='pos'), Name('se'), A('mu', 'n', 1)], {'fix_noise': V(lambda h: False)}, opaque=Q.FAC, free='Y.1 v.0 mu.1')
    for q in ('se', 'matern32', 'matern52'):
        out[f'cov_{q}'] = Case(fn(C + 'cov_' + q), [A('X', 'n', 'd'), A('Z', 'm', 'd'), A('ls', 'd', sign='pos'), V(lambda h: h.fl('sig', 'pos'))], free='ls+')
        out[f'cov_main.{q}'] = Case(fn(C + 'cov_main'), [V(lambda h, q=q: q), A('X', 'n', 'd'), A('Z', 'm', 'd'), Hy(), V(lambda h: False)])
    out['cov_main'] = Case(fn(C + 'cov_main'), [Name('se'), A('X', 'n', 'd'), A('Z', 'm', 'd'), Hy(), V(lambda h: False)])
    out['cov_main.set_se'] = Case(fn(C + 'cov_main'), [V(lambda h: 'set_se'), A('X', 'n', 's', 'd'), A('Z', 'm', 'r', 'd'), Hy(), V(lambda h: False)])
    out['grad_cov_main'] = Case(fn(C + 'grad_cov_main'), [Name('se'), A('X', 'n', 'd'), A('Z', 'n', 'd'), Hy(), V(lambda h: False)])
    for q in ('get_kernel_inverse', 'get_kernel_cholesky'):
        out[q] = Case(fn(C + q), [A('X', 'n', 'd'), Hy(), Name('se')])
    out['cov_set'] = Case(fn(C + 'cov_set'), [V(lambda h: 'se'), A('X', 'n', 'd'), A('Z', 'm', 'd'), A('ls', 'd', sign='pos'), V(lambda h: h.fl('sig', 'pos'))], free='ls+')
    # acquisitions
    mean, std = A('mean', 'm'), A('std', 'm', sign='nonneg')
    for q in ('pi', 'ei', 'aei'):
        out[q] = Case(fn('bayeso.acquisition.' + q), [mean, std, Y] + ([V(lambda h: h.fl('noise', 'pos'))] if q == 'aei' else []), free='Y.1')
    out['ucb'] = Case(fn('bayeso.acquisition.ucb'), [mean, std])
    out['pure_exploit'] = Case(fn('bayeso.acquisition.pure_exploit'), [mean])
    out['pure_explore'] = Case(fn('bayeso.acquisition.pure_explore'), [std])
    # utilities
    out['normalize_min_max'] = Case(fn(UB + 'normalize_min_max'), [A('Y', 'n', 'k')])
    out['get_best_acquisition_by_evaluation'] = Case(fn(UB + 'get_best_acquisition_by_evaluation'), [A('P', 'm', 'd'), V(lambda h: h.user('f'))])
    out['get_best_acquisition_by_history'] = Case(fn(UB + 'get_best_acquisition_by_history'), [X, Y])
    out['get_next_best_acquisition'] = Case(fn(UB + 'get_next_best_acquisition'), [A('P', 'm', 'd'), A('a', 'm'), A('E', 'n', 'd')])
    out['check_points_in_bounds'] = Case(fn(UB + 'check_points_in_bounds'), [A('P', 'm', 'd'), A('R', 'd', 2)], free='R!')
    out['choose_fun_acquisition'] = Case(fn(UB + 'choose_fun_acquisition'), [Name('ei')])
    out['choose_fun_acquisition.aei'] = Case(fn(UB + 'choose_fun_acquisition'), [V(lambda h: 'aei'), Bad(lambda h: h.fl('noise', 'pos'), no_noise=(lambda h: None, TRUE))])
    out['get_grids'] = Case(fn(UC + 'get_grids'), [A('R', 2, 2), V(lambda h: h.int('g', 1))], free='R.0')
    out['get_minimum'] = Case(fn(UC + 'get_minimum'), [A('Y', 'r', T.add(T.dim('ni'), T.dim('t'))), size('ni', 0, N, 'no_evaluation_after_the_initial_ones')], free='Y.1')
    out['get_time'] = Case(fn(UC + 'get_time'), [A('t', 'r', T.add(T.dim('ni'), T.dim('t'))), size('ni', 0, N, 'no_evaluation_after_the_initial_ones'), V(lambda h: True)], free='t.1')
    out['get_prior_mu'] = Case(fn(UG + 'get_prior_mu'), [PRIOR, X], free='X+')
    out['get_hyps'] = Case(fn(UV + 'get_hyps'), [Name('se'), V(lambda h: h.int('d', 1))])
    out['get_range_hyps'] = Case(fn(UV + 'get_range_hyps'), [Name('se'), V(lambda h: h.int('d', 1))])
    out['validate_common_args'] = Case(fn(UG + 'validate_common_args'), [X, Y, SE, V(lambda h: None), V(lambda h: False), XS], free='Xs+ Y.1')
    # search spaces
    for sur in ('gp', 'tp', 'rf'):
        names = {'str_acq': Name('ei'), 'str_optimizer_method_bo': Name('random_search' if sur == 'rf' else 'L-BFGS-B')}
        if sur != 'rf':
            names.update(str_cov=Name('matern52'), str_optimizer_method_gp=Name('BFGS' if sur == 'gp' else 'L-BFGS-B'))
        ms = {'gp': {'str_modelselection_method': Name('ml')}}.get(sur, {})
        ts = {} if sur == 'rf' else {('str_optimizer_method_tp' if sur == 'tp' and q == 'str_optimizer_method_gp' else q): v for q, v in names.items()}
        out[f'{sur}.model'] = Case(lambda h, sur=sur: h.look(CLS[sur]), [A('R', 'd', 2)], {**(ts or names), **ms})
        out[f'{sur}.BayesianOptimization'] = Case(fn(WC), [A('R', 'd', 2), V(lambda h: h.user('f')), Cnt('num_iter')],
                                                  {'str_surrogate': Name(sur), 'num_samples_ao': Cnt('num_samples_ao'), **names, **ms, 'str_initial_method_bo': Name('sobol'), 'str_sampling_method_ao': Name('sobol'),
                                                   **({'str_mlm_method': Name('regular')} if sur == 'gp' else {})})
        ob = {'str_optimizer_method_bo': 'random_search'} if sur == 'rf' else {}
        for mode in ('regular', 'combined', 'converged') if sur == 'gp' else (None,):
            kw = {'num_samples': Cnt('num_samples'), 'str_sampling_method': Name('sobol')}
            if mode:
                kw['str_mlm_method'] = Name(mode)
            out[f'{sur}.optimize' + (f'.{mode}' if mode else '')] = Case(lambda h, sur=sur: h.meth(model(sur)(h), 'optimize'), [X, Y], kw, held='d', pre=box, opaque=LEVELS)
        out[f'{sur}.optimize_single_iteration'] = Case(lambda h, sur=sur, ob=ob: h.meth(cls(h, sur, h.user('f'), **ob), 'optimize_single_iteration'), [X, Y], held='d', pre=box, opaque=LEVELS)
        out[f'{sur}.all'] = Case(lambda h, sur=sur, ob=ob: h.meth(cls(h, sur, h.user('f'), **ob), 'optimize_with_all_initial_information'), [X, Y], held='d', pre=box, opaque=STRICT)
        out[f'{sur}.inputs'] = Case(lambda h, sur=sur, ob=ob: h.meth(cls(h, sur, h.user('f'), **ob), 'optimize_with_initial_inputs'), [A('X', 'n', 'd')], held='d', pre=box, opaque=STRICT)
        out[f'{sur}.run'] = Case(lambda h, sur=sur, ob=ob: h.meth(cls(h, sur, h.user('f'), **ob), 'optimize'), [Cnt('num_init')], pre=box, opaque=STRICT)
        if sur == 'gp':
            K = V(lambda h: h.int('K', 1))
            fs = [V(lambda h, sur=sur: model(sur)(h)), V(lambda h: h.user('f'))]
            na = {'num_samples_ao': Cnt('num_samples_ao'), 'str_sampling_method_ao': Name('sobol'), 'str_mlm_method': Name('regular')}
            out[f'{sur}.f.all'] = Case(fn(WF + 'run_single_round_with_all_initial_information'), fs + [X, Y, K], na, held='d', pre=box, opaque=STRICT)
            out[f'{sur}.f.inputs'] = Case(fn(WF + 'run_single_round_with_initial_inputs'), fs + [A('X', 'n', 'd'), K], na, held='d', pre=box, opaque=STRICT)
            out[f'{sur}.f.run'] = Case(fn(WF + 'run_single_round'), fs + [V(lambda h: h.int('I', 1)), K], {**na, 'str_initial_method_bo': Name('sobol')}, pre=box, opaque=STRICT)
        g = lambda q, sur=sur: (lambda h: h.meth(model(sur)(h), q))
        out[f'{sur}.get_samples'] = Case(g('get_samples'), [Name('uniform')], {'num_samples': V(lambda h: h.int('I', 1))}, pre=box)
        out[f'{sur}.get_initials'] = Case(g('get_initials'), [Name('uniform'), V(lambda h: h.int('I', 1))], pre=box)
        if sur != 'rf':
            g = lambda q, sur=sur: (lambda h: h.meth(model(sur, str_acq='aei')(h), q))
            dof = (lambda h: band(DOF, okbox(h))) if sur == 'tp' else box
            out[f'{sur}.compute_posteriors'] = Case(g('compute_posteriors'), [X, Y, A('P', 'm', 'd'), A('C', 'n', 'n'), A('Ci', 'n', 'n'), Hy(sur == 'tp')], held='d', pre=dof)
            out[f'{sur}.compute_acquisitions'] = Case(g('compute_acquisitions'), [A('P', 'm', 'd'), X, Y, A('C', 'n', 'n'), A('Ci', 'n', 'n'), Hy(sur == 'tp')], held='d', pre=dof, free='P-')
        else:
            tr = V(lambda h: Op(node('app', 'forest', 'x'), 'list'))
            out['rf.get_trees'] = Case(lambda h: h.meth(model('rf')(h), 'get_trees'), [X, Y], held='d', pre=box, opaque=LEVELS, free='X.1')
            out['rf.compute_posteriors'] = Case(lambda h: h.meth(model('rf')(h), 'compute_posteriors'), [A('P', 'm', 'd'), tr], held='d', pre=box, opaque=LEVELS)
            out['rf.compute_acquisitions'] = Case(lambda h: h.meth(model('rf')(h), 'compute_acquisitions'), [A('P', 'm', 'd'), X, Y, tr], held='d', pre=box, opaque=LEVELS, free='P- X+')
    from .c04 import pwo, sf, samps, PWO, SF, SAMPS
    out['ts.iteration'] = Case(fn(TSI), [A('R', 'd', 2), X, Y], {'str_sampling_method': Name('uniform')}, pre=box, opaque={PWO: pwo, SF: sf}, free='Y.1')
    out['ts.run'] = Case(fn('bayeso.thompson_sampling.thompson_sampling_gp'), [A('R', 'd', 2), V(lambda h: h.user('f')), V(lambda h: h.int('I', 1)), V(lambda h: h.int('K', 1))], {'str_sampling_method': Name('uniform')}, pre=box, opaque={TSI: tsi})
    # trees
    out['random_forest'] = Case(fn('bayeso.trees.trees_random_forest.get_random_forest'), [X, Y] + [V(lambda h, q=q: h.int(q, 1)) for q in ('num_trees', 'depth_max', 'size_min_leaf', 'num_features')],
                                opaque={'bayeso.trees.trees_generic_trees.get_generic_trees': forest})
    out['generic_trees'] = Case(fn('bayeso.trees.trees_generic_trees.get_generic_trees'), [X, Y] + [V(lambda h, q=q: h.int(q, 1)) for q in ('num_trees', 'depth_max', 'size_min_leaf')] + [V(lambda h: h.c(1.0)), V(lambda h: True), V(lambda h: h.int('num_features', 1)), V(lambda h: False)])
    r_ = T.sym('ratio', 'real')
    real = lambda h: Sc(r_, 'float')
    out['subsample'] = Case(fn(TC + 'subsample'), [X, Y, Bad(lambda h: h.c(1.0), ratio_not_positive=(real, T.le(r_, T.num(0)))), V(lambda h: True)])
    out['subsample.once'] = Case(fn(TC + 'subsample'), [X, Y, Bad(lambda h: h.c(1.0), ratio_not_positive=(real, T.le(r_, T.num(0))), ratio_above_one=(real, T.lt(T.num(1), r_))), V(lambda h: False)])
    out['compute_sigma'] = Case(fn(TC + 'compute_sigma'), [A('a', 'n'), A('b', 'n', sign='nonneg')])
    # plots
    x, y, xt = A('X', 'n', 1), A('Y', 'n', 1), [A(q, 'm', 1) for q in ('Xt', 'Yt', 'mu', 'sd', 'aq')]
    out['plot_gp_via_sample'] = Case(fn(P + 'plot_gp_via_sample'), [x, A('Ys', 'k', 'n')])
    out['plot_gp_via_distribution'] = Case(fn(P + 'plot_gp_via_distribution'), [x, y, xt[0], xt[2], xt[3]], {'Y_test': xt[1]})
    out['plot_bo_step'] = Case(fn(P + 'plot_bo_step'), [x, y] + xt[:4], {'num_init': size('n', 1, n, 'more_initial_than_all_observations')})
    out['plot_bo_step_with_acq'] = Case(fn(P + 'plot_bo_step_with_acq'), [x, y] + xt, {'num_init': size('n', 1, n, 'more_initial_than_all_observations')})
    lab = V(lambda h: h.it.newlist(['a', 'b']))
    out['plot_minimum_vs_iter'] = Case(fn(P + 'plot_minimum_vs_iter'), [A('M', 2, 'r', N), lab, size('ni', 1, N, 'more_initial_than_all_evaluations'), V(lambda h: True)], free='M.2')
    out['plot_minimum_vs_time'] = Case(fn(P + 'plot_minimum_vs_time'), [A('T', 2, 'r', N), A('M', 2, 'r', N), lab, size('ni', 1, N, 'more_initial_than_all_evaluations'), V(lambda h: True)], free='T.2 M.2')
    return out


def control(case):
    """the consistent call is accepted (so the refusals above are due to the inconsistency)"""
    def go(o):
        h = o.h(case.opaque, IMP)
        h.reset()
        f = case.get(h)
        pre = case.pre(h) if case.pre else TRUE
        a = h.call(f, [x.make(h) for x in case.args], {q: x.make(h) for q, x in sorted(case.kw.items())}, pre)
        ok = not a.dead and T.band(a.pc, pre) is not FALSE
        o.rec('consistent call', 'proved' if ok else 'undecided', 'accepted' if ok else 'no path of the consistent call returns')
    return go


def build(c):
    for nm, case in cases(c).items():
        where = case.where()
        if case.opaque is not LEVELS and nm not in ('generic_trees', 'random_forest'):
            c.add(f'{nm} | consistent', where, control(case), heavy=True)
        for label, slot, mk, cond in case.corruptions():
            c.add(f'{nm} | {label}', where, refuse(case, label, slot, mk, cond))
