"""C12: option names."""
from .common import *
from sa.check import walk
from . import opaque as Q
from .bolib import LEVELS

LEVEL = 'proof'
TECHNIQUE = TECH + 'option strings as symbolic strings, path conditions of every return, effects before the refusal, import availability as abstract cases'
NOTE = ('For every public entry point taking an option name: with a symbolic string different from every documented name no path returns and nothing is fitted, sampled, evaluated or written first; '
        'every documented name selects its implementation (kernels, gradients, acquisitions: value-graph equality; sampling methods: the generator its draws come from; optimisers: method and bounds of the call made); '
        'check_optimizer_method_bo equals the fallback table for every name, availability of optional packages and dimension. '
        'Names that one surrogate accepts and another refuses are tested against that surrogate\'s own list.')

ACQ = ('pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore')
COVS = BASES + SETS
OGP = ('BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded')
OTP = ('L-BFGS-B', 'SLSQP')
OBO = ('L-BFGS-B', 'DIRECT', 'CMA-ES')
OTR = ('random_search',)
INI = ('uniform', 'gaussian', 'sobol', 'halton')
SAM = INI + ('grid',)
MLM = ('regular', 'combined', 'converged')
MSEL = ('ml', 'loocv')
SUR = ('gp', 'tp', 'rf')
F = 'bayeso/covariance.py'
WORK = ('user', 'fit', 'post', 'opq', 'entropy', 'draw', 'minimize', 'chol', 'inv', 'reseed', 'globalstate', 'rngstate', 'write', 'fswrite', 'mpl', 'pyrandom')


def sym(nm):
    return Op(node('symstr', nm), 'str')


def streq(h, s, v):
    return T.cond_atom('streq', s.n, v)


def foreign(h, s, allowed):
    p = TRUE
    for a in allowed:
        p = band(p, bnot(streq(h, s, a)))
    return p


def X(h):
    return h.arr('X', n, d)


def Y(h):
    return h.arr('Y', n, 1)


def hy(h, **k):
    return h.hyps(True, **k)


def R(h, dd=d):
    return h.arr('R', dd, 2)


UC, UB = 'bayeso.utils.utils_covariance.', 'bayeso.utils.utils_bo.'
CV = 'bayeso.covariance.'
PL = [  # (function, parameter, documented names, other arguments)
    (CV + 'choose_fun_cov', 'str_cov', BASES, lambda h: {}),
    (CV + 'choose_fun_grad_cov', 'str_cov', BASES, lambda h: {}),
    (CV + 'get_kernel_inverse', 'str_cov', COVS, lambda h: dict(X_train=X(h), hyps=hy(h))),
    (CV + 'get_kernel_cholesky', 'str_cov', COVS, lambda h: dict(X_train=X(h), hyps=hy(h))),
    (CV + 'cov_set', 'str_cov', BASES, lambda h: dict(X=h.arr('X', n, d), Xp=h.arr('Z', m, d), lengthscales=h.arr('ls', d, sign='pos'), signal=h.fl('sig', 'pos'))),
    (CV + 'cov_main', 'str_cov', COVS, lambda h: dict(X=X(h), Xp=h.arr('Z', m, d), hyps=hy(h), same_X_Xp=False)),
    (CV + 'grad_cov_main', 'str_cov', COVS, lambda h: dict(X=X(h), Xp=X(h), hyps=hy(h), fix_noise=True)),
    (UC + 'get_hyps', 'str_cov', COVS, lambda h: dict(dim=h.dimv(d))),
    (UC + 'get_range_hyps', 'str_cov', COVS, lambda h: dict(dim=h.dimv(d))),
    (UC + 'convert_hyps', 'str_cov', COVS, lambda h: dict(hyps=hy(h))),
    (UC + 'restore_hyps', 'str_cov', COVS, lambda h: dict(hyps=h.arr('v', T.add(d, T.num(2))))),
    (UC + 'validate_hyps_dict', 'str_cov', COVS, lambda h: dict(hyps=hy(h), dim=h.dimv(d))),
    (UC + 'check_str_cov', 'str_cov', COVS, lambda h: dict(str_fun='f', shape_X1=(h.dimv(n), h.dimv(d)))),
    (UB + 'choose_fun_acquisition', 'str_acq', ACQ, lambda h: dict(noise=h.fl('noise', 'pos'))),
    (UB + 'check_optimizer_method_bo', 'str_optimizer_method_bo', OBO + OTR, lambda h: dict(dim=h.dimv(d), debug=False)),
    ('bayeso.gp.gp.predict_with_cov', 'str_cov', COVS, lambda h: dict(X_train=X(h), Y_train=Y(h), X_test=h.arr('Z', m, d), cov_X_X=h.arr('C', n, n), inv_cov_X_X=h.arr('Ci', n, n), hyps=hy(h))),
    ('bayeso.gp.gp.predict_with_hyps', 'str_cov', COVS, lambda h: dict(X_train=X(h), Y_train=Y(h), X_test=h.arr('Z', m, d), hyps=hy(h))),
    ('bayeso.gp.gp.predict_with_optimized_hyps', 'str_cov', COVS, lambda h: dict(X_train=X(h), Y_train=Y(h), X_test=h.arr('Z', m, d))),
    ('bayeso.gp.gp.predict_with_optimized_hyps', 'str_optimizer_method', OGP, lambda h: dict(X_train=X(h), Y_train=Y(h), X_test=h.arr('Z', m, d))),
    ('bayeso.gp.gp_kernel.get_optimized_kernel', 'str_cov', COVS, lambda h: dict(X_train=X(h), Y_train=Y(h), prior_mu=None)),
    ('bayeso.gp.gp_kernel.get_optimized_kernel', 'str_optimizer_method', OGP, lambda h: dict(X_train=X(h), Y_train=Y(h), prior_mu=None, str_cov='se')),
    ('bayeso.gp.gp_kernel.get_optimized_kernel', 'str_modelselection_method', MSEL, lambda h: dict(X_train=X(h), Y_train=Y(h), prior_mu=None, str_cov='se')),
    ('bayeso.gp.gp_likelihood.neg_log_ml', 'str_cov', COVS, lambda h: dict(X_train=X(h), Y_train=Y(h), hyps=h.arr('v', T.add(d, T.num(1))), prior_mu_train=h.arr('M', n, 1))),
    ('bayeso.gp.gp_likelihood.neg_log_pseudo_l_loocv', 'str_cov', COVS, lambda h: dict(X_train=X(h), Y_train=Y(h), hyps=h.arr('v', T.add(d, T.num(1))), prior_mu_train=h.arr('M', n, 1))),
    ('bayeso.tp.tp.predict_with_cov', 'str_cov', COVS, lambda h: dict(X_train=X(h), Y_train=Y(h), X_test=h.arr('Z', m, d), cov_X_X=h.arr('C', n, n), inv_cov_X_X=h.arr('Ci', n, n), hyps=hy(h, dof=h.fl('dof', 'pos')))),
    ('bayeso.tp.tp.predict_with_hyps', 'str_cov', COVS, lambda h: dict(X_train=X(h), Y_train=Y(h), X_test=h.arr('Z', m, d), hyps=hy(h, dof=h.fl('dof', 'pos')))),
    ('bayeso.tp.tp.predict_with_optimized_hyps', 'str_cov', COVS, lambda h: dict(X_train=X(h), Y_train=Y(h), X_test=h.arr('Z', m, d))),
    ('bayeso.tp.tp.predict_with_optimized_hyps', 'str_optimizer_method', OTP, lambda h: dict(X_train=X(h), Y_train=Y(h), X_test=h.arr('Z', m, d))),
    ('bayeso.tp.tp_kernel.get_optimized_kernel', 'str_cov', COVS, lambda h: dict(X_train=X(h), Y_train=Y(h), prior_mu=None)),
    ('bayeso.tp.tp_kernel.get_optimized_kernel', 'str_optimizer_method', OTP, lambda h: dict(X_train=X(h), Y_train=Y(h), prior_mu=None, str_cov='se')),
    ('bayeso.tp.tp_likelihood.neg_log_ml', 'str_cov', COVS, lambda h: dict(X_train=X(h), Y_train=Y(h), hyps=h.arr('v', T.add(d, T.num(2))), prior_mu_train=h.arr('M', n, 1))),
    ('bayeso.bo.BOwGP', 'str_cov', COVS, lambda h: dict(range_X=R(h))),
    ('bayeso.bo.BOwGP', 'str_acq', ACQ, lambda h: dict(range_X=R(h))),
    ('bayeso.bo.BOwGP', 'str_optimizer_method_gp', OGP, lambda h: dict(range_X=R(h))),
    ('bayeso.bo.BOwGP', 'str_optimizer_method_bo', OBO, lambda h: dict(range_X=R(h))),
    ('bayeso.bo.BOwGP', 'str_modelselection_method', MSEL, lambda h: dict(range_X=R(h))),
    ('bayeso.bo.BOwTP', 'str_cov', COVS, lambda h: dict(range_X=R(h))),
    ('bayeso.bo.BOwTP', 'str_acq', ACQ, lambda h: dict(range_X=R(h))),
    ('bayeso.bo.BOwTP', 'str_optimizer_method_tp', OTP, lambda h: dict(range_X=R(h))),
    ('bayeso.bo.BOwTP', 'str_optimizer_method_bo', OBO, lambda h: dict(range_X=R(h))),
    ('bayeso.bo.BOwTrees', 'str_surrogate', ('rf',), lambda h: dict(range_X=R(h))),
    ('bayeso.bo.BOwTrees', 'str_acq', ACQ, lambda h: dict(range_X=R(h))),
    ('bayeso.bo.BOwTrees', 'str_optimizer_method_bo', OTR, lambda h: dict(range_X=R(h))),
    ('bayeso.thompson_sampling.thompson_sampling_gp_iteration', 'str_sampling_method', SAM, lambda h: dict(range_X=R(h), X=X(h), Y=Y(h))),
    ('bayeso.thompson_sampling.thompson_sampling_gp', 'str_sampling_method', INI, lambda h: dict(range_X=R(h), fun_target=h.user('f'), num_init=h.int('ni', 1), num_iter=h.int('K', 1))),
]
CLS = 'bayeso.wrappers.wrappers_bo_class.BayesianOptimization'
for p, al in (('str_surrogate', SUR), ('str_cov', COVS), ('str_acq', ACQ), ('str_initial_method_bo', INI), ('str_sampling_method_ao', SAM), ('str_optimizer_method_gp', OGP),
              ('str_optimizer_method_tp', OTP), ('str_optimizer_method_bo', OBO + OTR), ('str_mlm_method', MLM), ('str_modelselection_method', MSEL)):
    PL.append((CLS, p, al, lambda h: dict(range_X=R(h), fun_target=h.user('f'), num_iter=h.int('K', 1))))

ML = [  # methods of the optimisation classes
    ('BOwGP', 'get_samples', 'str_sampling_method', SAM, lambda h: dict(num_samples=h.int('N', 1))),
    ('BOwGP', 'get_initials', 'str_initial_method', INI, lambda h: dict(num_initials=h.int('N', 1))),
    ('BOwGP', 'optimize', 'str_sampling_method', SAM, lambda h: dict(X_train=X(h), Y_train=Y(h))),
    ('BOwGP', 'optimize', 'str_mlm_method', MLM, lambda h: dict(X_train=X(h), Y_train=Y(h))),
    ('BOwTP', 'optimize', 'str_sampling_method', SAM, lambda h: dict(X_train=X(h), Y_train=Y(h))),
    ('BOwTrees', 'optimize', 'str_sampling_method', SAM, lambda h: dict(X_train=X(h), Y_train=Y(h))),
]
WL = [
    ('run_single_round', 'str_initial_method_bo', INI, lambda h: dict(num_init=h.int('ni', 1), num_iter=h.int('K', 1))),
    ('run_single_round', 'str_mlm_method', MLM, lambda h: dict(num_init=h.int('ni', 1), num_iter=h.int('K', 1))),
    ('run_single_round_with_initial_inputs', 'str_mlm_method', MLM, lambda h: dict(X_train=X(h), num_iter=h.int('K', 1))),
    ('run_single_round_with_all_initial_information', 'str_mlm_method', MLM, lambda h: dict(X_train=X(h), Y_train=Y(h), num_iter=h.int('K', 1))),
]


def other(f, p, al, mk, model=None, meth=None):
    def go(o):
        h = o.h(LEVELS if model or 'thompson' in (f or '') else None)
        s = sym('s')
        pre = foreign(h, s, al)
        kw = mk(h)
        kw[p] = s
        tgt = f
        if meth:
            M = h.new('bayeso.bo.' + model, [R(h)])
            tgt = h.meth(M, meth)
        elif model:
            kw['model_bo'] = h.new('bayeso.bo.' + model, [R(h)])
            kw['fun_target'] = h.user('f')
        r = h.call(tgt, [], kw, pre)
        o.rejects(f'{p} not one of {", ".join(al)}', r, pre)
        o.noevents(f'{p}: nothing done before the refusal', r, WORK, pre)
        # a refusal of a documented name would be a violation of the other half
    return go


def accepted(f, p, al, mk):
    """every documented name gets past the checks of its entry point"""
    def go(o):
        for nm in al:
            h = o.h({**LEVELS, **Q.FAC, **Q.COV, **Q.GRAD} if 'covariance.get' not in f and 'likelihood' not in f and 'get_optimized' not in f else Q.COV | Q.GRAD if 'covariance' in f else Q.FAC, I)
            kw = mk(h)
            st = nm.startswith('set_')
            if st and 'X' in kw or st and 'X_train' in kw:
                for q, z, r in (('X', 'X', n), ('X_train', 'X', n), ('X_test', 'Z', m), ('Xp', 'Z', m)):
                    if q in kw:
                        kw[q] = h.arr(z, r, T.dim('s'), d)
                if f.endswith('grad_cov_main'):
                    kw['Xp'] = kw['X']
            if st and f.endswith('check_str_cov'):
                kw['shape_X1'] = (h.dimv(n), h.dimv(T.dim('s')), h.dimv(d))
            kw[p] = nm
            if f == CLS and nm in OTR:          # forests need their own optimiser name
                kw['str_surrogate'] = 'rf'
            if f == CLS and nm == 'rf':
                kw['str_optimizer_method_bo'] = 'random_search'
            r = h.call(f, [], kw)
            if r.dead:
                o.rec(f'{p}={nm} is accepted', 'violated', 'no path returns; raises ' + ', '.join(sorted({str(e.data) for e in r.events if e.kind == 'raise'})))
            else:
                o.rec(f'{p}={nm} is accepted', 'proved')
    return go


I = {'scipydirect': True, 'cma': True}


def kernels(nm):
    def go(o):
        h = o.h()
        f = {'eq': 'se'}.get(nm, nm)
        for what, spec, args in (('choose_fun_cov', 'spec.kernels.' + f, lambda: [h.arr('X', n, d), h.arr('Xp', m, d), h.arr('ls', d, sign='pos'), h.fl('sig', 'pos')]),
                                 ('choose_fun_grad_cov', 'bayeso.covariance.grad_cov_' + f, lambda: [h.arr('K', n, n), h.arr('X', n, d), h.arr('X', n, d), h.hyps(True), h.dimv(T.add(d, T.num(1))), True])):
            r = h.call(CV + what, [nm])
            if not o.returns(f'{what}({nm})', r):
                continue
            a = h.call(r.val, args())
            s = h.call(spec, args())
            if a.dead:
                o.returns('selected function', a)
                continue
            o.eq(f'{what}({nm}) is the kernel of that name', a.enc, s.enc, band(a.pc, s.pc))
    return go


def sampling(sur, nm):
    def go(o):
        from .runlib import bare
        dd = T.num(2) if nm == 'grid' else d
        for seed in (True, False):
            h = o.h()
            M = h.new('bayeso.bo.' + {'gp': 'BOwGP', 'tp': 'BOwTP', 'rf': 'BOwTrees'}[sur], [R(h, dd)])
            a = h.call(h.meth(M, 'get_samples'), [nm, h.int('N', 1)], {'seed': h.int('seed') if seed else None})
            if a.dead:
                o.returns('get_samples', a)
                continue
            s = h.call('spec.bo.sample', [R(h, dd), nm, h.int('N', 1), h.int('seed') if seed else None])
            o.eq(f'get_samples({nm})', a.enc, s.enc, band(a.pc, s.pc))
            if nm in INI:
                b = h.call(h.meth(M, 'get_initials'), [nm, h.int('N', 1)], {'seed': h.int('seed') if seed else None})
                if b.dead:
                    o.returns('get_initials', b)
                    continue
                s = h.call('spec.bo.sample', [R(h, dd), nm, h.int('N', 1), h.int('seed') if seed else None])
                o.eq(f'get_initials({nm})', b.enc, s.enc, band(b.pc, s.pc))
    return go


def fallback(nm):
    def go(o):
        for direct in (True, False):
            for cma in (True, False):
                h = o.h(None, {'scipydirect': direct, 'cma': cma})
                a = h.call(UB + 'check_optimizer_method_bo', [nm, h.int('D', 1), h.flag('debug')])
                if not o.returns('check_optimizer_method_bo', a):
                    if a.dead:
                        continue
                it = h.it
                for one in (True, False):
                    b = h.call(UB + 'check_optimizer_method_bo', [nm, Sc(T.num(1), 'int') if one else h.dimv(T.add(d, T.num(1))), h.flag('debug')])
                    want = 'L-BFGS-B' if (nm == 'DIRECT' and not direct) or (nm == 'CMA-ES' and (not cma or one)) else nm
                    if b.dead:
                        o.returns('check_optimizer_method_bo', b)
                        continue
                    o.eq(f'{nm}, scipydirect {"present" if direct else "missing"}, cma {"present" if cma else "missing"}, {"one dimension" if one else "two or more dimensions"}: {want}', b.enc, it.enc(want), b.pc)
    return go


def surrogate(sur):
    """the surrogate's own optimisation call is made, and no other"""
    def go(o):
        from .runlib import OPTS, cls, target
        h = o.h(OPTS)
        B = cls(h, sur, target(h, False), **({'str_optimizer_method_bo': 'random_search'} if sur == 'rf' else {}))
        a = h.call(h.meth(B, 'optimize_single_iteration'), [h.arr('X', n, d), h.arr('Y', n, 1)])
        if a.dead:
            o.returns('optimize_single_iteration', a)
            return
        used = [e.data[0] for e, *_ in walk(a.events) if e.kind == 'optimize' and e.pc is not FALSE]
        if used == [sur]:
            o.rec(f'str_surrogate={sur} optimises with that surrogate', 'proved')
        else:
            o.rec(f'str_surrogate={sur} optimises with that surrogate', 'violated' if used else 'undecided', f'used: {used}')
    return go


def build(c):
    from . import c06, c15, c16
    from .bolib import Cfg, SAMPLING, ACQ as ACQS, KERNELS
    for nm in BASES:
        c.add('name.kernel.' + nm, F + ':choose_fun_cov', kernels(nm))
    for nm in ACQ:
        c.add('name.acq.' + nm, 'bayeso/utils/utils_bo.py:choose_fun_acquisition', c16.disp(nm))
    for sur in SUR:
        c.add('name.surrogate.' + sur, 'bayeso/wrappers/wrappers_bo_class.py:__init__', surrogate(sur))
        for nm in SAM:
            c.add(f'name.sampling.{sur}.{nm}', 'bayeso/bo/base_bo.py:get_samples', sampling(sur, nm))
    for nm in OBO + OTR:
        c.add('name.fallback.' + nm, 'bayeso/utils/utils_bo.py:check_optimizer_method_bo', fallback(nm))
    for meth in OGP:
        for sel in MSEL:
            c.add(f'name.fit.gp.{meth}.{sel}', 'bayeso/gp/gp_kernel.py:get_optimized_kernel', c15.fit(False, 'se', meth, sel, True, False, False))
    for meth in OTP:
        c.add(f'name.fit.tp.{meth}', 'bayeso/tp/tp_kernel.py:get_optimized_kernel', c15.fit(True, 'se', meth, None, True, False, False))
    N = T.dim('N')
    D1 = T.add(d, T.num(1))
    cf = [Cfg(s, acq=a, N=N) for s in SUR for a in ACQS] + [Cfg(s, cov=v, N=N) for s in ('gp', 'tp') for v in KERNELS] + [Cfg(s, samp=q, N=N) for s in SUR for q in SAMPLING]
    cf += [Cfg(s, opt=q, N=N, dim=D1 if q == 'CMA-ES' else d) for s in ('gp', 'tp') for q in OBO] + [Cfg('gp', mode=q, N=N) for q in MLM] + [Cfg('gp', sel=q, mode=r, N=N) for q in MSEL for r in ('regular', 'combined')]
    cf += [Cfg('gp', fitm=q, N=N) for q in OGP] + [Cfg('tp', fitm=q, N=N) for q in OTP]
    seen = set()
    for x in cf:
        if str(x) not in seen:
            seen.add(str(x))
            c.add(f'name.optimize.{x}', f'bayeso/bo/bo_w_{dict(gp="gp", tp="tp", rf="trees")[x.sur]}.py:optimize', c06.model(x))
    for f, p, al, mk in PL:
        c.add(f'known.{f}.{p}', f, accepted(f, p, al, mk))
    for f, p, al, mk in PL:
        c.add(f'other.{f}.{p}', f, other(f, p, al, mk))
    for M, me, p, al, mk in ML:
        c.add(f'other.{M}.{me}.{p}', f'bayeso/bo: {M}.{me}', other(None, p, al, mk, M, me))
    for f, p, al, mk in WL:
        c.add(f'other.{f}.{p}', 'bayeso/wrappers/wrappers_bo_function.py:' + f, other('bayeso.wrappers.wrappers_bo_function.' + f, p, al, mk, 'BOwGP'))
