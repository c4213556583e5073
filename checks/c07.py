"""C07: arguments, search spaces, defaults and constants are never modified."""
from fractions import Fraction
from .runlib import *
from . import c24, c17
from sa.interp import mkarr
from sa.prove import has_unk
from sa.values import ArrCell, ListCell, DictCell

LEVEL = 'proof'
TECHNIQUE = 'effect analysis with alias tracking on the abstract interpreter: every write to an array, list or dictionary is attributed to the objects it may reach (through views, containers, attributes and defaults); an object no write reaches is unmodified, one that a write reaches is compared before and after'
NOTE = ('Every public function and method is interpreted with symbolic arguments; each caller-supplied array, list and dictionary (also those retained in objects, such as the search space), each shared default and each module-level object is followed through views, in-place operators and containers. '
        'Callees are summarised only where they are watched themselves. Caller-supplied functions are assumed not to modify what they are given.')


def argorigins(it, v, name, out, seen):
    v = it.res(v)
    if isinstance(v, Ref) and v.id in it.heap and v.id not in seen:
        seen.add(v.id)
        c = it.heap[v.id]
        if isinstance(c, (ArrCell, ListCell, DictCell)):
            if not c.origin:
                c.origin = 'arg:' + name
            out.append((name, v))
        if isinstance(c, DictCell):
            for k, x in c.d.items():
                argorigins(it, x, f'{name}[{k}]', out, seen)
        elif isinstance(c, ListCell):
            for i, s in enumerate(c.segs):
                if s[0] == 'item':
                    argorigins(it, s[1], f'{name}[{i}]', out, seen)
        elif hasattr(c, 'attrs'):
            for k, x in c.attrs.items():
                if isinstance(it.res(x), Ref) and getattr(it.heap.get(it.res(x).id), 'origin', None):
                    argorigins(it, x, f'{name}.{k}', out, seen)
    elif isinstance(v, tuple):
        for i, x in enumerate(v):
            argorigins(it, x, f'{name}[{i}]', out, seen)


def watch(o, h, args, kw, f=None):
    it = h.it
    for nm in sorted(hn.repo().trees):
        if not nm.startswith('spec'):
            it.module(nm)
    held, seen = [], set()
    for i, v in list(enumerate(args)) + sorted(kw.items()):
        argorigins(it, v, f'argument {i}', held, seen)
    for i, c in list(it.heap.items()):
        og = getattr(c, 'origin', None)
        if og and i not in seen and isinstance(c, (ArrCell, ListCell, DictCell)):
            seen.add(i)
            held.append((og, Ref(i, 'arr' if isinstance(c, ArrCell) else 'list' if isinstance(c, ListCell) else 'dict')))
    before = [(nm, r, it.enc(r), it.heap[r.id].origin) for nm, r in held]

    def after(what, a, pre):
        """nothing the caller or the module holds was modified"""
        if a.dead:
            o.rec(what + ': a path returns', 'undecided', 'no path returns')
            return
        hit = {}
        for m_ in a.muts:
            if T.band(m_[3], pre) is not FALSE:
                hit.setdefault(m_[0], []).append(m_)
        n_ = 0
        for nm, r, b, og in before:
            if og not in hit:
                n_ += 1
                continue
            e = it.enc(r) if r.id in it.heap else b
            ms_ = hit[og]
            at = f'{ms_[0][4][-1] if ms_[0][4] else ""} line {ms_[0][2][1] if ms_[0][2] else "?"} ({ms_[0][1]})'
            if has_unk(e):
                for m_ in ms_:              # a write through a view: did it change the viewed elements?
                    if m_[5] is not None:
                        x, y = (it.enc(it.alloc('arr', ArrCell(q))) for q in m_[5])
                        res = same(x, y, band(m_[3], pre))
                        if res.status == 'differs':
                            o.rec(f'{what}: {nm} is left as it was', 'violated', f'{at}: written through a view: {res}')
                            break
                else:
                    o.rec(f'{what}: {nm} is left as it was', 'undecided', at)
                continue
            if e is b and r.id in it.heap:
                # the written object may have been another one of the same origin, or the write restored the value
                o.rec(f'{what}: {nm} is left as it was', 'proved', 'same value')
                continue
            o.eq(f'{what}: {nm} is left as it was', e, b, band(a.pc, pre), at=at)
        for og, ms_ in hit.items():
            if og.startswith('module:') and not any(x[3] == og for x in before):
                o.rec(f'{what}: {og} is left as it was', 'violated', f'{ms_[0][1]} at {ms_[0][2]}')
        o.rec(f'{what}: {len(before)} held objects', 'proved', f'{n_} no write reaches, {len(hit)} written')
    return after


def extra(f, mk, imports=None):
    def go(o):
        h = o.h(OPTS if 'bo_class' in f else {}, imports)
        r = mk(h)
        args, kw, pre = (r + (TRUE,))[:3] if isinstance(r, tuple) else (r, {}, TRUE)
        seen = watch(o, h, args, kw)
        a = h.call(f, args, kw, pre)
        seen(f, a, pre)
    return go


def xs(h, d_=d):
    return [h.arr('X', n, d_), h.arr('Z', m, d_)]


def hy(h, ard=True, **k):
    return h.hyps(ard, **k)


CV, UCV = 'bayeso.covariance.', 'bayeso.utils.utils_covariance.'
UG, LOG, UB = 'bayeso.utils.utils_gp.', 'bayeso.utils.utils_logger.', 'bayeso.utils.utils_bo.'
TC = 'bayeso.trees.trees_common.'
NH = T.add(d, T.num(2))


def tr(h, k):
    h.pre = TRUE
    h.it.unroll = {c17.PT: 9}
    return h.it.newlist([c17.tree(h, (c17.X2, None), f't{i}') for i in range(k)])


EXTRA = {}
for q in ('se', 'matern32', 'matern52'):
    EXTRA['cov_' + q] = (CV + 'cov_' + q, lambda h: xs(h) + [h.arr('ls', d, sign='pos'), h.fl('sig', 'pos')])
    EXTRA['grad_cov_' + q] = (CV + 'grad_cov_' + q, lambda h: ([h.arr('K', n, n), h.arr('X', n, d), h.arr('X', n, d), hy(h), Sc(NH, 'int'), False], {}))
    EXTRA['set_' + q] = (CV + 'cov_set', lambda h, q=q: [q] + xs(h) + [h.arr('ls', d, sign='pos'), h.fl('sig', 'pos')])
    EXTRA['grad_main_' + q] = (CV + 'grad_cov_main', lambda h, q=q: ([q, h.arr('X', n, d), h.arr('X', n, d), hy(h), False], {'same_X_Xp': True}))
for tp in (False, True):
    EXTRA[f'validate_hyps_dict.{tp}'] = (UCV + 'validate_hyps_dict', lambda h, tp=tp: ([hy(h, **({'dof': h.fl('dof', 'pos')} if tp else {})), 'se', h.dimv(d)], {'use_gp': not tp},
                                                                               T.lt(T.num(2), T.sym('dof', 'real', 'pos')) if tp else TRUE))
EXTRA['str_hyps'] = (LOG + 'get_str_hyps', lambda h: [hy(h)])
for k_ in (1, 2, 3):
    EXTRA[f'str_array_{k_}'] = (LOG + 'get_str_array', lambda h, k_=k_: [h.arr('A', *(T.num(2),) * k_)])
EXTRA['validate_common_args'] = (UG + 'validate_common_args', lambda h: [h.arr('X', n, d), h.arr('Y', n, 1), 'se', None, False, h.arr('Xs', m, d)])
EXTRA['check_hyps_convergence'] = (UB + 'check_hyps_convergence', lambda h: [h.it.newlist([hy(h), hy(h, noise='noise2')]), hy(h, noise='noise3'), 'se', False])
EXTRA['mse'] = (TC + 'mse', lambda h: [(c17.pairs(h, 'XL', 'YL', T.dim('nl')), c17.pairs(h, 'XR', 'YR', T.dim('nr')))])
EXTRA['predict_by_trees'] = (TC + 'predict_by_trees', lambda h: [h.arr('Q', m, d), tr(h, 2)])
EXTRA['random_forest'] = ('bayeso.trees.trees_random_forest.get_random_forest', lambda h: (h.it.opaque.update({c17.SP: c17.sp, c17.GR: c17.grown}), [h.arr('X', n, d), h.arr('Y', n, 1), h.int('num', 1), h.int('dep'), h.int('leaf'), h.int('F', 1)])[1])
EXTRA['generic_trees'] = ('bayeso.trees.trees_generic_trees.get_generic_trees', lambda h: (h.it.opaque.update({c17.SP: c17.sp, c17.GR: c17.grown}), [h.arr('X', n, d), h.arr('Y', n, 1), h.int('num', 1), h.int('dep'), h.int('leaf'), Sc(T.num(1), 'float'), True, h.int('F', 1), False])[1])
EXTRA['_split'] = (c17.SP, lambda h: h.it.opaque.update({c17.L: c17.slr, c17.M: c17.ms}) or [h.arr('X', n, d), h.arr('Y', n, 1), h.int('F', 1), False])
EXTRA['_split.random'] = (c17.SP, lambda h: h.it.opaque.update({c17.L: c17.slr, c17.M: c17.ms}) or [h.arr('X', n, d), h.arr('Y', n, 1), h.int('F', 1), True])
EXTRA['_split_left_right'] = (c17.L, lambda h: ([h.arr('X', n, d), h.arr('Y', n, 1), Sc(T.sym('j', 'int', 'nonneg'), 'int'), h.fl('v')], {}, T.lt(T.sym('j', 'int', 'nonneg'), d)))
PX = lambda h: [h.arr('X', n, 1), h.arr('Y', n, 1)]
PT_ = lambda h, acq=(): [h.arr(q, m, 1) for q in ('Xt', 'Yt', 'mu', 'sd') + acq]
ML = lambda h: [h.arr('M', 2, k, T.add(m, n)), h.it.newlist(['a', 'b']), h.dimv(m), True]
PLOTS = {'plot_gp_via_sample': lambda h: [h.arr('X', n, 1), h.arr('Ys', m, n)],
         'plot_gp_via_distribution': lambda h: (PX(h) + [h.arr(q, m, 1) for q in ('Xt', 'mu', 'sd')], {'Y_test': h.arr('Yt', m, 1)}),
         'plot_bo_step': lambda h: (PX(h) + PT_(h), {'num_init': h.dimv(k)}, T.lt(k, n)),
         'plot_bo_step_with_acq': lambda h: (PX(h) + PT_(h, ('aq',)), {'num_init': h.dimv(k)}, T.lt(k, n)),
         'plot_minimum_vs_iter': lambda h: ML(h),
         'plot_minimum_vs_time': lambda h: [h.arr('T', 2, k, T.add(m, n))] + ML(h)}


def clamp(o):
    """the degrees of freedom of a caller's dictionary, any value"""
    h = o.h()
    D = hy(h, dof=h.fl('dof', 'pos'))
    a = h.call(UCV + 'validate_hyps_dict', [D, 'se', h.dimv(d)], {'use_gp': False})
    if a.dead:
        return o.rec('validation', 'undecided', 'no path returns')
    dof = T.sym('dof', 'real', 'pos')
    bad = ite(T.lt(T.num(2), dof), dof, T.num(Fraction('2.00001')))
    o.eq_known('degrees of freedom of the dictionary passed in', h.it.enc(h.it.getitem(D, 'dof')), dof, bad, 'KF-C07-dof', a.pc)
    for q in ('signal', 'lengthscales', 'noise'):
        o.eq(q + ' of the dictionary passed in', h.it.enc(h.it.getitem(D, q)), h.it.enc(h.it.getitem(hy(h), q)), a.pc)



def plot(f, mk):
    return extra('bayeso.utils.utils_plotting.' + f, mk, {'matplotlib': True, 'pylab': True})


def build(c):
    c24.WATCH = watch
    c24.build(c)
    for nm, (f, mk) in EXTRA.items():
        c.add('extra.' + nm, f, extra(f, mk))
    c.add('clamp', 'bayeso/utils/utils_covariance.py:validate_hyps_dict', clamp)
    for f, mk in sorted(PLOTS.items()):
        c.add('plot.' + f, 'bayeso/utils/utils_plotting.py:' + f, plot(f, mk))
