"""C09: predictive deviations."""
import ast
from .common import *
from . import opaque as Q
from .c10 import modes, data
from .c14 import mu_user, hy, PRE_DOF
from sa import sign

LEVEL = 'proof'
TECHNIQUE = TECH + 'plus a flow-sensitive sign analysis (valid in floating point) of every square root in the predictive code'
NOTE = ('predict_with_cov / predict_with_hyps of both processes for arbitrary data, hyperparameters, kernels and an arbitrary (unrelated) inverse: the deviation is the square root of the clipped diagonal of the returned covariance '
        '(real arithmetic); compute_sigma equals the clipped mixture deviation; no square root in gp.py, tp.py and the tree modules is applied to a difference that nothing clips (floating point). '
        'Square roots whose argument has an unknown sign (not a difference) are reported as assumptions.')
PRED = ('bayeso.gp.gp', 'bayeso.tp.tp', 'bayeso.trees.trees_common', 'bayeso.trees.trees_generic_trees', 'bayeso.trees.trees_random_forest', 'bayeso.utils.utils_bo', 'bayeso.utils.utils_gp')


def dev(tp, mu, hyps):
    def go(o):
        def run(o, h, name):
            P = 'bayeso.tp.tp.' if tp else 'bayeso.gp.gp.'
            fn = 'predict_with_hyps' if hyps else 'predict_with_cov'
            args = [data(h, name), h.arr('Y', n, 1), data(h, name, 'Xs', m)] + ([] if hyps else [h.arr('C', n, n), h.arr('Ci', n, n)]) + [hy(h, tp)]
            a = h.call(P + fn, args, {'str_cov': name, 'prior_mu': mu_user(h, mu)})
            pre = PRE_DOF if tp else TRUE
            if a.dead or not isinstance(a.val, tuple):
                o.returns(fn, a, pre)
                return
            o.returns(fn, a, pre)
            s = h.call('spec.misc.clipped_deviation', [a.val[-1]])
            o.eq(f'deviation = sqrt of the clipped diagonal of the returned covariance ({fn})', h.it.enc(a.val[-2]), s.enc, band(pre, a.pc))
        modes(o, 'deviation', run)
    return go


def opt(tp):
    def go(o):
        from .c14 import fitsum
        P = 'bayeso.tp.tp.' if tp else 'bayeso.gp.gp.'
        K = 'bayeso.tp.tp_kernel.get_optimized_kernel' if tp else 'bayeso.gp.gp_kernel.get_optimized_kernel'
        h = o.h({**Q.COV, K: fitsum})
        a = h.call(P + 'predict_with_optimized_hyps', [data(h, 'se'), h.arr('Y', n, 1), data(h, 'se', 'Xs', m)], {'str_cov': 'se'})
        if a.dead:
            o.returns('predict_with_optimized_hyps', a)
            return
        s = h.call('spec.misc.clipped_deviation', [a.val[-1]])
        o.eq('deviation = sqrt of the clipped diagonal of the returned covariance', h.it.enc(a.val[-2]), s.enc, a.pc)
    return go


def trees(o):
    o.fn('mixture deviation', 'bayeso.trees.trees_common.compute_sigma', 'spec.misc.mixture_deviation',
         lambda h: ([h.arr('mus', n), h.arr('sds', n)] + [h.fl('least')], {}))
    h = o.h()
    a = h.call('bayeso.trees.trees_common.compute_sigma', [h.arr('mus', n), h.arr('sds', n)])
    s = h.call('spec.misc.mixture_deviation', [h.arr('mus', n), h.arr('sds', n)])
    o.eq('mixture deviation (default least deviation)', a.enc, s.enc, a.pc)


def scan(mod):
    def go(o):
        tr = hn.repo().trees
        if mod not in tr:
            return
        file = mod.replace('.', '/') + '.py'
        seen = {}
        fs = [s for s in ast.walk(tr[mod]) if isinstance(s, ast.FunctionDef)]
        for f in fs:
            for fn, line, text, sg in sign.analyse(tr, mod, f.name):
                k = (fn, line, text)
                seen.setdefault(k, {}).setdefault(f.name, sg)
        for (fn, line, text), by in sorted(seen.items()):
            bad = [q for q, sg in by.items() if sg == 'D']
            st = 'violated' if bad else 'proved'
            unk = any(s == 'U' for s in by.values())
            o.rec(f'{fn}: {text}' + (' (assumed: argument is not a difference, sign not tracked)' if unk and not bad else ''), st,
                  f'{file}:{line} {fn}: {text}: the argument is a difference that nothing keeps from being negative (reached from {", ".join(bad)})' if bad else '', at=f'{file}:{line}')
        o.rec(f'square roots of {mod}', 'proved', f'{len(fs)} functions, {len(seen)} square roots')
    return go


def build(c):
    for tp in (True, False):
        f = 'bayeso/tp/tp.py' if tp else 'bayeso/gp/gp.py'
        t = 'tp' if tp else 'gp'
        for mu in (True, False):
            c.add(f'{t}.cov.{mu}', f + ':predict_with_cov', dev(tp, mu, False))
            c.add(f'{t}.hyps.{mu}', f + ':predict_with_hyps', dev(tp, mu, True))
        c.add(f'{t}.opt', f + ':predict_with_optimized_hyps', opt(tp))
    c.add('mixture', 'bayeso/trees/trees_common.py:compute_sigma', trees)
    for mod in PRED:
        c.add('sign.' + mod, mod.replace('.', '/') + '.py', scan(mod))
