"""C11: hyperparameter vectors."""
from .common import *

LEVEL = 'proof'
TECHNIQUE = TECH + 'round trip of convert/restore and agreement of vector, bounds and gradient layout'
NOTE = ('convert_hyps / restore_hyps / get_range_hyps / get_hyps for every kernel name, GP and Student-t, shared and per-dimension lengthscales, fixed and free noise, '
        'any dimension: layout equals the reference order, restoring gives back every entry, bounds have one row per entry in the same order.')
F = 'bayeso/utils/utils_covariance.py'
U = 'bayeso.utils.utils_covariance.'


def one(cov, gp, ard, fix):
    def go(o):
        h = o.h()

        def hy():
            return h.hyps(ard, sign='', **({} if gp else {'dof': h.fl('dof', 'pos')}))
        v = h.call(U + 'convert_hyps', [cov, hy()], {'use_gp': gp, 'fix_noise': fix})
        if not o.returns('convert_hyps', v):
            return
        s = h.call('spec.misc.hyps_vector', [hy(), gp, fix])
        o.eq('vector layout', v.enc, s.enc)
        kw = {'use_gp': gp, 'use_ard': ard, 'fix_noise': fix}
        if fix:
            kw['noise'] = h.fl('noise', '')
        r = h.call(U + 'restore_hyps', [cov, v.val], kw)
        if not o.returns('restore_hyps', r):
            return
        o.eq('restore(convert(h)) = h', r.enc, h.it.enc(hy()))
        # restoring an arbitrary vector and converting it again gives the vector back
        L = T.add(d, T.num((0 if fix else 1) + (0 if gp else 1) + 1)) if ard else T.num((0 if fix else 1) + (0 if gp else 1) + 2)
        r = h.call(U + 'restore_hyps', [cov, h.arr('v', L)], kw)
        if o.returns('restore_hyps of a vector', r):
            w = h.call(U + 'convert_hyps', [cov, r.val], {'use_gp': gp, 'fix_noise': fix})
            if o.returns('convert of restored', w):
                o.eq('convert(restore(v)) = v', w.enc, h.it.enc(h.arr('v', L)))
            if fix:
                o.eq('fixed noise kept', h.it.enc(h.it.getitem(r.val, 'noise')), T.sym('noise', 'real', ''))
        b = h.call(U + 'get_range_hyps', [cov, h.dimv(d)], {'use_gp': gp, 'use_ard': ard, 'fix_noise': fix})
        if o.returns('get_range_hyps', b):
            bb = h.call('numpy.array', [b.val]) if False else None
            from sa.npmodels import toarr
            x = toarr(h.it, b.val)
            s = h.call('spec.misc.ranges', [h.dimv(d), gp, ard, fix])
            o.eq('bounds: one row per entry, same order', h.it.enc(h.it.newarr(x)), s.enc)
        g = h.call(U + 'get_hyps', [cov, h.dimv(d)], {'use_gp': gp, 'use_ard': ard})
        if o.returns('get_hyps', g):
            s = h.call('spec.misc.default_hyps', [h.dimv(d), gp, ard])
            o.eq('defaults', g.enc, s.enc)
    return go


def valid(cov, gp, ard):
    def go(o):
        h = o.h()

        def hy():
            return h.hyps(ard, sign='', **({} if gp else {'dof': h.fl('dof')}))
        r = h.call(U + 'validate_hyps_dict', [hy(), cov, h.dimv(d)], {'use_gp': gp})
        if not o.returns('validate_hyps_dict', r):
            return
        e = h.it.heap[hy().id].d
        if not gp:
            q = T.sym('dof', 'real')
            e['dof'] = Sc(ite(T.lt(T.num(2), q), q, T.num(2.00001)), 'float')
        want = h.it.enc(h.it.newdict(e))
        o.eq('valid hyperparameters pass unchanged (dof clamped above 2)', r.enc, want)
        for miss in ('signal', 'lengthscales', 'noise') + (() if gp else ('dof',)):
            D = dict(h.it.heap[hy().id].d)
            D.pop(miss)
            o.rejects(f'missing {miss} rejected', h.call(U + 'validate_hyps_dict', [h.it.newdict(D), cov, h.dimv(d)], {'use_gp': gp}))
            D[miss] = 'abc'
            o.rejects(f'{miss} of the wrong type rejected', h.call(U + 'validate_hyps_dict', [h.it.newdict(D), cov, h.dimv(d)], {'use_gp': gp}))
        if ard:
            D = dict(h.it.heap[hy().id].d)
            D['lengthscales'] = h.arr('lsx', m, sign='pos')
            x = h.call(U + 'validate_hyps_dict', [h.it.newdict(D), cov, h.dimv(d)], {'use_gp': gp})
            o.rejects('lengthscale count must match the dimension', x, bnot(T.eq(m, d)))
    return go


def build(c):
    for cov in BASES + SETS:
        for gp in (True, False):
            for ard in (True, False):
                for fix in (True, False):
                    c.add(f'{cov}.{"gp" if gp else "tp"}.{"ard" if ard else "iso"}.{"fixed" if fix else "free"}', F, one(cov, gp, ard, fix))
                c.add(f'validate.{cov}.{gp}.{ard}', f'{F}:validate_hyps_dict', valid(cov, gp, ard))
