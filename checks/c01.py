"""C01: points lie inside the search space."""
from .runlib import *
from .c04 import pwo, sf

LEVEL = 'proof'
TECHNIQUE = TECH + 'sample coordinates as terms over unit / normal draws and the bounds, inequalities proved for a generic row and dimension; bounds handed to optimisers compared row by row with the search space; path conditions of the final assertion'
NOTE = ('get_samples / get_initials of every surrogate for every sampling method, any dimension (grids: dimension 1 to 4), any number of samples, any bounds with lower <= upper including equal ones, seeded or not: shape and both inequalities. '
        'optimize of every surrogate, sampling method, acquisition optimiser and fitting mode: bounds (and starts) of every optimiser call, method respecting bounds, and every returned candidate and the proposal in bounds - assuming that a bounded optimiser honours the bounds it is given. '
        'Real arithmetic: one-ulp excursions by rounding are out of scope.')
I = {'scipydirect': True, 'cma': True}
BOUNDED = ('L-BFGS-B', 'SLSQP', 'TNC', 'Nelder-Mead', 'Powell', 'trust-constr', 'COBYLA', 'COBYQA', '$direct', '$cma')


def generic(*dims):
    out = []
    for x in dims:
        v = T.fresh()
        T.set_range(v, x)
        out.append(v)
    return out


def inbox(o, what, X, dd, pre, conc=False):
    """X: Arr of shape (rows, dd): every entry within the bounds of its dimension"""
    R = node('arr', 'R', '')
    i, = generic(X.shape[0])
    js = [T.num(q) for q in range(int(dd.args[0]))] if conc else generic(dd)
    for j in js:
        lo, hi = mk_el(R, (j, T.num(0))), mk_el(R, (j, T.num(1)))
        e = X.el(i, j)
        g = general(e)
        if g is not e:
            pg = band(T.le(lo, hi), optbounds(g, j, lo, hi))
            if always(T.le(lo, g), pg) and always(T.le(g, hi), pg):
                o.rec(f'{what}: within the bounds, whichever row is selected', 'proved', 'generalised over the selected row')
                continue
        p = band(pre, band(T.le(lo, hi), optbounds(e, j, lo, hi)))
        s = '' if not conc else f' (dimension {T.show(j)})'
        o.holds(f'{what}: not below the lower bound{s}', T.le(lo, e), p)
        o.holds(f'{what}: not above the upper bound{s}', T.le(e, hi), p)


def general(e):
    """e with every selected index (arg-min) replaced by an arbitrary index of its range"""
    mp, st, seen = {}, [e], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += x
        if not isinstance(x, T.N) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'argmin' and len(x.args[1]) == 1:
            v, = generic(x.args[1][0])
            mp[x] = v
            continue
        st += x.args
    return T.subst(e, mp)


def optbounds(e, j, lo, hi):
    """what bounded optimisers guarantee about coordinate j of their results"""
    p, seen, st = TRUE, set(), [e]
    while st:
        x = st.pop()
        if not isinstance(x, T.N) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'el' and x.args[0].op == 'optx' and x.args[1:] == (j,):
            p = band(p, band(T.le(lo, x), T.le(x, hi)))
            continue
        st += [y for y in x.args if isinstance(y, T.N)]
    return p


def samples(sur, meth, entry, seed):
    def go(o):
        for dd in ([d] if meth != 'grid' else [T.num(q) for q in (1, 2, 3, 4)]):
            h = o.h()
            M = h.new('bayeso.bo.' + {'gp': 'BOwGP', 'tp': 'BOwTP', 'rf': 'BOwTrees'}[sur], [bounds(h, dd=dd)])
            N = h.int('N', 1)
            a = h.call(h.meth(M, entry), [meth], {'num_samples' if entry == 'get_samples' else 'num_initials': N, 'seed': h.int('seed') if seed else None})
            if not o.returns(entry, a, okbox(h, dd)) and a.dead:
                continue
            X = toarr(h.it, a.val)
            if X is None:
                o.maybe('samples', None, 'not an array')
                continue
            want = N.n
            if meth == 'grid':
                for _ in range(int(dd.args[0]) - 1):
                    want = T.mul(want, N.n)
            o.true('two axes', X.ndim == 2, T.show(a.enc)[:200])
            if X.ndim != 2:
                continue
            o.eq('one row per sample', X.shape[0], want, a.pc)
            o.eq('one coordinate per dimension', X.shape[1], dd, a.pc)
            pre = band(a.pc, T.lt(T.num(1), N.n)) if meth == 'grid' else a.pc
            inbox(o, 'sample', X, dd, pre, meth == 'grid')
    return go


def box_of(b, dd):
    """term (dim, 0/1) of a bounds argument, or None"""
    if isinstance(b, tuple):
        if b[0] is None or b[1] is None:
            return None
        return lambda j, q: (b[q].el(j) if b[q].ndim else b[q].body)
    if b is None or b.ndim != 2:
        return None
    return lambda j, q: b.el(j, T.num(q))


def proposal(cf):
    def go(o):
        def run(o, lv):
            h = o.h(lv, I)
            it = h.it
            a = cf.run(h, cf.model(h))
            if a.dead:
                o.returns('optimize', a)
                return
            dd = cf.dim
            R = node('arr', 'R', '')
            from sa.check import walk
            k = 0
            for e, loops in walk(a.events):
                if e.kind != 'minimize':
                    continue
                k += 1
                meth = e.data['method']
                if not isinstance(meth, str):
                    o.maybe('optimiser honours bounds', None, str(meth))
                    continue
                o.true('optimiser honours bounds', meth in BOUNDED, meth)
                f = box_of(e.data['bounds'], dd)
                if f is None:
                    o.maybe('bounds are passed to the optimiser', False if e.data['boundsn'].op == 'none' else None, T.show(e.data['boundsn'])[:200])
                    continue
                j, = generic(dd)
                for q, s in ((0, 'lower'), (1, 'upper')):
                    o.eq(f'{s} bounds of the optimiser are those of the search space, in dimension order', f(j, q), mk_el(R, (j, T.num(q))), e.pc)
            X, x = toarr(it, it.getitem(a.val[1], 'next_points')), toarr(it, a.val[0])
            if X.ndim != 2 or x.ndim != 1:
                o.true('candidates have two axes and the proposal one', False, f'{X.ndim} {x.ndim}')
                return
            o.eq('candidates: one coordinate per dimension', X.shape[1], dd, a.pc)
            o.eq('proposal: one coordinate per dimension', x.shape[0], dd, a.pc)
            if cf.samp != 'grid':
                inbox(o, 'candidate', X, dd, a.pc)
                inbox(o, 'proposal', mkarr([T.num(1), dd], lambda i, j: x.el(j)), dd, a.pc)
        o.tiers([LEVELS, LEVELS2], run)
    return go


def thompson(samp):
    def go(o):
        h = o.h({'bayeso.gp.gp.predict_with_optimized_hyps': pwo, 'bayeso.gp.gp.sample_functions': sf})
        X, Y = h.arr('X', n, d), h.arr('Y', n, 1)
        a = h.call(TSI, [bounds(h), X, Y], dict(normalize_Y=h.flag('norm'), str_sampling_method=samp, num_samples=h.int('N', 1)))
        if a.dead:
            o.returns('thompson_sampling_gp_iteration', a)
            return
        x = toarr(h.it, a.val)
        if x is None or x.ndim != 1:
            o.maybe('one point', None if x is None else False)
            return
        o.eq('proposal: one coordinate per dimension', x.shape[0], d, a.pc)
        inbox(o, 'proposal', mkarr([T.num(1), d], lambda i, j: x.el(j)), d, a.pc)
    return go


def guard(o):
    """check_points_in_bounds returns exactly the points it is given, and only when all are inside"""
    h = o.h()
    P = h.arr('P', n, d)
    a = h.call('bayeso.utils.utils_bo.check_points_in_bounds', [P, bounds(h)])
    if a.dead:
        o.returns('check_points_in_bounds', a)
        return
    o.eq('points are returned unchanged', a.enc, h.it.enc(P), a.pc)
    R = node('arr', 'R', '')
    u, v = generic(n, d)
    q = mk_el(node('arr', 'P', ''), (u, v))
    ok = band(bnot(T.mk_exists([u, v], [n, d], T.lt(q, mk_el(R, (v, T.num(0)))))), bnot(T.mk_exists([u, v], [n, d], T.lt(mk_el(R, (v, T.num(1))), q))))
    o.eq('accepted exactly when every point is inside (borders included)', a.pc, ok)


def build(c):
    for meth in SAMPLING + ('grid',):
        for sur in ('gp', 'tp', 'rf') if c.thorough or meth in ('uniform', 'sobol') else ('gp',):
            for entry in ('get_samples',) + (('get_initials',) if meth != 'grid' else ()):
                for seed in (True, False):
                    c.add(f'samples.{sur}.{meth}.{entry}.{"seed" if seed else "noseed"}', 'bayeso/bo/base_bo.py:' + entry, samples(sur, meth, entry, seed))
    D1 = T.add(d, T.num(1))
    L = [Cfg(s, samp=m) for s in ('gp', 'tp', 'rf') for m in SAMPLING] + [Cfg(s, opt=p, dim=D1) for s in ('gp', 'tp') for p in ('DIRECT', 'CMA-ES')] + [Cfg('gp', mode='combined'), Cfg('gp', mode='converged', mu=True, ard=False)]
    L += [Cfg('gp', samp='grid', dim=T.num(2)), Cfg('tp', samp='grid', dim=T.num(3))]
    if c.thorough:
        L += [Cfg(s, a, samp=m, opt=p, dim=D1) for s in ('gp', 'tp') for a in ('ucb', 'aei') for m in SAMPLING for p in OBO] + [Cfg('rf', a, samp=m) for a in ACQ for m in SAMPLING]
    for cf in L:
        c.add('optimize.' + str(cf) + '.' + T.show(cf.dim), f'bayeso/bo/bo_w_{dict(gp="gp", tp="tp", rf="trees")[cf.sur]}.py:optimize', proposal(cf))
    for s in SAMPLING:
        c.add(f'thompson.{s}', 'bayeso/thompson_sampling.py:thompson_sampling_gp_iteration', thompson(s))
    c.add('guard', 'bayeso/utils/utils_bo.py:check_points_in_bounds', guard)
