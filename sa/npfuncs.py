"""Dispatcher for external functions (numpy, scipy, stdlib)."""
from .terms import *
from . import terms as T
from .values import *
from . import npmodels as M
from .models import (is_arr, is_list, is_dict, is_num, tosc, fdiv, mod_, floor_, ceil_, trunc_, min2, max2, SCAL, CMP,
                     norm_index, slice_bounds, lift_ite, as_iter, interp_map)

FN = {}


def reg(*names):
    def d(f):
        for n in names:
            FN[n] = f
        return f
    return d


ALIAS_PREFIX = [('np.', 'numpy.')]
SILENT = ('typing.', 'abc.', 'warnings.')


def canon(path):
    p = path
    for a, b in (('numpy.core.', 'numpy.'), ('scipy._lib.', 'scipy.'), ('scipy.stats._qmc', 'scipy.stats.qmc'), ('scipy.linalg.decomp_cholesky', 'scipy.linalg')):
        if p.startswith(a):
            p = b + p[len(a):]
    return p


def call(interp, path, args, kw):
    path = canon(path)
    args = [interp.res(a) if not isinstance(a, (Slice,)) else a for a in args]
    kw = {k: interp.res(v) for k, v in kw.items()}
    if any(isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] == '*' for a in args):
        return M.unka('starargs', path)
    if path not in NOLIFT:
        for i, a in enumerate(args):
            if isinstance(a, PyIte):
                return lift_ite(interp, a, lambda x: call(interp, path, args[:i] + [x] + args[i + 1:], kw))
        for k, a in kw.items():
            if isinstance(a, PyIte):
                return lift_ite(interp, a, lambda x: call(interp, path, args, {**kw, k: x}))
    out = kw.get('out')
    if out is not None and is_arr(out) and path.startswith('numpy.'):
        r = call(interp, path, args, {k: v for k, v in kw.items() if k != 'out'})
        if is_arr(r):
            interp.write_arr(out, interp.cell(r).val, 'out= argument')
        else:
            interp.mutate(out, 'out= argument')
            interp.havoc(out)
        return out
    f = FN.get(path)
    if f is not None:
        return f(interp, args, kw)
    if path.startswith('numpy.random.'):
        return np_random(interp, path[len('numpy.random.'):], args, kw)
    if path.startswith('matplotlib.') or path.startswith('pylab.'):
        name = path.split('.')[-1]
        return mplcall(interp, name, node('mplmod'), args, kw)
    if any(path.startswith(s) for s in SILENT):
        return Op(node('ext', path))
    interp.note('extcall', (path, tuple(interp.enc(a) for a in args)))
    return Op(node('unk', 'ext', path, *[interp.enc(a) for a in args]))


NOLIFT = {'scipy.optimize.minimize', 'functools.partial', 'functools.wraps'}


def mplval(it, a):
    """data handed to a plot: columns of shape (n, 1), ranges and lists of numbers count as vectors"""
    a = it.res(a)
    if isinstance(a, PyIte):
        return ite(a.c, mplval(it, a.a), mplval(it, a.b))
    x = None
    if is_arr(a):
        x = it.cell(a).val
    elif isinstance(a, Iter) or is_list(a) or isinstance(a, tuple):
        try:
            x = M.toarr(it, a)
        except Exception:
            x = None
    if isinstance(x, Arr) and x.dt in ('real', 'int'):
        if x.ndim == 2 and x.shape[1] is num(1):
            x = mkarr((x.shape[0],), lambda i: x.el(i, num(0)), x.dt)
        if x.ndim == 1:
            return node('vec', it.enc(it.newarr(x)))
        if x.ndim:
            return node('data', it.enc(it.newarr(x)))
    return it.enc(a)


def mplcall(it, name, recv, args, kw):
    ea = tuple(mplval(it, a) for a in args if not (isinstance(a, tuple) and len(a) == 2 and a[0] == '*'))
    ek = tuple((k, mplval(it, v)) for k, v in sorted(kw.items()))
    it.note('mpl', (name, ea, ek, recv))
    return mplobj(node('mplobj', recv, name, node('tup', *[x for x in ea if not isinstance(x, tuple)])))


def mplobj(nd):
    def methods(it, nm, a, k):
        return mplcall(it, nm, nd, a, k)

    def gi(it, k):
        return mplobj(node('mplitem', nd, it.enc(k)))

    def attrs(it, nm):
        if nm in ('spines', 'axes', 'patch', 'lines', 'figure', 'canvas', 'xaxis', 'yaxis', 'transAxes'):
            return mplobj(node('mplattr', nd, nm))
        return None
    return Op(nd, 'mpl', {'methods': methods, 'getitem': gi, 'attrs': attrs})


# ---------------------------------------------------------------- elementwise

def _ew1(name, f, dt='real'):
    FN['numpy.' + name] = lambda it, a, k: M.ewise1(it, f, a[0], dt)
    FN['math.' + name] = FN['numpy.' + name]


_ew1('sqrt', sqrt)
_ew1('exp', exp)
_ew1('log', log)
_ew1('abs', absv)
_ew1('absolute', absv)
_ew1('fabs', absv)
_ew1('square', lambda x: power(x, num(2)))
_ew1('negative', neg)
_ew1('floor', floor_)
_ew1('ceil', ceil_)
_ew1('trunc', trunc_)
_ew1('log2', lambda x: div(log(x), log(num(2))))
_ew1('log10', lambda x: div(log(x), log(num(10))))
_ew1('log1p', lambda x: log(add(ONE, x)))
_ew1('expm1', lambda x: sub(exp(x), ONE))
_ew1('reciprocal', lambda x: div(ONE, x))
_ew1('sin', lambda x: fn('sin', x))
_ew1('cos', lambda x: fn('cos', x))
_ew1('tanh', lambda x: fn('tanh', x))
_ew1('sign', lambda x: ite(lt0(x), num(-1), ite(eq0(x), ZERO, ONE)))
_ew1('rint', lambda x: fn('rint', x))
_ew1('isnan', lambda x: isnan_(x), 'bool')
_ew1('isinf', lambda x: isinf_(x), 'bool')
_ew1('isfinite', lambda x: band(bnot(isnan_(x)), bnot(isinf_(x))), 'bool')
_ew1('nan_to_num', lambda x: node('unk', 'nan_to_num', x))
FN['scipy.special.gamma'] = lambda it, a, k: M.ewise1(it, lambda x: fn('gamma', x), a[0])
FN['scipy.special.gammaln'] = lambda it, a, k: M.ewise1(it, lambda x: fn('gammaln', x), a[0])
FN['math.lgamma'] = FN['scipy.special.gammaln']
FN['scipy.special.loggamma'] = FN['scipy.special.gammaln']
FN['math.gamma'] = FN['scipy.special.gamma']
FN['scipy.special.digamma'] = lambda it, a, k: M.ewise1(it, lambda x: fn('digamma', x), a[0])
FN['scipy.special.psi'] = FN['scipy.special.digamma']
FN['scipy.special.polygamma'] = lambda it, a, k: (M.ewise1(it, lambda x: fn('digamma', x), a[1]) if it.cint(a[0]) == 0 else M.unka('polygamma'))


def isnan_(x):
    if x.op == 'ite':
        return ite(mkite(x.args[0], TRUE, FALSE), isnan_(x.args[1]), isnan_(x.args[2]))
    if isnum(x):
        return FALSE
    if x is INF:
        return FALSE
    if x.op == 'nan':
        return TRUE
    return cond_atom('isnan', x)


def isinf_(x):
    if x.op == 'ite':
        return ite(mkite(x.args[0], TRUE, FALSE), isinf_(x.args[1]), isinf_(x.args[2]))
    if isnum(x):
        return FALSE
    if x is INF or neg(x) is INF:
        return TRUE
    return cond_atom('isinf', x)


def norm_args(it, a, k):
    x = a[0]
    loc = M.g_arg(a, k, 1, 'loc')
    sc = M.g_arg(a, k, 2, 'scale')
    arrs = [M.toarr(it, x)]
    if arrs[0] is None:
        return None
    r = arrs[0]
    if loc is not None:
        l = M.toarr(it, loc)
        if l is None:
            return None
        r = M.ew(it, sub, [r, l])
    s = None
    if sc is not None:
        s = M.toarr(it, sc)
        if s is None:
            return None
        r = M.ew(it, div, [r, s])
    return r, s


@reg('scipy.stats.norm.cdf')
def _ncdf(it, a, k):
    r = norm_args(it, a, k)
    if r is None:
        return M.unka('normcdf')
    x = r[0]
    return M.wrap(it, Arr(x.shape, x.vs, fn('normcdf', x.body)))


@reg('scipy.stats.norm.sf')
def _nsf(it, a, k):
    r = norm_args(it, a, k)
    if r is None:
        return M.unka('normsf')
    x = r[0]
    return M.wrap(it, Arr(x.shape, x.vs, sub(ONE, fn('normcdf', x.body))))


@reg('scipy.stats.norm.pdf')
def _npdf(it, a, k):
    r = norm_args(it, a, k)
    if r is None:
        return M.unka('normpdf')
    x, s = r
    y = Arr(x.shape, x.vs, fn('normpdf', x.body))
    if s is not None:
        y = M.ew(it, div, [y, s])
    return M.wrap(it, y)


FN['scipy.special.ndtr'] = lambda it, a, k: M.ewise1(it, lambda x: fn('normcdf', x), a[0])


def _bin(name, op):
    FN['numpy.' + name] = lambda it, a, k: it.binop(op, a[0], a[1])


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'), ('power', 'Pow'),
               ('float_power', 'Pow'), ('floor_divide', 'FloorDiv'), ('mod', 'Mod'), ('matmul', 'MatMult')):
    _bin(_n, _o)
FN['math.pow'] = FN['numpy.power']


def _cmpf(name, op):
    def f(it, a, k):
        from .models import compare
        return compare(it, op, a[0], a[1])
    FN['numpy.' + name] = f


for _n, _o in (('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    _cmpf(_n, _o)


def _ew2(it, f, a, b, dt='real'):
    x, y = M.toarr(it, a), M.toarr(it, b)
    if x is None or y is None:
        return M.unka('ew2')
    return M.wrap(it, M.ew(it, f, [M.num_body(x), M.num_body(y)], dt))


FN['numpy.maximum'] = lambda it, a, k: _ew2(it, max2, a[0], a[1])
FN['numpy.minimum'] = lambda it, a, k: _ew2(it, min2, a[0], a[1])
FN['numpy.fmax'] = FN['numpy.maximum']
FN['numpy.fmin'] = FN['numpy.minimum']
FN['numpy.hypot'] = lambda it, a, k: _ew2(it, lambda x, y: sqrt(add(power(x, num(2)), power(y, num(2)))), a[0], a[1])


def _logic(f):
    def g(it, a, k):
        xs = []
        for v in a:
            x = M.toarr(it, v)
            if x is None:
                return M.unka('logical')
            xs.append(x if x.dt == 'bool' else Arr(x.shape, x.vs, bnot(eq0(x.body)), 'bool'))
        return M.wrap(it, M.ew(it, f, xs, 'bool'))
    return g


FN['numpy.logical_and'] = _logic(band)
FN['numpy.logical_or'] = _logic(bor)
FN['numpy.logical_not'] = _logic(bnot)
FN['numpy.invert'] = _logic(bnot)
FN['numpy.logical_xor'] = _logic(lambda p, q: ite(p, bnot(q), q))
FN['numpy.bitwise_and'] = FN['numpy.logical_and']
FN['numpy.bitwise_or'] = FN['numpy.logical_or']


@reg('numpy.clip')
def _clip(it, a, k):
    lo = M.g_arg(a, k, 1, 'a_min')
    hi = M.g_arg(a, k, 2, 'a_max')
    if lo is None:
        lo = k.get('min')
    if hi is None:
        hi = k.get('max')
    r = a[0]
    if lo is not None:
        r = FN['numpy.maximum'](it, [r, lo], {})
    if hi is not None:
        r = FN['numpy.minimum'](it, [r, hi], {})
    return r


for _n in ('sum', 'mean', 'average', 'std', 'var', 'min', 'max', 'amin', 'amax', 'argmin', 'argmax', 'all', 'any', 'prod', 'median', 'ptp',
           'count_nonzero', 'nanmin', 'nanmax', 'nanargmin', 'nanargmax', 'nansum'):
    FN['numpy.' + _n] = (lambda nm: lambda it, a, k: M.do_reduce(it, nm, a, k))(_n)
FN['math.fsum'] = FN['numpy.sum']


def _nanred(nm):
    f = FN['numpy.' + nm]

    def g(it, a, k):
        x = M.toarr(it, a[0])
        if x is None or any(y.op == 'nan' for y in T.subterms(x.body)):
            return M.unka(nm)       # the constant nan inside: not modelled
        return f(it, a, k)
    return g


for _n in ('nanmin', 'nanmax', 'nanargmin', 'nanargmax', 'nansum'):
    FN['numpy.' + _n] = _nanred(_n)


# ---------------------------------------------------------------- construction

def dt_kw(it, k, d='real'):
    if 'dtype' in k and k['dtype'] is not None:
        t = M.cast_name(it, k['dtype'])
        return t if t in ('real', 'int', 'bool', 'obj') else d
    return d


def _full(f):
    def g(it, a, k):
        sh = M.dims_of(it, M.g_arg(a, k, 0, 'shape'))
        if sh is None or any(s is None for s in sh):
            return M.unka('full')
        dt = dt_kw(it, {'dtype': M.g_arg(a, k, 1, 'dtype')})
        z = f(it)
        if dt == 'bool':
            z = TRUE if z is ONE else FALSE
        return M.wrap(it, mkarr(sh, lambda *ix: z, dt))
    return g


FN['numpy.zeros'] = _full(lambda it: ZERO)
FN['numpy.ones'] = _full(lambda it: ONE)
FN['numpy.empty'] = _full(lambda it: node('unk', 'uninit'))


@reg('numpy.full')
def _npfull(it, a, k):
    sh = M.dims_of(it, a[0])
    v = M.toarr(it, M.g_arg(a, k, 1, 'fill_value'))
    if sh is None or v is None:
        return M.unka('full')
    return M.wrap(it, mkarr(sh, lambda *ix: v.el(*M.bidx(v.shape, ix)), v.dt))


def _like(z):
    def g(it, a, k):
        x = M.toarr(it, a[0])
        if x is None:
            return M.unka('like')
        return M.wrap(it, mkarr(x.shape, lambda *ix: (z if x.dt != 'bool' else (TRUE if z is ONE else FALSE)), dt_kw(it, k, x.dt)))
    return g


FN['numpy.zeros_like'] = _like(ZERO)
FN['numpy.ones_like'] = _like(ONE)
FN['numpy.empty_like'] = _like(node('unk', 'uninit'))


@reg('numpy.full_like')
def _fulllike(it, a, k):
    x, v = M.toarr(it, a[0]), M.toarr(it, M.g_arg(a, k, 1, 'fill_value'))
    if x is None or v is None:
        return M.unka('like')
    return M.wrap(it, mkarr(x.shape, lambda *ix: v.el(*M.bidx(v.shape, ix)), x.dt if x.dt != 'int' else v.dt))


@reg('numpy.eye', 'numpy.identity')
def _eye(it, a, k):
    n = tosc(it, a[0]) if is_num(a[0]) else (Sc(a[0].n, 'int') if isinstance(a[0], Op) else None)
    if n is None:
        return M.unka('eye')
    m = M.g_arg(a, k, 1, 'M')
    m = tosc(it, m).n if m is not None and not isinstance(m, Ext) else n.n
    return M.wrap(it, mkarr((n.n, m), lambda i, j: ite(eq(i, j), ONE, ZERO)))


@reg('numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.asanyarray', 'numpy.ascontiguousarray')
def _array(it, a, k):
    v = a[0]
    dt = M.g_arg(a, k, 1, 'dtype')
    r = M._array_of(it, v)
    if dt is not None:
        t = M.cast_name(it, dt)
        if t in ('real', 'int', 'bool', 'f32'):
            r = M.ewise_cast(it, r, dt)
        elif t != 'obj':
            r = M.unka('dtype', it.enc(r))
    if k.get('ndmin') is not None and is_arr(r):
        n = it.cint(k['ndmin'])
        r = M.wrap(it, M.atleast(it.cell(r).val, n))
    return r


@reg('numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray')
def _asarray(it, a, k):
    if is_arr(a[0]) and (len(a) == 1 and 'dtype' not in k):
        return a[0]
    if is_arr(a[0]):
        r = _array(it, a, k)
        if is_arr(r):
            c = it.cell(r)
            it.heap[r.id] = ArrCell(c.val, ((a[0], 'same'),), None)
        return r
    return _array(it, a, k)


@reg('numpy.arange')
def _arange(it, a, k):
    vs = [tosc(it, x) if is_num(x) else (Sc(x.n, 'int') if isinstance(x, Op) and not x.n.unk else None) for x in a]
    if any(v is None for v in vs):
        return M.unka('arange')
    if len(vs) == 1:
        lo, hi, st = ZERO, vs[0].n, ONE
    elif len(vs) == 2:
        lo, hi, st = vs[0].n, vs[1].n, ONE
    else:
        lo, hi, st = vs[0].n, vs[1].n, vs[2].n
    dt = 'int' if all(v.ty != 'float' for v in vs) else 'real'
    n = ceil_(div(sub(hi, lo), st))
    n = simp(n, it.pc)
    b = bounds(n)[0]
    if b is None or b < 0:
        n = ite(lt0(n), ZERO, n)
    return M.wrap(it, mkarr((n,), lambda i: add(lo, mul(i, st)), dt))


@reg('numpy.linspace')
def _linspace(it, a, k):
    lo, hi = M.toarr(it, a[0]), M.toarr(it, a[1])
    n = tosc(it, M.g_arg(a, k, 2, 'num', i_(50)))
    if lo is None or hi is None or n is None or lo.ndim or hi.ndim:
        return M.unka('linspace')
    endp = k.get('endpoint', True)
    den = sub(n.n, ONE) if endp is True else n.n
    return M.wrap(it, mkarr((n.n,), lambda i: add(lo.body, div(mul(i, sub(hi.body, lo.body)), den))))


def _stackf(pre, axis_default):
    def g(it, a, k):
        def go(v):
            parts = M.arrs_list(it, v)
            if parts is None:
                return M.unka('concat', it.enc(v))
            ax = M.g_arg(a, k, 1, 'axis', i_(axis_default))
            if ax is None:
                parts = M.mp_parts(parts, lambda x: M.reshape(it, x, [M.total(x.shape)]))
                ax = 0
            else:
                ax = it.cint(ax)
            if pre:
                parts = M.mp_parts(parts, pre)
            if callable(axis_default):
                ax = axis_default(parts)
            r = M.concat(it, parts, ax)
            return M.wrap(it, r) if r is not None else M.unka('concat', it.enc(v))
        return M.lift_segs(it, a[0], go)
    return g


FN['numpy.concatenate'] = _stackf(None, 0)
FN['numpy.vstack'] = _stackf(lambda x: M.atleast(x, 2), 0)
FN['numpy.row_stack'] = FN['numpy.vstack']
def _colpre(x):
    if x.ndim == 1:
        return mkarr((x.shape[0], ONE), lambda i, j: x.el(i), x.dt)
    return x


FN['numpy.column_stack'] = lambda it, a, k: _stackf(_colpre, 1)(it, [a[0]], {})
FN['numpy.dstack'] = lambda it, a, k: M.unka('dstack')


@reg('numpy.hstack')
def _hstack(it, a, k):
    def go(v):
        parts = M.arrs_list(it, v)
        if parts is None:
            return M.unka('hstack')
        parts = M.mp_parts(parts, lambda x: M.atleast(x, 1))
        ax = 0 if parts and parts[0][-1].ndim == 1 else 1
        r = M.concat(it, parts, ax)
        return M.wrap(it, r) if r is not None else M.unka('hstack')
    return M.lift_segs(it, a[0], go)


@reg('numpy.stack')
def _stack(it, a, k):
    ax = it.cint(M.g_arg(a, k, 1, 'axis', i_(0)))

    def go(v):
        parts = M.arrs_list(it, v)
        if not parts:
            return M.unka('stack')
        nd = parts[0][-1].ndim + 1
        axx = ax % nd

        def ins(x):
            sh = list(x.shape)
            sh.insert(axx, ONE)
            return mkarr(sh, lambda *ix: x.el(*[i for q, i in enumerate(ix) if q != axx]), x.dt)
        r = M.concat(it, M.mp_parts(parts, ins), axx)
        return M.wrap(it, r) if r is not None else M.unka('stack')
    return M.lift_segs(it, a[0], go)


@reg('numpy.append')
def _append(it, a, k):
    ax = M.g_arg(a, k, 2, 'axis')
    return FN['numpy.concatenate'](it, [(a[0] if is_arr(a[0]) else M._array_of(it, a[0]), a[1] if is_arr(a[1]) else M.wrap(it, M.atleast(M.toarr(it, a[1]), 1)) if M.toarr(it, a[1]) is not None else a[1])], {'axis': ax})


@reg('numpy.insert')
def _insert(it, a, k):
    x = M.toarr(it, a[0])
    pos = it.cint(a[1])
    v = M.toarr(it, a[2])
    if x is None or pos != 0 or v is None or x.ndim != 1 or v.ndim != 0:
        return M.unka('insert')
    return M.wrap(it, mkarr((add(x.shape[0], ONE),), lambda i: ite(eq(i, ZERO), v.body, x.el(sub(i, ONE))), x.dt))


@reg('numpy.atleast_1d')
def _al1(it, a, k):
    x = M.toarr(it, a[0])
    if is_arr(a[0]):
        return a[0]
    return M.wrap(it, M.atleast(x, 1)) if x is not None else M.unka('atleast')


@reg('numpy.atleast_2d')
def _al2(it, a, k):
    x = M.toarr(it, a[0])
    if x is None:
        return M.unka('atleast')
    if is_arr(a[0]) and x.ndim >= 2:
        return a[0]
    return M.wrap(it, M.atleast(x, 2), ((a[0], None),) if is_arr(a[0]) else None)


@reg('numpy.expand_dims')
def _expd(it, a, k):
    x = M.toarr(it, a[0])
    ax = it.cint(M.g_arg(a, k, 1, 'axis'))
    if x is None or ax is None:
        return M.unka('expand_dims')
    ax = ax % (x.ndim + 1)
    sh = list(x.shape)
    sh.insert(ax, ONE)
    key = tuple(None if q == ax else Slice(None, None, None) for q in range(x.ndim + 1))
    return M.wrap(it, mkarr(sh, lambda *ix: x.el(*[i for q, i in enumerate(ix) if q != ax]), x.dt), ((a[0], key),) if is_arr(a[0]) else None)


@reg('numpy.squeeze')
def _squeeze(it, a, k):
    x = M.toarr(it, a[0])
    if x is None:
        return M.unka('squeeze', it.enc(a[0]))
    ax = M.g_arg(a, k, 1, 'axis')
    if ax is not None:
        axs = M.axis_of(it, ax, x.ndim)
        if axs == 'bad':
            return M.unka('squeeze')
        for q in axs:
            if isnum(x.shape[q]) and not M.is1(x.shape[q]):
                it.note('shapeerror', 'squeeze')
                M.dead(it, 'ValueError')
        drop = set(axs)
    else:
        drop = {q for q, s in enumerate(x.shape) if M.is1(s)}
        amb = tuple(s for q, s in enumerate(x.shape) if not isnum(s))
        if amb:
            it.note('squeeze-amb', ('squeeze', amb))
    key = tuple(ZEROI if q in drop else Slice(None, None, None) for q in range(x.ndim))
    keepv = [q for q in range(x.ndim) if q not in drop]

    def g(*ix):
        it2 = iter(ix)
        return x.el(*[ZERO if q in drop else next(it2) for q in range(x.ndim)])
    return M.wrap(it, mkarr([x.shape[q] for q in keepv], g, x.dt), ((a[0], key),) if is_arr(a[0]) else None)


ZEROI = i_(0)


@reg('numpy.reshape')
def _reshape(it, a, k):
    x = M.toarr(it, a[0])
    ds = M.dims_of(it, M.g_arg(a, k, 1, 'newshape', k.get('shape')))
    if x is None or ds is None:
        return M.unka('reshape')
    if x.ndim == 0:
        ds = [ONE if d is None else d for d in ds]
        return M.wrap(it, mkarr(ds, lambda *ix: x.body, x.dt))
    r = M.reshape(it, x, ds)
    return M.wrap(it, r, ((a[0], None),) if is_arr(a[0]) else None) if r is not None else M.unka('reshape', it.enc(a[0]))


@reg('numpy.ravel')
def _ravel(it, a, k):
    if is_arr(a[0]):
        return M.arr_method(it, a[0], 'ravel', [], {})
    x = M.toarr(it, a[0])
    return M.arr_method(it, M.wrap(it, M.atleast(x, 1)), 'ravel', [], {}) if x is not None else M.unka('ravel')


@reg('numpy.transpose')
def _transpose(it, a, k):
    x = M.toarr(it, a[0])
    if x is None:
        return M.unka('transpose')
    ax = M.g_arg(a, k, 1, 'axes')
    if ax is None:
        return M.wrap(it, Arr(x.shape[::-1], x.vs[::-1], x.body, x.dt), ((a[0], 'T'),) if is_arr(a[0]) else None)
    p = [it.cint(q) for q in it.concrete_items(ax)]
    return M.wrap(it, Arr([x.shape[q] for q in p], [x.vs[q] for q in p], x.body, x.dt), ((a[0], None),) if is_arr(a[0]) else None)


@reg('numpy.swapaxes', 'numpy.moveaxis')
def _swap(it, a, k):
    x = M.toarr(it, a[0])
    if x is None or x.ndim != 2:
        return M.unka('swapaxes')
    return _transpose(it, [a[0]], {})


@reg('numpy.where')
def _where(it, a, k):
    m = M.toarr(it, a[0])
    if m is None:
        return M.unka('where')
    if m.dt != 'bool':
        m = Arr(m.shape, m.vs, bnot(eq0(m.body)), 'bool')
    if len(a) == 1:
        if m.ndim == 1:
            cnt = M.mask_count(m)
            return (M.wrap(it, mkarr((cnt,), lambda q: M.nth(m, q), 'int')),)
        if m.ndim == 0:
            return M.unka('where0')
        cnt = M.mask_count(m)
        lm = M.mask_lam(m)
        return tuple(M.wrap(it, mkarr((cnt,), lambda q, d=d: node('nthm', lm, q, num(d)), 'int')) for d in range(m.ndim))
    x, y = M.toarr(it, a[1]), M.toarr(it, a[2])
    if x is None or y is None:
        return M.unka('where3')
    if x.dt == 'bool' and y.dt == 'bool':
        dt = 'bool'
    else:
        x, y = M.num_body(x), M.num_body(y)
        dt = 'int' if x.dt == y.dt == 'int' else 'real'
    return M.wrap(it, M.ew(it, lambda c, p, q: ite(c, p, q), [m, x, y], dt))


FN['numpy.nonzero'] = lambda it, a, k: _where(it, [a[0]], {})
FN['numpy.flatnonzero'] = lambda it, a, k: _where(it, [a[0]], {})[0] if M.toarr(it, a[0]) is not None and M.toarr(it, a[0]).ndim == 1 else M.unka('flatnonzero')
FN['numpy.argwhere'] = lambda it, a, k: M.unka('argwhere')


@reg('numpy.delete')
def _delete(it, a, k):
    x = M.toarr(it, a[0])
    ax = it.cint(M.g_arg(a, k, 2, 'axis')) if M.g_arg(a, k, 2, 'axis') is not None else None
    if x is None or (ax is None and x.ndim != 1):
        return M.unka('delete')
    ax = 0 if ax is None else ax % x.ndim
    idx = a[1]
    n = x.shape[ax]
    i = fresh()
    set_range(i, n)
    if isinstance(idx, Sc):
        e = norm_index(idx.n, n)

        def g(*ix):
            jx = list(ix)
            jx[ax] = ite(lt(ix[ax], e), ix[ax], add(ix[ax], ONE))
            return x.el(*jx)
        sh = list(x.shape)
        sh[ax] = sub(n, ONE)
        return M.wrap(it, mkarr(sh, g, x.dt))
    ia = M.toarr(it, idx)
    if ia is None or ia.ndim != 1:
        return M.unka('delete')
    if ia.dt == 'bool':
        c = ia.el(i)
    else:
        b = ia.body
        if b.op == 'nth' and ia.vs[0] is b.args[1]:
            c = lam_apply(b.args[0], (i,))
        else:
            t = fresh()
            set_range(t, ia.shape[0])
            c = mk_exists([t], [ia.shape[0]], eq(norm_index(ia.el(t), n), i))
    mask = Arr((n,), (i,), bnot(c), 'bool')
    sh = list(x.shape)
    sh[ax] = M.mask_count(mask)

    def g2(*ix):
        jx = list(ix)
        jx[ax] = M.nth(mask, ix[ax])
        return x.el(*jx)
    return M.wrap(it, mkarr(sh, g2, x.dt))


@reg('numpy.tile')
def _tile(it, a, k):
    x = M.toarr(it, a[0])
    ds = M.dims_of(it, a[1])
    if x is None or ds is None:
        return M.unka('tile')
    nd = max(x.ndim, len(ds))
    sh = (ONE,) * (nd - x.ndim) + tuple(x.shape)
    ds = [ONE] * (nd - len(ds)) + list(ds)

    def g(*ix):
        r = []
        for q, (s, d, i) in enumerate(zip(sh, ds, ix)):
            if q < nd - x.ndim:
                continue
            r.append(ZERO if M.is1(s) else i if M.is1(d) else mod_(i, s))
        return x.el(*r)
    return M.wrap(it, mkarr([mul(s, d) for s, d in zip(sh, ds)], g, x.dt))


@reg('numpy.repeat')
def _repeat(it, a, k):
    x = M.toarr(it, a[0])
    r = tosc(it, a[1]) if is_num(a[1]) else None
    ax = M.g_arg(a, k, 2, 'axis')
    if x is None or r is None:
        return M.unka('repeat')
    if x.ndim == 0:
        return M.wrap(it, mkarr((r.n,), lambda i: x.body, x.dt))
    ax = 0 if ax is None and x.ndim == 1 else it.cint(ax) if ax is not None else None
    if ax is None:
        return M.unka('repeat')
    ax %= x.ndim
    sh = list(x.shape)
    sh[ax] = mul(sh[ax], r.n)

    def g(*ix):
        jx = list(ix)
        jx[ax] = ZERO if M.is1(x.shape[ax]) else fdiv(ix[ax], r.n)
        return x.el(*jx)
    return M.wrap(it, mkarr(sh, g, x.dt))


@reg('numpy.broadcast_to')
def _bto(it, a, k):
    x = M.toarr(it, a[0])
    ds = M.dims_of(it, a[1])
    if x is None or ds is None:
        return M.unka('broadcast_to')
    return M.wrap(it, mkarr(ds, lambda *ix: x.el(*M.bidx(x.shape, ix)), x.dt))


@reg('numpy.meshgrid')
def _meshgrid(it, a, k):
    xs = [M.toarr(it, v) for v in a]
    if any(x is None or x.ndim != 1 for x in xs):
        return M.unka('meshgrid')
    ind = k.get('indexing', 'xy')
    dims = [x.shape[0] for x in xs]
    order = list(range(len(xs)))
    if ind == 'xy' and len(xs) >= 2:
        order[0], order[1] = order[1], order[0]
    sh = [dims[q] for q in order]
    return it.newlist([M.wrap(it, mkarr(sh, (lambda p: lambda *ix: xs[p].el(ix[order.index(p)]))(p), xs[p].dt)) for p in range(len(xs))])


@reg('numpy.diag')
def _diag(it, a, k):
    x = M.toarr(it, a[0])
    if x is None:
        return M.unka('diag')
    if len(a) > 1 or 'k' in k:
        return M.unka('diag')
    if x.ndim == 2:
        return M.wrap(it, mkarr((x.shape[0],), lambda i: x.el(i, i), x.dt))
    return M.wrap(it, mkarr((x.shape[0], x.shape[0]), lambda i, j: ite(eq(i, j), x.el(i), ZERO), x.dt))


@reg('numpy.diagonal')
def _diagonal(it, a, k):
    x = M.toarr(it, a[0])
    if x is None or len(a) > 1 or (k and not (x.ndim == 3)):
        return M.unka('diagonal')
    return M.wrap(it, mkarr((x.shape[0],) + tuple(x.shape[2:]), lambda i: x.el(i, i), x.dt)) if x.ndim == 2 else M.unka('diagonal')


FN['numpy.diagflat'] = _diag


@reg('numpy.trace')
def _trace(it, a, k):
    x = M.toarr(it, a[0])
    if x is None or x.ndim != 2:
        return M.unka('trace')
    i = fresh()
    set_range(i, x.shape[0])
    return Sc(mk_sum([(i, x.shape[0])], x.el(i, i)), 'float')


@reg('numpy.tril', 'numpy.triu')
def _tri(it, a, k):
    return M.unka('tri')


@reg('numpy.outer')
def _outer(it, a, k):
    x, y = M.toarr(it, a[0]), M.toarr(it, a[1])
    if x is None or y is None or x.ndim != 1 or y.ndim != 1:
        return M.unka('outer')
    return M.wrap(it, mkarr((x.shape[0], y.shape[0]), lambda i, j: mul(x.el(i), y.el(j))))


@reg('numpy.inner', 'numpy.vdot')
def _inner(it, a, k):
    x, y = M.toarr(it, a[0]), M.toarr(it, a[1])
    if x is not None and y is not None and x.ndim == y.ndim == 1:
        return M.dot(it, a[0], a[1])
    return M.unka('inner')


FN['numpy.dot'] = lambda it, a, k: M.dot(it, a[0], a[1])


@reg('numpy.einsum')
def _einsum(it, a, k):
    s = a[0]
    if not isinstance(s, str):
        return M.unka('einsum')
    s = s.replace(' ', '')
    if '.' in s:
        return M.unka('einsum')
    ins = s.split('->')[0].split(',')
    if '->' in s:
        out = s.split('->')[1]
    else:
        allc = ''.join(ins)
        out = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    xs = [M.toarr(it, v) for v in a[1:]]
    if any(x is None for x in xs) or any(x.ndim != len(i) for x, i in zip(xs, ins)):
        return M.unka('einsum')
    rng = {}
    for x, i in zip(xs, ins):
        for c, d in zip(i, x.shape):
            if c in rng and not M.is1(rng[c]):
                e = M.dimeq(it, rng[c], d)
                if e is not True and not M.is1(d):
                    if e == 'err!':
                        it.note('shapeerror', 'einsum')
                        M.dead(it, 'ValueError')
                    it.shape_issues.append((e, [x.shape for x in xs], it.loc))
                    return M.unka('einsum') if e == 'unk' else Op(node('shapeerr', 'einsum', s))
            else:
                rng[c] = d

    def g(*ix):
        env = dict(zip(out, ix))
        summed = []
        for c in rng:
            if c not in env:
                v = fresh()
                set_range(v, rng[c])
                env[c] = v
                summed.append((v, rng[c]))
        p = ONE
        for x, i in zip(xs, ins):
            p = mul(p, M.num_body(x).el(*[ZERO if M.is1(d) else env[c] for c, d in zip(i, x.shape)]))
        return mk_sum(summed, p)
    return M.wrap(it, mkarr([rng[c] for c in out], g))


@reg('numpy.tensordot')
def _td(it, a, k):
    return M.unka('tensordot')


@reg('numpy.cumsum')
def _cumsum(it, a, k):
    x = M.toarr(it, a[0])
    if x is None or x.ndim != 1:
        return M.unka('cumsum')

    def g(i):
        t = fresh()
        r = add(i, ONE)
        set_range(t, r)
        return mk_sum([(t, r)], x.el(t))
    return M.wrap(it, mkarr(x.shape, g))


@reg('numpy.sort')
def _sort(it, a, k):
    x = M.toarr(it, a[0])
    if x is None:
        return M.unka('sort')
    if x.ndim == 1:
        base = node('sorted', M.lam_of(x))
        return M.wrap(it, mkarr(x.shape, lambda i: mk_el(base, (i,)), x.dt))
    ax = it.cint(M.g_arg(a, k, 1, 'axis', i_(-1)))
    if ax is None:
        return M.unka('sort')
    ax %= x.ndim

    def g(*ix):
        t = fresh()
        set_range(t, x.shape[ax])
        jx = list(ix)
        jx[ax] = t
        return mk_el(node('sorted', mk_lam([t], [x.shape[ax]], x.el(*jx))), (ix[ax],))
    return M.wrap(it, mkarr(x.shape, g, x.dt))


@reg('numpy.argsort')
def _argsort(it, a, k):
    x = M.toarr(it, a[0])
    if x is None or x.ndim != 1:
        return M.unka('argsort')
    base = node('argsort', M.lam_of(x))
    return M.wrap(it, mkarr(x.shape, lambda i: mk_el(base, (i,)), 'int'))


def _argsort_hook(base, idx):
    if base.op == 'argsort' and len(idx) == 1 and idx[0] is ZERO:
        l = base.args[0]
        vs, b = open_binder(l)
        return mk_argmin(vs, list(l.args[1]), b)
    if base.op == 'sorted' and len(base.args) == 1 and base.args[0].op == 'lam' and len(base.args[0].args[1]) == 1 and len(idx) == 1 and idx[0] is ZERO:
        l = base.args[0]
        vs, b = open_binder(l)
        return mk_minred(vs, list(l.args[1]), b)
    return None


T.EL_HOOKS.append(_argsort_hook)


@reg('numpy.unique')
def _unique(it, a, k):
    x = M.toarr(it, a[0])
    if x is None:
        return M.unka('unique')
    if k.get('return_index') or k.get('return_counts') or k.get('return_inverse') or len(a) > 1 or k.get('axis') is not None:
        return M.unka('unique')
    if x.ndim != 1:
        x = M.reshape(it, x, [M.total(x.shape)])
    base = node('unique', M.lam_of(x))
    n = node('len', base)
    return M.wrap(it, mkarr((n,), lambda i: mk_el(base, (i,)), x.dt))


@reg('numpy.allclose', 'numpy.isclose')
def _close(it, a, k):
    return Bl(cond_atom('allclose', it.enc(a[0]), it.enc(a[1])))


@reg('numpy.array_equal')
def _aeq(it, a, k):
    x, y = M.toarr(it, a[0]), M.toarr(it, a[1])
    if x is None or y is None or x.ndim != y.ndim:
        return M.unka('array_equal') if (x is None or y is None) else False
    if not all(M.dimeq(it, p, q) is True for p, q in zip(x.shape, y.shape)):
        return Bl(cond_atom('array_equal', it.enc(a[0]), it.enc(a[1])))
    from .models import compare
    return M.do_reduce(it, 'all', [compare(it, 'Eq', a[0], a[1])], {})


@reg('numpy.any_')
def _nop(it, a, k):
    return None


@reg('numpy.errstate', 'warnings.catch_warnings', 'contextlib.suppress')
def _errstate(it, a, k):
    return Op(node('ctx', 'errstate'), 'ctx')


@reg('numpy.seterr', 'warnings.filterwarnings', 'warnings.simplefilter', 'warnings.warn')
def _seterr(it, a, k):
    it.note('globalstate', 'seterr/warnings')
    return None


@reg('numpy.shape')
def _shape(it, a, k):
    x = M.toarr(it, a[0])
    return tuple(Sc(s, 'int') for s in x.shape) if x is not None else M.unka('shape')


@reg('numpy.ndim')
def _ndim(it, a, k):
    x = M.toarr(it, a[0])
    return i_(x.ndim) if x is not None else M.unka('ndim')


@reg('numpy.size')
def _size(it, a, k):
    x = M.toarr(it, a[0])
    if x is None:
        return M.unka('size')
    ax = M.g_arg(a, k, 1, 'axis')
    if ax is not None:
        return Sc(x.shape[it.cint(ax)], 'int')
    return Sc(M.total(x.shape), 'int')


def _cast(t):
    def g(it, a, k):
        return M.ewise_cast(it, a[0], t)
    return g


FN['numpy.float64'] = _cast('float')
FN['numpy.float_'] = _cast('float')
FN['numpy.int64'] = _cast('int')
FN['numpy.int32'] = _cast('int')
FN['numpy.bool_'] = _cast('bool')
FN['numpy.float32'] = _cast('float32')
FN['numpy.float16'] = _cast('float16')


def _inplace_first(name):
    def g(it, a, k):
        if isinstance(a[0], Ref):
            it.mutate(a[0], name)
            if name == 'fill_diagonal' and is_arr(a[0]):
                x = it.cell(a[0]).val
                v = M.toarr(it, a[1])
                if x.ndim == 2 and v is not None and v.ndim <= 1:
                    it.write_arr(a[0], mkarr(x.shape, lambda i, j: ite(eq(i, j), v.el(*((i,) if v.ndim else ())), x.el(i, j)), x.dt), name)
                    return None
            if name == 'copyto' and is_arr(a[0]):
                x, v = it.cell(a[0]).val, M.toarr(it, a[1])
                if v is not None and not k:
                    it.write_arr(a[0], mkarr(x.shape, lambda *ix: v.el(*M.bidx(v.shape, ix)), x.dt), name)
                    return None
            it.havoc(a[0])
        return None
    return g


for _n in ('fill_diagonal', 'copyto', 'put', 'put_along_axis', 'place', 'putmask'):
    FN['numpy.' + _n] = _inplace_first(_n)


@reg('numpy.take')
def _take(it, a, k):
    ax = M.g_arg(a, k, 2, 'axis')
    if ax is None:
        x = M.toarr(it, a[0])
        if x is None or x.ndim != 1:
            return M.unka('take')
        return it.getitem(a[0], a[1])
    q = it.cint(ax)
    return it.getitem(a[0], tuple([Slice(None, None, None)] * q + [a[1]]))


@reg('numpy.flip', 'numpy.flipud')
def _flip(it, a, k):
    x = M.toarr(it, a[0])
    if x is None:
        return M.unka('flip')
    ax = it.cint(k.get('axis', a[1] if len(a) > 1 else i_(0)))
    if x.ndim > 1 and 'axis' not in k and len(a) < 2:
        return M.unka('flip')
    return M.wrap(it, mkarr(x.shape, lambda *ix: x.el(*[sub(sub(x.shape[q], ONE), i) if q == ax else i for q, i in enumerate(ix)]), x.dt))


@reg('numpy.split')
def _npsplit(it, a, k):
    x, s = M.toarr(it, a[0]), tosc(it, a[1]) if is_num(a[1]) else None
    if x is None or s is None:
        return M.unka('split')
    even = eq(x.shape[0], mul(s.n, fdiv(x.shape[0], s.n)))
    it.may_raise(bnot(even), 'ValueError')
    it.pc = band(it.pc, even)
    return _asplit(it, a, k)


@reg('numpy.array_split')
def _asplit(it, a, k):
    x = M.toarr(it, a[0])
    s = tosc(it, a[1]) if is_num(a[1]) else (Sc(a[1].n, 'int') if isinstance(a[1], Op) and not a[1].n.unk else None)
    if x is None or s is None or M.g_arg(a, k, 2, 'axis') is not None:
        return M.unka('array_split')
    n, c = x.shape[0], s.n
    t = fresh()
    set_range(t, c)
    off = node('chunkoff', n, c, t)
    ln = node('chunklen', n, c, t)
    ch = mkarr((ln,) + tuple(x.shape[1:]), lambda i, *r: x.el(add(off, i), *r), x.dt)
    ref = it.alloc('arr', ArrCell(ch, ((a[0], None),) if is_arr(a[0]) else None))
    return it.alloc('list', ListCell((('map', c, t, ref),)))


# ---------------------------------------------------------------- linear algebra

@reg('numpy.linalg.inv', 'scipy.linalg.inv', 'numpy.linalg.pinv', 'scipy.linalg.pinv')
def _inv(it, a, k):
    x = M.toarr(it, a[0])
    if x is None or x.ndim != 2:
        return M.unka('inv', it.enc(a[0]))
    it.note('inv', (M.lam_of(x),))
    return M.wrap(it, M.inv_arr(it, x))


@reg('scipy.linalg.cholesky', 'numpy.linalg.cholesky')
def _chol(it, a, k):
    x = M.toarr(it, a[0])
    if x is None or x.ndim != 2:
        return M.unka('cholesky')
    low = it.res(M.g_arg(a, k, 1, 'lower', False))
    return low, x


def _chol_s(it, a, k):
    r = _chol(it, a, k)
    if isinstance(r, Op):
        return r
    low, x = r
    it.may_raise(cond_atom('notpd', M.lam_of(x)), 'numpy.linalg.LinAlgError')
    it.note('chol', (M.lam_of(x),))
    return M.wrap(it, M.chol_arr(it, x, low is True))


def _chol_n(it, a, k):
    r = _chol(it, [a[0]], {})
    if isinstance(r, Op):
        return r
    _, x = r
    it.may_raise(cond_atom('notpd', M.lam_of(x)), 'numpy.linalg.LinAlgError')
    it.note('chol', (M.lam_of(x),))
    return M.wrap(it, M.chol_arr(it, x, True))


FN['scipy.linalg.cholesky'] = _chol_s
FN['numpy.linalg.cholesky'] = _chol_n


@reg('scipy.linalg.cho_factor')
def _chof(it, a, k):
    low = it.res(M.g_arg(a, k, 1, 'lower', False))
    r = _chol_s(it, [a[0]], {'lower': low})
    return (r, low)


@reg('scipy.linalg.cho_solve')
def _chos(it, a, k):
    cl = a[0]
    its = it.concrete_items(cl)
    if its is None or len(its) != 2:
        return M.unka('cho_solve')
    c, low = it.res(its[0]), it.res(its[1])
    if isinstance(c, PyIte):
        return lift_ite(it, c, lambda x: _chos(it, [(x, low), a[1]], k))
    ca, b = M.toarr(it, c), M.toarr(it, a[1])
    if ca is None or b is None or ca.ndim != 2:
        return M.unka('cho_solve')
    if isinstance(low, (PyIte, Bl)):
        return M.unka('cho_solve')
    o = M.chol_of(ca)
    if o is None:
        # split on pc: chol merged by several retries
        if ca.body.op == 'ite':
            at = ca.body.args[0]
            if not (at.fv & set(ca.vs)):
                cnd = mkite(at, TRUE, FALSE)
                x1 = M.wrap(it, Arr(ca.shape, ca.vs, ca.body.args[1], ca.dt))
                x2 = M.wrap(it, Arr(ca.shape, ca.vs, ca.body.args[2], ca.dt))
                return it.cond_eval(cnd, lambda: _chos(it, [(x1, low), a[1]], k), lambda: _chos(it, [(x2, low), a[1]], k))
        lam = M.lam_of(ca)
        if low:
            base = node('chogram', lam, 'L')
        else:
            base = node('chogram', lam, 'U')
        inv = mkarr(ca.shape, lambda i, j: mk_el(node('inv', base, 'sym'), (i, j)))
        return M.dot(it, M.wrap(it, inv), a[1])
    lam, orient = o
    if (orient == 'L') != bool(low):
        base = node('badchol', lam)
        inv = mkarr(ca.shape, lambda i, j: mk_el(node('inv', base, ''), (i, j)))
        return M.dot(it, M.wrap(it, inv), a[1])
    m = M.lam_arr(lam)
    m = Arr(ca.shape, m.vs, m.body)
    return M.dot(it, M.wrap(it, M.inv_arr(it, m)), a[1])


@reg('numpy.linalg.solve', 'scipy.linalg.solve')
def _solve(it, a, k):
    x, b = M.toarr(it, a[0]), M.toarr(it, a[1])
    if x is None or b is None or x.ndim != 2:
        return M.unka('solve')
    return M.dot(it, M.wrap(it, M.inv_arr(it, x)), a[1])


@reg('scipy.linalg.solve_triangular')
def _stri(it, a, k):
    x, b = M.toarr(it, a[0]), M.toarr(it, a[1])
    low = it.res(M.g_arg(a, k, 3, 'lower', False))
    tr = it.res(M.g_arg(a, k, 2, 'trans', i_(0)))
    if x is None or b is None:
        return M.unka('solve_triangular')
    o = M.chol_of(x)
    if o is None:
        return M.unka('solve_triangular', M.lam_of(x))
    if isinstance(tr, Sc):
        tr = 'T' if it.cint(tr) == 1 else 'N'
    lam, orient = o
    # matrix applied: x (orientation o), optionally transposed
    eff = orient if tr == 'N' else ('U' if orient == 'L' else 'L')
    if (orient == 'L') != (low is True):
        return M.unka('solve_triangular-orientation')
    base = node('cholinv', lam)
    if eff == 'L':
        inv = mkarr(x.shape, lambda i, j: mk_el(base, (i, j)))
    else:
        inv = mkarr(x.shape, lambda i, j: mk_el(base, (j, i)))
    return M.dot(it, M.wrap(it, inv), a[1])


@reg('numpy.linalg.det')
def _det(it, a, k):
    x = M.toarr(it, a[0])
    return Sc(node('det', M.lam_of(x)), 'float') if x is not None else M.unka('det')


@reg('numpy.linalg.slogdet')
def _slogdet(it, a, k):
    x = M.toarr(it, a[0])
    if x is None:
        return M.unka('slogdet')
    l = M.lam_of(x)
    return (Sc(node('detsign', l), 'float'), Sc(node('logdet', l), 'float'))


@reg('numpy.linalg.norm', 'scipy.linalg.norm')
def _norm(it, a, k):
    x = M.toarr(it, a[0])
    if x is None:
        return M.unka('norm')
    o = M.g_arg(a, k, 1, 'ord')
    ax = M.g_arg(a, k, 2, 'axis')
    if o is not None and it.cint(o) != 2:
        big = it.enc(o) is T.INF
        if not big and it.cint(o) != 1 or x.ndim == 2 and ax is None:
            return M.unka('norm')
        red = (lambda vs, rs, b: T.mk_maxred(vs, rs, absv(b))) if big else lambda vs, rs, b: mk_sum(list(zip(vs, rs)), absv(b))
        return M.wrap(it, M.reduce_(it, M.num_body(x), M.axis_of(it, ax, x.ndim) if x.ndim else None, M.kwbool(it, k.get('keepdims', False)), red, 'real'))
    if x.ndim == 2 and o is not None and ax is None:
        return M.unka('norm2')
    axs = M.axis_of(it, ax, x.ndim) if x.ndim else None
    keep = M.kwbool(it, k.get('keepdims', False))
    r = M.reduce_(it, M.num_body(x), axs, keep, lambda vs, rs, b: mk_sum(list(zip(vs, rs)), power(b, num(2))), 'real')
    return M.wrap(it, Arr(r.shape, r.vs, sqrt(r.body), 'real'))


@reg('numpy.round', 'numpy.around', 'numpy.round_')
def _round(it, a, k):
    x = M.toarr(it, a[0])
    d = M.g_arg(a, k, 1, 'decimals', 0)
    if x is None or it.cint(d) is None:
        return M.unka('round')
    x = M.num_body(x)
    if x.dt == 'int' or isint(x.body):
        return M.wrap(it, x)
    r = fn('rint', x.body) if it.cint(d) == 0 else fn('round', x.body, num(it.cint(d)))
    return M.wrap(it, Arr(x.shape, x.vs, r, 'real')) if x.ndim else Sc(r, 'float')


@reg('scipy.spatial.distance.cdist')
def _cdist(it, a, k):
    x, y = M.toarr(it, a[0]), M.toarr(it, a[1])
    met = it.res(M.g_arg(a, k, 2, 'metric', 'euclidean'))
    if x is None or y is None or x.ndim != 2 or y.ndim != 2:
        if x is not None and y is not None and not (x.body.unk or y.body.unk):
            it.note('shapeerror', 'cdist')
            M.dead(it, 'ValueError')
        return M.unka('cdist')
    e = M.dimeq(it, x.shape[1], y.shape[1])

    def g(i, j):
        t = fresh()
        set_range(t, x.shape[1])
        d = sub(x.el(i, t), y.el(j, t))
        if met == 'euclidean':
            r = sqrt(mk_sum([(t, x.shape[1])], power(d, num(2))))
        elif met == 'sqeuclidean':
            r = mk_sum([(t, x.shape[1])], power(d, num(2)))
        elif met == 'chebyshev':
            r = T.mk_maxred([t], [x.shape[1]], absv(d))
        elif met in ('cityblock',):
            r = mk_sum([(t, x.shape[1])], absv(d))
        else:
            r = node('unk' if not isinstance(met, str) else 'metric', 'cdist', it.enc(met), i, j, mk_sum([(t, x.shape[1])], power(d, num(2))))
        if e is not True:
            r = node('unk' if e == 'unk' else 'shapeerr', 'cdist', r)
        return r
    return M.wrap(it, mkarr((x.shape[0], y.shape[0]), g))


# ---------------------------------------------------------------- distributions, samplers, randomness

@reg('scipy.stats.multivariate_normal')
def _mvn(it, a, k):
    m, c = M.g_arg(a, k, 0, 'mean'), M.g_arg(a, k, 1, 'cov', f_(1))
    x = M.toarr(it, m)
    al = k.get('allow_singular')
    it.may_raise(cond_atom('singular', it.enc(c), it.enc(al)), 'ValueError')
    n = node('mvnd', it.enc(m), it.enc(c))
    return Op(n, 'dist', {'mean': m, 'cov': c})


@reg('scipy.stats.multivariate_normal.rvs')
def _mvnrvs(it, a, k):
    m, c = M.g_arg(a, k, 0, 'mean'), M.g_arg(a, k, 1, 'cov', f_(1))
    return M.dist_rvs(it, Op(node('mvnd'), 'dist', {'mean': m, 'cov': c}), a[2:], {x: y for x, y in k.items() if x in ('size', 'random_state')})


def _sampler(name):
    def g(it, a, k):
        d = M.g_arg(a, k, 0, 'd')
        s = tosc(it, d) if is_num(d) else (Sc(d.n, 'int') if isinstance(d, Op) else None)
        seed = k.get('seed', k.get('rng'))
        scr = k.get('scramble', True)
        if seed is None and scr is not False:
            it.note('entropy', ())
            kk = it.rngkeys.get('entropy', 0)
            it.rngkeys['entropy'] = kk + 1
            sn = node('entropyseed', num(kk), *it.loopvars)
        else:
            sn = it.enc(seed)
        if s is None:
            return M.unka('sampler')
        return Op(M.born(it, node('rng', name, s.n, sn, it.enc(scr))), 'sampler', {'d': s.n})
    return g


FN['scipy.stats.qmc.Sobol'] = _sampler('sobol')
FN['scipy.stats.qmc.Halton'] = _sampler('halton')
FN['scipy.stats.qmc.LatinHypercube'] = _sampler('lhs')


@reg('scipy.stats.qmc.scale')
def _qscale(it, a, k):
    x, l, u = M.toarr(it, a[0]), M.toarr(it, M.g_arg(a, k, 1, 'l_bounds')), M.toarr(it, M.g_arg(a, k, 2, 'u_bounds'))
    if x is None or l is None or u is None:
        return M.unka('qmc.scale')
    return M.wrap(it, M.ew(it, lambda p, q, r: add(q, mul(p, sub(r, q))), [x, l, u]))


@reg('numpy.random.RandomState')
def _rs(it, a, k):
    return M.rng_node(it, M.g_arg(a, k, 0, 'seed'))


@reg('numpy.random.default_rng')
def _drng(it, a, k):
    return M.rng_node(it, M.g_arg(a, k, 0, 'seed'), 'pcg')


def np_random(interp, name, args, kw):
    if name == 'seed':
        interp.note('reseed', (M.GLOBAL_RNG, tuple(interp.enc(a) for a in args)))
        interp.rngkeys[M.GLOBAL_RNG] = interp.rngkeys.get(M.GLOBAL_RNG, 0)
        return None
    return M.draw(interp, M.GLOBAL_RNG, name, args, kw)


for _n in ('random', 'uniform', 'gauss', 'choice', 'shuffle', 'randint', 'seed', 'sample', 'normalvariate', 'randrange'):
    def _mk(nm):
        def g(it, a, k):
            it.note('pyrandom', nm)
            it.note('draw', (nm, node('rng', 'pyglobal')))
            if nm == 'shuffle' and isinstance(a[0], Ref):
                it.mutate(a[0], 'random.shuffle')
                it.havoc(a[0])
                return None
            return M.unka('pyrandom', nm)
        return g
    FN['random.' + _n] = _mk(_n)


# ---------------------------------------------------------------- optimisers

FN['scipy.optimize.minimize'] = lambda it, a, k: M.call_minimize(it, a, k)
FN['scipydirect.minimize'] = lambda it, a, k: M.call_direct(it, a, k)
FN['scipy.optimize.direct'] = lambda it, a, k: M.call_direct(it, a, k)
FN['cma.fmin'] = lambda it, a, k: M.call_cma(it, a, k)


@reg('scipy.optimize.Bounds')
def _bounds(it, a, k):
    l, u = M.toarr(it, a[0]), M.toarr(it, a[1])
    if l is None or u is None or l.ndim != 1 or u.ndim != 1:
        return M.unka('Bounds')
    return M.wrap(it, mkarr((l.shape[0], num(2)), lambda i, j: ite(eq(j, ZERO), l.el(i), u.el(i))))


# ---------------------------------------------------------------- stdlib

@reg('time.time', 'time.perf_counter', 'time.monotonic', 'time.process_time')
def _time(it, a, k):
    c = it.rngkeys.get('clk', 0)
    it.rngkeys['clk'] = c + 1
    it.note('clk', c)
    return Sc(node('clk', num(c), *it.loopvars), 'float')


FN['time.sleep'] = lambda it, a, k: it.note('sleep', ())


@reg('time.strftime', 'time.localtime', 'time.ctime')
def _strft(it, a, k):
    return Op(node('clockstr'), 'str')


DTK = {'numpy.float64': {'floating', 'inexact', 'number', 'float64', 'float'}, 'numpy.int64': {'integer', 'signedinteger', 'number', 'int64', 'int'},
       'numpy.bool_': {'bool_', 'bool'}, 'numpy.object_': {'object_', 'object'}}


@reg('numpy.issubdtype')
def _issub(it, a, k):
    x, y = it.res(a[0]), it.res(a[1])
    if isinstance(x, Ext) and isinstance(y, Ext) and x.path in DTK:
        return y.path.split('.')[-1] in DTK[x.path]
    return M.unka('issubdtype')


@reg('logging.getLogger')
def _getlogger(it, a, k):
    n = it.enc(a[0]) if a else node('root')
    return Op(node('logger', n), 'logger', {'attrs': lambda i2, nm: loggerattr(i2, n, nm)})


def loggerattr(it, n, nm):
    if nm == 'handlers':
        if n in it.handlers:
            return it.handlers[n]
        return Op(node('handlers', n))
    if nm == 'name':
        return Op(n, 'str')
    if nm in ('parent', 'root'):
        return Op(node('logger', node('logparent', n)), 'logger', {'attrs': lambda i2, m2: loggerattr(i2, node('logparent', n), m2)})
    if nm == 'level':
        return Op(node('loglevel', n))
    if nm == 'propagate':
        return Op(node('logprop', n))
    return None


@reg('logging.StreamHandler', 'logging.FileHandler', 'logging.NullHandler')
def _handler(it, a, k):
    it.note('newhandler', ())
    return Op(node('loghandler', *[it.enc(x) for x in a]), 'handler', {'methods': lambda i2, nm, aa, kk: (i2.note('handlercfg', (nm, tuple(i2.enc(x) for x in aa))), None)[1]})


@reg('logging.Formatter')
def _formatter(it, a, k):
    return Op(node('formatter', *[it.enc(x) for x in a]), 'formatter')


@reg('logging.basicConfig', 'logging.disable', 'logging.setLevel')
def _lcfg(it, a, k):
    it.note('globalstate', 'logging')
    return None


@reg('os.path.join')
def _join(it, a, k):
    from .models import mkstr
    if all(isinstance(x, str) for x in a):
        import posixpath
        return posixpath.join(*a)
    return Op(node('pathjoin', *[it.enc(x) for x in a]), 'str')


@reg('multiprocessing.Pool', 'multiprocessing.pool.Pool', 'multiprocessing.pool.ThreadPool')
def _pool(it, a, k):
    return Op(node('pool'), 'pool')


@reg('multiprocessing.cpu_count', 'os.cpu_count')
def _cpu(it, a, k):
    return Sc(sym('$cpus', 'int', 'pos'), 'int')


@reg('itertools.repeat')
def _itrepeat(it, a, k):
    n = M.g_arg(a, k, 1, 'times')
    v = a[0]
    nn = tosc(it, n).n if n is not None and is_num(n) else (n.n if isinstance(n, Op) else INF)
    return Iter(nn, lambda t: v, 'repeat')


@reg('itertools.product')
def _iprod(it, a, k):
    its = [it.concrete_items(x) for x in a]
    if any(x is None for x in its):
        return M.unka('product')
    import itertools
    return it.newlist([tuple(t) for t in itertools.product(*its)])


@reg('itertools.chain')
def _ichain(it, a, k):
    segs = ()
    for x in a:
        segs += tuple(it.segs_of(x))
    return it.alloc('list', ListCell(segs))


@reg('functools.wraps')
def _wraps(it, a, k):
    src = a[0]

    def go(it2, aa, kk):
        f = aa[0]
        if isinstance(f, Fun) and isinstance(src, Fun):
            f.wraps = src
        return f
    return Op(node('wraps'), 'callable', {'call': go})


@reg('functools.partial')
def _partial(it, a, k):
    return Partial(a[0], list(a[1:]), dict(k))


@reg('functools.lru_cache', 'functools.cache')
def _lru(it, a, k):
    if a and isinstance(a[0], Fun):
        it.note('cached', a[0].qual)
        return a[0]

    def go(it2, aa, kk):
        it2.note('cached', aa[0].qual if isinstance(aa[0], Fun) else '?')
        return aa[0]
    return Op(node('lru'), 'callable', {'call': go})


@reg('functools.reduce')
def _freduce(it, a, k):
    its = it.concrete_items(a[1])
    if its is None:
        return M.unka('reduce')
    xs = list(its)
    acc = a[2] if len(a) > 2 else xs.pop(0)
    for x in xs:
        acc = it.call(a[0], [acc, x], {})
    return acc


@reg('copy.copy')
def _copy(it, a, k):
    v = a[0]
    if isinstance(v, Ref) and v.kind in ('arr', 'list', 'dict', 'obj'):
        c = it.cell(v)
        if isinstance(c, ArrCell):
            return it.alloc('arr', ArrCell(c.val))
        if isinstance(c, ListCell):
            return it.alloc('list', ListCell(c.segs))
        if isinstance(c, DictCell):
            return it.alloc('dict', DictCell(dict(c.d), None, c.base))
        return it.alloc('obj', ObjCell(c.cls, dict(c.attrs), None, c.base))
    return v


@reg('copy.deepcopy')
def _deepcopy(it, a, k):
    def go(v):
        v = it.res(v)
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        if isinstance(v, Ref):
            c = it.cell(v)
            if isinstance(c, ArrCell):
                return it.alloc('arr', ArrCell(c.val))
            if isinstance(c, ListCell):
                return it.alloc('list', ListCell(tuple(('item', go(s[1])) if s[0] == 'item' else (('map', s[1], s[2], go(s[3])) if s[0] == 'map' else s) for s in c.segs)))
            if isinstance(c, DictCell):
                return it.alloc('dict', DictCell({q: go(x) for q, x in c.d.items()}, None, c.base))
            if isinstance(c, ObjCell):
                return it.alloc('obj', ObjCell(c.cls, {q: go(x) for q, x in c.attrs.items()}, None, c.base))
        return v
    return go(a[0])


@reg('operator.itemgetter')
def _itemgetter(it, a, k):
    key = a[0]
    return Op(node('itemgetter'), 'callable', {'call': lambda i2, aa, kk: i2.getitem(aa[0], key)})


FN['operator.lt'] = FN['numpy.less']
FN['operator.gt'] = FN['numpy.greater']
FN['operator.le'] = FN['numpy.less_equal']
FN['operator.ge'] = FN['numpy.greater_equal']


@reg('math.isnan')
def _mnan(it, a, k):
    return it.mkbool(isnan_(tosc(it, a[0]).n)) if is_num(a[0]) else M.unka('isnan')


@reg('math.floor', 'math.ceil')
def _mfl(it, a, k):
    return M.unka('mathfloor')


FN['math.floor'] = lambda it, a, k: Sc(floor_(tosc(it, a[0]).n), 'int') if is_num(a[0]) else M.unka('floor')
FN['math.ceil'] = lambda it, a, k: Sc(ceil_(tosc(it, a[0]).n), 'int') if is_num(a[0]) else M.unka('ceil')


@reg('inspect.getfullargspec', 'inspect.signature')
def _insp(it, a, k):
    return M.unka('inspect')


@reg('os.path.exists', 'os.path.isdir', 'os.path.isfile')
def _exists(it, a, k):
    return Bl(cond_atom('fsexists', it.enc(a[0])))


def _fswrite(name):
    def g(it, a, k):
        it.note('fswrite', (name, tuple(it.enc(x) for x in a)))
        return None
    return g


for _n in ('os.makedirs', 'os.mkdir', 'os.remove', 'os.rename', 'numpy.save', 'numpy.savez', 'numpy.savetxt', 'pickle.dump', 'json.dump', 'os.system',
           'subprocess.run', 'subprocess.call', 'shutil.rmtree'):
    FN[_n] = _fswrite(_n)


@reg('tqdm.tqdm', 'tqdm.trange', 'tqdm.auto.tqdm')
def _tqdm(it, a, k):
    return a[0] if a else None
