"""Abstract models of numpy / scipy / stdlib operations used by the analysed code."""
from .terms import *
from . import terms as T
from .values import *
from .models import (is_arr, is_list, is_dict, is_num, tosc, fdiv, mod_, floor_, ceil_, trunc_, min2, max2, SCAL, CMP,
                     norm_index, slice_bounds, lift_ite, as_iter, interp_map, mkstr)


def dead(interp, exc):
    from .interp import DeadPath
    interp.raise_(exc, None)
    raise DeadPath()


def unka(*why):
    return Op(node('unk', *[w if isinstance(w, N) else str(w) for w in why]))


# ---------------------------------------------------------------- conversions

def toarr(interp, v):
    """value -> Arr (possibly 0-d) or None"""
    v = interp.res(v)
    if is_arr(v):
        return interp.cell(v).val
    if isinstance(v, Sc):
        return Arr((), (), v.n, 'int' if v.ty in ('int', 'npint') else 'real')
    if isinstance(v, (bool, Bl)):
        return Arr((), (), interp.bl(v), 'bool')
    if is_list(v) or isinstance(v, tuple):
        r = array_of(interp, v)
        return toarr(interp, r) if (is_arr(r) or isinstance(r, Sc)) else None
    if isinstance(v, Op):
        if v.n.unk:
            return Arr((), (), v.n, 'real')
        if v.ty in ('float', 'int', 'real', 'number', None):
            return Arr((), (), v.n, 'real')
        return None
    if isinstance(v, Iter):
        return array_of(interp, v, raw=True)
    if isinstance(v, PyIte):
        pc0 = interp.pc
        interp.pc = band(pc0, v.c)
        a = toarr(interp, v.a)
        interp.pc = band(pc0, bnot(v.c))
        b = toarr(interp, v.b)
        interp.pc = pc0
        if a is None or b is None or a.ndim != b.ndim or (a.dt == 'bool') != (b.dt == 'bool'):
            return None
        if any(x is not y for x, y in zip(a.shape, b.shape)):
            return None
        return Arr(a.shape, a.vs, ite(v.c, a.body, b.el(*a.vs)), a.dt if a.dt == b.dt else 'real')
    return None


def isreal(v):
    return v.dt in ('real', 'int')


def num_body(a):
    """numeric element body (booleans become 0/1)"""
    if a.dt == 'bool':
        return Arr(a.shape, a.vs, ite(a.body, ONE, ZERO), 'int')
    return a


def wrap(interp, a, view=None):
    if a is None:
        return unka('array')
    return interp.newarr(a, view)


def is1(d):
    return isnum(d) and val(d) == 1


def simple_dim(d):
    if d.op in ('num', 'sym'):
        return True
    if d.op == 'poly':
        return all(all(a.op == 'sym' for a, _ in m) for m in poly(d))
    return False


def bshape(interp, s1, s2):
    """-> (shape, ok) ; ok: True | 'unk' | 'err'"""
    k = max(len(s1), len(s2))
    a = (ONE,) * (k - len(s1)) + tuple(s1)
    b = (ONE,) * (k - len(s2)) + tuple(s2)
    out = []
    ok = True
    for x, y in zip(a, b):
        x, y = simp(x, interp.pc), simp(y, interp.pc)
        if is1(x):
            out.append(y)
        elif is1(y) or x is y:
            out.append(x)
        elif equal(x, y):
            out.append(x)
        else:
            if isnum(x) and isnum(y):
                ok = 'err!'
            elif x.unk or y.unk or not (simple_dim(x) and simple_dim(y)):
                if ok is True:
                    ok = 'unk'
            elif ok is True:
                ok = 'err'
            out.append(x if not isnum(x) else y)
    return tuple(out), ok


def bidx(shape, out_idx):
    """indices into an operand of given shape for broadcast output indices"""
    off = len(out_idx) - len(shape)
    return tuple(ZERO if is1(d) else out_idx[off + i] for i, d in enumerate(shape))


def ew(interp, f, arrs, dt='real'):
    """elementwise broadcast"""
    sh, ok = arrs[0].shape, True
    for a in arrs[1:]:
        sh, o = bshape(interp, sh, a.shape)
        if o == 'err!':
            interp.note('shapeerror', tuple(tuple(x.shape) for x in arrs))
            dead(interp, 'ValueError')
        if o is not True:
            ok = o if ok is True else ok
    if ok is not True:
        interp.shape_issues.append((ok, [a.shape for a in arrs], interp.loc))

        def g(*ix):
            return node('unk' if ok == 'unk' else 'shapeerr', 'broadcast', *[d for a in arrs for d in a.shape], *[a.el(*bidx(a.shape, ix)) for a in arrs])
        return mkarr(sh, g, 'real')
    return mkarr(sh, lambda *ix: f(*[a.el(*bidx(a.shape, ix)) for a in arrs]), dt)


# ---------------------------------------------------------------- operators

def arr_binop(interp, op, a, b):
    x, y = toarr(interp, a), toarr(interp, b)
    if x is None or y is None:
        return unka('arrbin', op, interp.enc(a), interp.enc(b))
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if x.dt == 'bool' and y.dt == 'bool':
            f = {'BitAnd': band, 'BitOr': bor, 'BitXor': lambda p, q: ite(p, bnot(q), q)}[op]
            return wrap(interp, ew(interp, f, [x, y], 'bool'))
        return unka('bitop')
    if op == 'Mult' and x.dt == 'bool' and y.dt == 'bool':
        return wrap(interp, ew(interp, band, [x, y], 'bool'))
    if op == 'Add' and x.dt == 'bool' and y.dt == 'bool':
        return wrap(interp, ew(interp, bor, [x, y], 'bool'))
    x, y = num_body(x), num_body(y)
    f = SCAL.get(op)
    if f is None:
        return unka('arrbin', op)
    dt = 'int' if x.dt == 'int' and y.dt == 'int' and op not in ('Div',) else 'real'
    return wrap(interp, ew(interp, f, [x, y], dt))


def arr_compare(interp, op, a, b):
    if op in ('Eq', 'NotEq') and (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
        return op == 'NotEq'
    x, y = toarr(interp, a), toarr(interp, b)
    f = CMP.get(op)
    if x is None or y is None or f is None:
        return interp.mkbool(cond_atom('unkcmp', op, node('unk', 'arrcmp')))
    if x.dt == 'bool' and y.dt == 'bool' and op in ('Eq', 'NotEq'):
        g = (lambda p, q: ite(p, q, bnot(q))) if op == 'Eq' else (lambda p, q: ite(p, bnot(q), q))
        return wrap(interp, ew(interp, g, [x, y], 'bool'))
    return wrap(interp, ew(interp, f, [num_body(x), num_body(y)], 'bool'))


def ewise1(interp, f, v, dt='real'):
    a = toarr(interp, v)
    if a is None:
        return unka('elementwise', interp.enc(v))
    a = num_body(a)
    return wrap(interp, Arr(a.shape, a.vs, f(a.body), dt))


def dimeq(interp, x, y):
    x, y = simp(x, interp.pc), simp(y, interp.pc)
    if x is y or equal(x, y):
        return True
    if isnum(x) and isnum(y):
        return 'err!'
    if x.unk or y.unk or not (simple_dim(x) and simple_dim(y)):
        return 'unk'
    return 'err'


def dot(interp, a, b, matmul=False):
    x, y = toarr(interp, a), toarr(interp, b)
    if x is None or y is None:
        return unka('dot', interp.enc(a), interp.enc(b))
    x, y = num_body(x), num_body(y)
    if x.ndim == 0 or y.ndim == 0:
        return wrap(interp, ew(interp, mul, [x, y]))
    if matmul and (x.ndim > 2 or y.ndim > 2):
        if x.ndim >= 2 and y.ndim >= 2:
            n1, n2 = x.shape[-1], y.shape[-2]
            if dimeq(interp, n1, n2) is True:
                bs, ok = bshape(interp, x.shape[:-2], y.shape[:-2])
                if ok is True:
                    def g(*ix):
                        t = fresh()
                        pre = ix[:-2]
                        return mk_sum([(t, n1)], mul(x.el(*bidx(x.shape[:-2], pre), ix[-2], t), y.el(*bidx(y.shape[:-2], pre), t, ix[-1])))
                    return wrap(interp, mkarr(bs + (x.shape[-2], y.shape[-1]), g))
        return unka('matmul')
    n1 = x.shape[-1]
    n2 = y.shape[-2] if y.ndim >= 2 else y.shape[0]
    ok = dimeq(interp, n1, n2)
    if ok == 'err!':
        interp.note('shapeerror', (x.shape, y.shape))
        dead(interp, 'ValueError')
    yrest = y.shape[:-2] + y.shape[-1:] if y.ndim >= 2 else ()
    xrest = x.shape[:-1]

    def g(*ix):
        xi, yi = ix[:len(xrest)], ix[len(xrest):]
        t = fresh()
        set_range(t, n1)
        bx = x.el(*xi, t)
        by = y.el(*(yi[:-1] + (t,) + yi[-1:])) if y.ndim >= 2 else y.el(t)
        if ok is not True:
            return node('unk' if ok == 'unk' else 'shapeerr', 'dot', n1, n2, mk_sum([(t, n1)], mul(bx, by)))
        return mk_sum([(t, n1)], mul(bx, by))
    if ok is not True:
        interp.shape_issues.append((ok, [x.shape, y.shape], interp.loc))
    return wrap(interp, mkarr(xrest + yrest, g))


# ---------------------------------------------------------------- attributes

def const_attr(interp, path):
    if path in ('numpy.pi', 'math.pi', 'scipy.pi'):
        return Sc(PI, 'float')
    if path in ('numpy.inf', 'numpy.Inf', 'math.inf', 'numpy.infty', 'numpy.PINF'):
        return Sc(INF, 'float')
    if path in ('numpy.nan', 'numpy.NaN', 'math.nan', 'numpy.NAN'):
        return Sc(node('nan'), 'float')
    if path in ('numpy.e', 'math.e'):
        return Sc(exp(ONE), 'float')
    if path in ('logging.DEBUG', 'logging.INFO', 'logging.WARNING', 'logging.ERROR', 'logging.CRITICAL'):
        return i_({'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}[path.split('.')[1]])
    if path.endswith('LinAlgError'):
        return Ext('numpy.linalg.LinAlgError')
    return None


def arr_attr(interp, ref, name):
    c = interp.cell(ref)
    a = c.val
    if name == 'shape':
        return tuple(Sc(simp(s, interp.pc), 'int') for s in a.shape)
    if name == 'ndim':
        return i_(a.ndim)
    if name == 'size':
        return Sc(mul(*a.shape) if len(a.shape) > 1 else a.shape[0], 'int')
    if name == 'T':
        return wrap(interp, Arr(a.shape[::-1], a.vs[::-1], a.body, a.dt), ((ref, 'T'),))
    if name == 'dtype':
        return Ext({'real': 'numpy.float64', 'int': 'numpy.int64', 'bool': 'numpy.bool_', 'obj': 'numpy.object_'}[a.dt])
    if name == 'real':
        return ref
    if name == 'flat':
        return arr_method(interp, ref, 'ravel', [], {})
    return None


# ---------------------------------------------------------------- indexing

def nax(k):
    return k is None or k == Ext('numpy.newaxis')


def norm_key(interp, key, nd):
    """-> list of components (one per consumed dim, None for newaxis)"""
    ks = list(key) if isinstance(key, tuple) else [key]
    ks = [interp.res(k) if not isinstance(k, Slice) else k for k in ks]
    ks = [None if (isinstance(k, Ext) and nax(k)) else k for k in ks]
    out = []
    used = 0
    for k in ks:
        if k is None or k is ELLIPSIS:
            continue
        if is_arr(k) and interp.cell(k).val.dt == 'bool':
            used += interp.cell(k).val.ndim
        else:
            used += 1
    seen = False
    for k in ks:
        if k is ELLIPSIS:
            seen = True
            out.extend([Slice(None, None, None)] * (nd - used))
        else:
            out.append(k)
    if not seen:
        out.extend([Slice(None, None, None)] * (nd - used))
    return out


def mask_lam(a):
    """canonical lam over the mask's index space with numeric body (1 true)"""
    return mk_lam(list(a.vs), list(a.shape), a.body)


def nth(maskarr, q):
    return mk_nth(mask_lam(maskarr), q)


def mask_count(a):
    vs = [fresh() for _ in a.shape]
    for v, s in zip(vs, a.shape):
        set_range(v, s)
    return mk_count(vs, list(a.shape), a.el(*vs))


def key_plan(interp, shape, key):
    """-> dict(out_shape, fwd(out_idx)->in_idx, basic:bool, inv(in_idx)->(cond,out_idx) or None) or None"""
    comps = norm_key(interp, key, len(shape))
    dims = []          # entries: ('int', n) ('slice', lo, len, step) ('new',) ('adv', Arr) ('mask', Arr)
    adv = []
    d = 0
    for k in comps:
        if k is None:
            dims.append(('new',))
            continue
        if d >= len(shape):
            interp.note('shapeerror', 'too many indices')
            dead(interp, 'IndexError')
        if isinstance(k, Slice):
            sb = slice_bounds(interp, k, simp(shape[d], interp.pc))
            if sb is None:
                return None
            dims.append(('slice', d) + sb)
            d += 1
            continue
        if isinstance(k, bool) or isinstance(k, Bl):
            return None
        if isinstance(k, Sc):
            ix = norm_index(simp(k.n, interp.pc), shape[d])
            if isnum(ix) and isnum(shape[d]) and not (0 <= val(ix) < val(shape[d])):
                interp.note('indexerror', (ix, shape[d]))
                dead(interp, 'IndexError')
            if isnum(ix) and isnum(shape[d]) is False and isnum(k.n) is False:
                pass
            dims.append(('int', d, ix))
            d += 1
            continue
        a = None
        if is_arr(k):
            a = interp.cell(k).val
        elif is_list(k) or isinstance(k, tuple) or isinstance(k, Iter):
            r = array_of(interp, k)
            a = interp.cell(r).val if is_arr(r) else None
        elif isinstance(k, Op) and not k.n.unk and k.ty in ('int', None):
            dims.append(('int', d, k.n))
            d += 1
            continue
        if a is None:
            return None
        if a.dt == 'bool':
            dims.append(('mask', d, a))
            adv.append(len(dims) - 1)
            d += a.ndim
        else:
            dims.append(('adv', d, a))
            adv.append(len(dims) - 1)
            d += 1
    out_shape = []
    if not adv:
        pos = []
        for e in dims:
            if e[0] == 'new':
                out_shape.append(ONE)
            elif e[0] == 'slice':
                out_shape.append(e[3])

        def fwd(ix):
            r = []
            p = 0
            for e in dims:
                if e[0] == 'new':
                    p += 1
                elif e[0] == 'int':
                    r.append(e[2])
                else:
                    i = ix[p]
                    p += 1
                    r.append(add(e[2], i) if e[4] == 1 else (sub(e[2], i) if e[4] == -1 else add(e[2], mul(num(e[4]), i))))
            return tuple(r)

        def inv(ix):
            c = TRUE
            o = []
            for e in dims:
                if e[0] == 'new':
                    o.append(ZERO)
                elif e[0] == 'int':
                    c = band(c, eq(ix[e[1]], e[2]))
                else:
                    i = ix[e[1]]
                    if e[4] == 1:
                        c = band(c, le(e[2], i), lt(i, add(e[2], e[3])))
                        o.append(sub(i, e[2]))
                    elif e[4] == -1:
                        o.append(sub(e[2], i))
                    else:
                        st = num(e[4])
                        off = sub(i, e[2])
                        q = fdiv(off, st)
                        c = band(c, le(e[2], i), eq(mul(q, st), off), lt(q, e[3]))
                        o.append(q)
            return c, tuple(o)
        return dict(out_shape=tuple(out_shape), fwd=fwd, inv=inv, basic=True)
    # advanced
    advs = [dims[i] for i in adv]
    if any(e[0] == 'mask' for e in advs):
        if len(advs) != 1:
            return None
        m = advs[0]
        marr = m[2]
        if marr.ndim != 1:
            if len(dims) == 1 and marr.ndim == len(shape):
                # full mask: flattened selection, order only known abstractly
                cnt = mask_count(marr)
                lm = mask_lam(marr)

                def fwd(ix):
                    return tuple(node('nthm', lm, ix[0], num(q)) for q in range(marr.ndim))

                def inv(ix):
                    return marr.el(*ix), None
                return dict(out_shape=(cnt,), fwd=fwd, inv=inv, basic=False, maskonly=True)
            return None
        ash = (mask_count(marr),)
        aix = {m[1]: lambda q: nth(marr, q[0])}
    else:
        ash = ()
        for e in advs:
            ash, ok = bshape(interp, ash, e[2].shape)
            if ok is not True:
                return None
        aix = {e[1]: (lambda q, e=e: norm_index(e[2].el(*bidx(e[2].shape, q)), shape[e[1]])) for e in advs}
    # ints mixed with adv arrays act as advanced too; position: contiguous -> at first adv position
    advpos = [i for i, e in enumerate(dims) if e[0] in ('adv', 'mask', 'int')]
    contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    layout = []       # sequence of ('A',) once, and ('new',)/('slice', e)
    placed = False
    if not contiguous:
        layout.append(('A',))
        placed = True
    for e in dims:
        if e[0] in ('adv', 'mask', 'int'):
            if not placed:
                layout.append(('A',))
                placed = True
        else:
            layout.append(e)
    for e in layout:
        if e[0] == 'A':
            out_shape.extend(ash)
        elif e[0] == 'new':
            out_shape.append(ONE)
        else:
            out_shape.append(e[3])
    na = len(ash)
    nin = len(shape)

    def fwd(ix):
        r = [None] * nin
        p = 0
        for e in layout:
            if e[0] == 'A':
                q = ix[p:p + na]
                p += na
                for dd, f in aix.items():
                    r[dd] = f(q)
            elif e[0] == 'new':
                p += 1
            else:
                i = ix[p]
                p += 1
                r[e[1]] = add(e[2], i) if e[4] == 1 else sub(e[2], i)
        for e in dims:
            if e[0] == 'int':
                r[e[1]] = e[2]
        return tuple(r)

    def inv(ix):
        c = TRUE
        q = None
        if advs[0][0] == 'mask':
            c = advs[0][2].el(ix[advs[0][1]])
        elif na == 1:
            t = fresh()
            set_range(t, ash[0])
            for e in advs:
                b = norm_index(e[2].el(*bidx(e[2].shape, (t,))), shape[e[1]])
                if q is None:
                    q = T.solve_for(sub(b, ix[e[1]]), t)
                    if q is None:
                        if isnum(ash[0]) and val(ash[0]) == 1:
                            q = ZERO
                            c = band(c, eq(subst(b, {t: q}), ix[e[1]]))
                            continue
                        break
                    c = band(c, bnot(lt0(q)), lt(q, ash[0]))
                else:
                    c = band(c, eq(subst(b, {t: q}), ix[e[1]]))
            if q is None:
                # membership only
                cc = TRUE
                for e in advs:
                    b = norm_index(e[2].el(*bidx(e[2].shape, (t,))), shape[e[1]])
                    cc = band(cc, eq(b, ix[e[1]]))
                c = mk_exists([t], [ash[0]], cc)
        else:
            return None
        o = []
        for e in layout:
            if e[0] == 'A':
                o.append(q)
            elif e[0] == 'new':
                o.append(ZERO)
            else:
                i = ix[e[1]]
                c = band(c, le(e[2], i), lt(i, add(e[2], e[3])))
                o.append(sub(i, e[2]))
        for e in dims:
            if e[0] == 'int':
                c = band(c, eq(ix[e[1]], e[2]))
        return c, tuple(o)
    return dict(out_shape=tuple(out_shape), fwd=fwd, inv=inv, basic=False)


def has_ite_key(interp, key):
    ks = key if isinstance(key, tuple) else (key,)
    for i, k in enumerate(ks):
        if isinstance(k, PyIte):
            return i
    return None


def arr_getitem(interp, ref, key):
    if isinstance(key, tuple):
        i = has_ite_key(interp, key)
        if i is not None:
            return lift_ite(interp, key[i], lambda x: arr_getitem(interp, ref, key[:i] + (x,) + key[i + 1:]))
    a = interp.cell(ref).val
    p = key_plan(interp, a.shape, key)
    if p is None:
        return unka('getitem', enc_safe(interp, ref), enc_key(interp, key))
    out = mkarr(p['out_shape'], lambda *ix: a.el(*p['fwd'](ix)), a.dt)
    return wrap(interp, out, ((ref, key),) if p['basic'] else None)


def enc_safe(interp, v):
    return interp.enc(v)


def enc_key(interp, key):
    return interp.enc(key)


def setitem_arr(interp, arr, key, newval):
    if key == 'T':
        return Arr(newval.shape[::-1], newval.vs[::-1], newval.body, newval.dt)
    if key == 'same':
        return newval
    if isinstance(key, tuple) and key and isinstance(key[0], str) and key[0] == '$map':
        return None
    p = key_plan(interp, arr.shape, key)
    if p is None:
        return None
    nv = newval if isinstance(newval, Arr) else toarr(interp, newval)
    if nv is None:
        return None
    r = p['inv'](arr.vs)
    if r is None:
        return None
    c, o = r
    if o is None or any(x is None for x in o):
        if nv.ndim != 0:
            return None
        new = nv.body
    else:
        osh = p['out_shape']
        sh, ok = bshape(interp, osh, nv.shape)
        if ok != True and nv.ndim > len(osh) and all(is1(x) for x in nv.shape[:nv.ndim - len(osh)]):
            nv = Arr(nv.shape[-len(osh):] if osh else (), nv.vs[-len(osh):] if osh else (),
                     subst(nv.body, {v: ZERO for v in nv.vs[:nv.ndim - len(osh)]}), nv.dt)
            sh, ok = bshape(interp, osh, nv.shape)
        if nv.ndim > len(osh):
            if all(is1(x) for x in nv.shape[:nv.ndim - len(osh)]):
                k = nv.ndim - len(osh)
                nv = Arr(nv.shape[k:], nv.vs[k:], subst(nv.body, {v: ZERO for v in nv.vs[:k]}), nv.dt)
                sh, ok = bshape(interp, osh, nv.shape)
        ix = bidx(nv.shape, o)
        new = nv.el(*ix)
        if ok == 'err!':
            interp.note('shapeerror', (osh, nv.shape))
            dead(interp, 'ValueError')
        if ok is not True:
            new = node('unk' if ok == 'unk' else 'shapeerr', 'store', new)
    if arr.dt == 'bool' and nv.dt == 'bool' or arr.dt == nv.dt:
        dt = arr.dt
    else:
        dt = arr.dt if arr.dt == 'obj' else 'real'
        if arr.dt == 'int' and nv.dt == 'real':
            new = trunc_(new)
            dt = 'int'
        if nv.dt == 'bool' and arr.dt != 'bool':
            new = ite(new, ONE, ZERO)
            dt = arr.dt
    return Arr(arr.shape, arr.vs, ite(c, new, arr.body), dt)


def arr_setitem(interp, ref, key, v):
    v = interp.res(v)
    if isinstance(v, PyIte):
        interp.branch(v.c, lambda: arr_setitem(interp, ref, key, interp.res(v.a)), lambda: arr_setitem(interp, ref, key, interp.res(v.b)))
        return
    key = interp.res(key) if not isinstance(key, (tuple, Slice)) else key
    if isinstance(key, PyIte):
        interp.branch(key.c, lambda: arr_setitem(interp, ref, interp.res(key.a), v), lambda: arr_setitem(interp, ref, interp.res(key.b), v))
        return
    a = interp.cell(ref).val
    r = setitem_arr(interp, a, key, v)
    if r is None:
        u = fresh()
        r = mkarr(a.shape, lambda *i: node('unk', 'setitem', u, *i), a.dt)
    interp.write_arr(ref, r, 'item assignment')


# ---------------------------------------------------------------- construction

def array_of(interp, v, raw=False):
    """np.array(v)"""
    r = _array_of(interp, v)
    if raw:
        return toarr(interp, r)
    return r


def _array_of(interp, v):
    v = interp.res(v)
    if isinstance(v, PyIte):
        return lift_ite(interp, v, lambda x: _array_of(interp, x))
    if is_arr(v):
        a = interp.cell(v).val
        return interp.alloc('arr', ArrCell(a))
    if isinstance(v, (Sc, Bl, bool, Op)):
        return v
    if isinstance(v, str) or v is None:
        return v
    if is_list(v) or isinstance(v, (tuple, Iter)):
        return from_segs(interp, interp.segs_of(v))
    return unka('array_of', interp.enc(v))


def from_segs(interp, segs):
    for k, s in enumerate(segs):
        if s[0] == 'ite':
            return interp.cond_eval(s[1], lambda: from_segs(interp, tuple(segs[:k]) + tuple(s[2]) + tuple(segs[k + 1:])),
                                    lambda: from_segs(interp, tuple(segs[:k]) + tuple(s[3]) + tuple(segs[k + 1:])))
    parts = []
    for s in segs:
        if s[0] == 'item':
            v = interp.res(s[1])
            if isinstance(v, PyIte):
                k = segs.index(s)
                return interp.cond_eval(v.c, lambda: from_segs(interp, tuple(segs[:k]) + (('item', v.a),) + tuple(segs[k + 1:])),
                                        lambda: from_segs(interp, tuple(segs[:k]) + (('item', v.b),) + tuple(segs[k + 1:])))
            a = elem_arr(interp, v)
            if a is None:
                return unka('array', interp.enc(v))
            parts.append((ONE, a, None))
        elif s[0] == 'map':
            a = elem_arr(interp, s[3])
            if a is None:
                return unka('array', interp.enc(s[3]))
            parts.append((s[1], a, s[2]))
        else:
            t = fresh()
            set_range(t, s[2])
            a = elem_arr(interp, interp.opq_item(s, t))
            if a is None:
                return unka('array', s[1])
            parts.append((s[2], a, t))
    if not parts:
        return interp.alloc('arr', ArrCell(mkarr((ZERO,), lambda i: ZERO)))
    es = parts[0][1].shape
    bad = None
    for n, a, t in parts[1:]:
        if a.ndim != len(es):
            bad = 'unk'
        else:
            for p, q in zip(es, a.shape):
                if dimeq(interp, p, q) is not True:
                    bad = 'unk'
    for n, a, t in parts:
        if t is not None and any(t in s.fv for s in a.shape):
            bad = 'unk'
    if bad:
        tot = add(*[p[0] for p in parts]) if len(parts) > 1 else parts[0][0]
        u = [node('lamlist', *[x for x in (mk_lam(list(a.vs), list(a.shape), a.body),)]) for _, a, t in parts]
        return unka('ragged', tot, *u)
    dts = {a.dt for _, a, _ in parts}
    dt = dts.pop() if len(dts) == 1 else ('real' if 'obj' not in dts else 'obj')
    offs = []
    o = ZERO
    for n, a, t in parts:
        offs.append(o)
        o = add(o, n)

    def body(i, *ix):
        r = None
        for (n, a, t), off in reversed(list(zip(parts, offs))):
            a2 = num_body(a) if dt == 'real' else a
            e = a2.el(*ix)
            if t is not None:
                e = subst(e, {t: sub(i, off)})
            r = e if r is None else ite(lt(i, add(off, n)), e, r)
        return r
    return interp.alloc('arr', ArrCell(mkarr((o,) + tuple(es), body, dt)))


def elem_arr(interp, v):
    v = interp.res(v)
    if isinstance(v, PyIte):
        a, b = elem_arr(interp, v.a), elem_arr(interp, v.b)
        if a is None or b is None or a.ndim != b.ndim:
            return None
        return interp.merge_arr(v.c, a, b)
    if isinstance(v, str) or v is None:
        return Arr((), (), interp.enc(v), 'obj')
    if isinstance(v, Ref) and v.kind in ('obj', 'dict'):
        return Arr((), (), interp.enc(v), 'obj')
    a = toarr(interp, v)
    if a is None and isinstance(v, (Op, Fun, Cls, Method)):
        return Arr((), (), interp.enc(v), 'obj')
    return a


def arrs_list(interp, v):
    """sequence of arrays -> list of ('one', Arr) | ('many', N, t, Arr) or None"""
    v = interp.res(v)
    if is_arr(v):
        a = interp.cell(v).val
        if isnum(a.shape[0]) and val(a.shape[0]) <= 24:
            return [('one', Arr(a.shape[1:], a.vs[1:], subst(a.body, {a.vs[0]: num(k)}), a.dt)) for k in range(int(val(a.shape[0])))]
        t = fresh()
        set_range(t, a.shape[0])
        return [('many', a.shape[0], t, Arr(a.shape[1:], a.vs[1:], subst(a.body, {a.vs[0]: t}), a.dt))]
    out = []
    if not (is_list(v) or isinstance(v, (tuple, Iter))):
        return None
    for s in interp.segs_of(v):
        if s[0] == 'item':
            a = elem_arr(interp, s[1])
            if a is None:
                return None
            out.append(('one', a))
        elif s[0] == 'map':
            a = elem_arr(interp, s[3])
            if a is None:
                return None
            out.append(('many', s[1], s[2], a))
        elif s[0] == 'opq':
            t = fresh()
            set_range(t, s[2])
            a = elem_arr(interp, interp.opq_item(s, t))
            if a is None:
                return None
            out.append(('many', s[2], t, a))
        else:
            return None
    return out


def lift_segs(interp, v, f):
    """resolve 'ite' segments / PyIte items of a sequence by case split"""
    v = interp.res(v)
    if is_list(v) or isinstance(v, tuple):
        segs = interp.segs_of(v)
        for k, s in enumerate(segs):
            if s[0] == 'ite':
                mk_ = lambda alt: interp.alloc('list', ListCell(tuple(segs[:k]) + tuple(alt) + tuple(segs[k + 1:])))
                return interp.cond_eval(s[1], lambda: lift_segs(interp, mk_(s[2]), f), lambda: lift_segs(interp, mk_(s[3]), f))
            if s[0] == 'item':
                x = interp.res(s[1])
                if isinstance(x, PyIte):
                    mk_ = lambda alt: interp.alloc('list', ListCell(tuple(segs[:k]) + (('item', alt),) + tuple(segs[k + 1:])))
                    return interp.cond_eval(x.c, lambda: lift_segs(interp, mk_(x.a), f), lambda: lift_segs(interp, mk_(x.b), f))
    return f(v)


def concat(interp, parts, axis):
    """parts from arrs_list; -> Arr or None"""
    if not parts:
        return None
    nd = parts[0][-1].ndim
    if any(p[-1].ndim != nd for p in parts) or nd == 0:
        interp.note('shapeerror', 'concatenate')
        dead(interp, 'ValueError')
    if axis < 0:
        axis += nd
    dts = {p[-1].dt for p in parts}
    dt = dts.pop() if len(dts) == 1 else ('real' if 'obj' not in dts else 'obj')
    base = parts[0][-1].shape
    bad = None
    for p in parts[1:]:
        for k in range(nd):
            if k != axis:
                e = dimeq(interp, base[k], p[-1].shape[k])
                if e == 'err!':
                    interp.note('shapeerror', (base, p[-1].shape))
                    dead(interp, 'ValueError')
                if e is not True:
                    bad = bad or e
    offs, o = [], ZERO
    specs = []
    for p in parts:
        offs.append(o)
        if p[0] == 'one':
            L = p[1].shape[axis]
            specs.append(L)
        else:
            _, n, t, a = p
            for k in range(nd):
                if k != axis and t in a.shape[k].fv:
                    return None
            ln = a.shape[axis]
            if t not in ln.fv:
                L = mul(n, ln)
                specs.append(L)
            elif ln.op == 'chunklen' and ln.args[2] is t and ln.args[1] is n:
                L = ln.args[0]
                specs.append(L)
            else:
                s_ = fresh()
                set_range(s_, n)
                L = mk_sum([(s_, n)], subst(ln, {t: s_}))
                specs.append(L)
        o = add(o, L)

    def body(*ix):
        i = ix[axis]
        r = None
        for p, off, L in reversed(list(zip(parts, offs, specs))):
            loc = sub(i, off)
            if p[0] == 'one':
                a = num_body(p[1]) if dt == 'real' else p[1]
                jx = list(ix)
                jx[axis] = loc
                e = a.el(*jx)
            else:
                _, n, t, a = p
                a = num_body(a) if dt == 'real' else a
                ln = a.shape[axis]
                jx = list(ix)
                if t in ln.fv and not (ln.op == 'chunklen' and ln.args[2] is t and ln.args[1] is n):
                    # pieces of varying length: the piece holding position loc is the number of pieces that end at or before it
                    def upto(q):
                        v = fresh()
                        set_range(v, q)
                        return mk_sum([(v, q)], subst(ln, {t: v}))
                    s_ = fresh()
                    set_range(s_, n)
                    tt = T.mk_count([s_], [n], bnot(lt(loc, upto(add(s_, ONE)))))
                    jx[axis] = sub(loc, upto(tt))
                elif t in ln.fv:
                    tt = node('chunkof', ln.args[0], ln.args[1], loc)
                    jx[axis] = sub(loc, node('chunkoff', ln.args[0], ln.args[1], tt))
                elif is1(ln):
                    tt = loc
                    jx[axis] = ZERO
                else:
                    tt = fdiv(loc, ln)
                    jx[axis] = sub(loc, mul(tt, ln))
                e = subst(a.el(*jx), {t: tt})
            r = e if r is None else ite(lt(i, add(off, L)), e, r)
        if bad:
            r = node('unk' if bad == 'unk' else 'shapeerr', 'concat', r)
        return r
    sh = tuple(o if k == axis else base[k] for k in range(nd))
    return mkarr(sh, body, dt)


def atleast(a, n):
    if a.ndim >= n:
        return a
    if n == 2 and a.ndim == 1:
        return mkarr((ONE, a.shape[0]), lambda i, j: a.el(j), a.dt)
    if n == 2 and a.ndim == 0:
        return mkarr((ONE, ONE), lambda i, j: a.body, a.dt)
    if n == 1:
        return mkarr((ONE,), lambda i: a.body, a.dt)
    return None


def mp_parts(parts, f):
    return [('one', f(p[1])) if p[0] == 'one' else ('many', p[1], p[2], f(p[3])) for p in parts]


def reshape(interp, a, dims):
    """dims: list of N or -1 marker None"""
    tot = ONE
    for s in a.shape:
        tot = mul(tot, s)
    if any(d is None for d in dims):
        rest = ONE
        for d in dims:
            if d is not None:
                rest = mul(rest, d)
        q = div(tot, rest)
        dims = [q if d is None else d for d in dims]
    # drop / add unit dims
    core_in = [(s, v) for s, v in zip(a.shape, a.vs) if not is1(s)]
    core_out = [d for d in dims if not is1(d)]
    if len(core_in) == len(core_out) and all(equal(s, d) for (s, _), d in zip(core_in, core_out)):
        def g(*ix):
            ixs = iter([i for i, d in zip(ix, dims) if not is1(d)])
            return a.el(*[ZERO if is1(s) else next(ixs) for s in a.shape])
        return mkarr(dims, g, a.dt)
    # contiguous groups flatten
    if len(core_out) == 1 and equal(core_out[0], tot):
        def g(*ix):
            i = [x for x, d in zip(ix, dims) if not is1(d)][0]
            r = []
            rem = i
            for k, s in enumerate(a.shape):
                stride = ONE
                for s2 in a.shape[k + 1:]:
                    stride = mul(stride, s2)
                q = fdiv(rem, stride)
                rem = sub(rem, mul(q, stride))
                r.append(q)
            return a.el(*r)
        return mkarr(dims, g, a.dt)
    if len(core_in) == 1:
        def g(*ix):
            flat = ZERO
            for i, d in zip(ix, dims):
                flat = add(mul(flat, d), i)
            return a.el(*[ZERO if is1(s) else flat for s in a.shape])
        return mkarr(dims, g, a.dt)
    # general: via flat index, shapes must agree in size
    if equal(tot, mul(*dims) if len(dims) > 1 else dims[0]):
        def g(*ix):
            flat = ZERO
            for i, d in zip(ix, dims):
                flat = add(mul(flat, d), i)
            r = []
            rem = flat
            for k, s in enumerate(a.shape):
                stride = ONE
                for s2 in a.shape[k + 1:]:
                    stride = mul(stride, s2)
                q = fdiv(rem, stride)
                rem = sub(rem, mul(q, stride))
                r.append(q)
            return a.el(*r)
        return mkarr(dims, g, a.dt)
    if all(simple_dim(s) for s in a.shape) and all(simple_dim(d) for d in dims):
        interp.shape_issues.append(('err', [a.shape, tuple(dims)], interp.loc))
        return mkarr(dims, lambda *ix: node('shapeerr', 'reshape', *a.shape, *dims, *ix), a.dt)
    return None


def dims_of(interp, v):
    """shape argument -> list of N (None for -1) or None"""
    v = interp.res(v)
    if isinstance(v, Sc):
        v = (v,)
    if is_list(v):
        its = interp.concrete_items(v)
        if its is None:
            return None
        v = tuple(its)
    if is_arr(v):
        its = interp.concrete_items(v)
        if its is None:
            return None
        v = tuple(its)
    if not isinstance(v, tuple):
        return None
    out = []
    for x in v:
        x = interp.res(x)
        if isinstance(x, Op):
            out.append(x.n)
            continue
        s = tosc(interp, x) if is_num(x) else None
        if s is None:
            return None
        if isnum(s.n) and val(s.n) == -1:
            out.append(None)
        else:
            out.append(simp(s.n, interp.pc))
    return out


def axis_of(interp, v, nd):
    """None | list of axes"""
    v = interp.res(v)
    if v is None:
        return None
    if isinstance(v, tuple):
        return [(interp.cint(x) + nd) % nd for x in v]
    k = interp.cint(v)
    if k is None:
        return 'bad'
    if not (-nd <= k < nd):
        interp.note('shapeerror', 'axis')
        dead(interp, 'ValueError')
    return [k % nd]


def reduce_(interp, a, axis, keep, red, dt=None):
    """red(vs, ranges, body)"""
    nd = a.ndim
    if axis is None:
        axs = list(range(nd))
    else:
        axs = axis
    oshape = [s for k, s in enumerate(a.shape) if k not in axs]
    kshape = [ONE if k in axs else s for k, s in enumerate(a.shape)]

    def g(*ix):
        it = iter(ix)
        if keep:
            full = list(ix)
        else:
            full = [None if k in axs else next(it) for k in range(nd)]
        vs, rs = [], []
        for k in axs:
            v = fresh()
            set_range(v, a.shape[k])
            vs.append(v)
            rs.append(a.shape[k])
            full[k] = v
        return red(vs, rs, a.el(*full))
    return mkarr(kshape if keep else oshape, g, dt or a.dt)


def red_sum(vs, rs, b):
    return mk_sum(list(zip(vs, rs)), b)


def total(rs):
    r = ONE
    for x in rs:
        r = mul(r, x)
    return r


def red_mean(vs, rs, b):
    return div(mk_sum(list(zip(vs, rs)), b), total(rs))


def red_var(ddof):
    def f(vs, rs, b):
        m = red_mean(vs, rs, b)
        n = total(rs)
        return div(mk_sum(list(zip(vs, rs)), power(sub(b, m), num(2))), sub(n, num(ddof)))
    return f


def red_prod(vs, rs, b):
    if not vs:
        return b
    if all(isnum(r) and val(r) <= 8 for r in rs) and len(vs) == 1:
        out = ONE
        for k in range(int(val(rs[0]))):
            out = mul(out, subst(b, {vs[0]: num(k)}))
        return out
    return node('unk', 'prod', mk_lam(vs, rs, b))


def g_arg(args, kw, i, name, dflt=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, dflt)


def kwbool(interp, v):
    v = interp.res(v)
    return v is True


def do_reduce(interp, name, args, kw):
    v = args[0]
    a = toarr(interp, v)
    if a is None:
        v2 = interp.res(v)
        return unka(name, interp.enc(v2))
    axis = axis_of(interp, g_arg(args, kw, 1, 'axis'), max(a.ndim, 1)) if a.ndim else None
    if axis == 'bad':
        return unka(name, 'axis')
    keep = kwbool(interp, kw.get('keepdims', False))
    if name in ('sum', 'nansum'):
        return wrap(interp, reduce_(interp, num_body(a), axis, keep, red_sum))
    if name in ('mean', 'average'):
        if 'weights' in kw and kw['weights'] is not None:
            w = toarr(interp, kw['weights'])
            if w is None or w.ndim != a.ndim:
                return unka('average')
            nsum = toarr(interp, wrap(interp, reduce_(interp, ew(interp, mul, [num_body(a), w]), axis, keep, red_sum)))
            dsum = toarr(interp, wrap(interp, reduce_(interp, w, axis, keep, red_sum)))
            return wrap(interp, ew(interp, div, [nsum, dsum]))
        return wrap(interp, reduce_(interp, num_body(a), axis, keep, red_mean, 'real'))
    if name in ('std', 'var'):
        ddof = interp.cint(kw.get('ddof', i_(0)))
        r = reduce_(interp, num_body(a), axis, keep, red_var(ddof if ddof is not None else 0), 'real')
        if name == 'std':
            r = Arr(r.shape, r.vs, sqrt(r.body), 'real')
        return wrap(interp, r)
    if name in ('min', 'amin', 'nanmin', 'max', 'amax', 'nanmax', 'ptp'):
        b = num_body(a)
        # comparisons of mixed case splits are resolved by the engine's reduction normal form
        if 'initial' in kw:
            return unka(name, 'initial')
        if name == 'ptp':
            return wrap(interp, reduce_(interp, b, axis, keep, lambda vs, rs, x: sub(mk_maxred(vs, rs, x), mk_minred(vs, rs, x))))
        red = mk_minred if 'min' in name else mk_maxred
        return wrap(interp, reduce_(interp, b, axis, keep, red))
    if name in ('argmin', 'argmax', 'nanargmin', 'nanargmax'):
        b = num_body(a)
        sg = (lambda x: x) if 'min' in name else neg
        if axis is None and a.ndim != 1:
            if a.ndim == 0:
                return i_(0)
            tot = total(a.shape)
            fl = reshape(interp, b, [tot])
            if fl is None:
                return unka(name)
            b, axis = fl, [0]
        return wrap(interp, reduce_(interp, b, axis if axis is not None else None, keep, lambda vs, rs, x: mk_argmin(vs, rs, sg(x)), 'int'))
    if name in ('all', 'any', 'alltrue', 'sometrue'):
        b = a if a.dt == 'bool' else Arr(a.shape, a.vs, bnot(eq0(a.body)), 'bool')
        red = mk_forall if name in ('all', 'alltrue') else mk_exists
        return wrap(interp, reduce_(interp, b, axis, keep, red, 'bool'))
    if name == 'count_nonzero':
        b = a if a.dt == 'bool' else Arr(a.shape, a.vs, bnot(eq0(a.body)), 'bool')
        return wrap(interp, reduce_(interp, b, axis, keep, mk_count, 'int'))
    if name == 'prod':
        return wrap(interp, reduce_(interp, num_body(a), axis, keep, red_prod))
    if name in ('median',):
        return wrap(interp, reduce_(interp, num_body(a), axis, keep, lambda vs, rs, x: node('median', mk_lam(vs, rs, x)), 'real'))
    return unka(name)


# ---------------------------------------------------------------- linear algebra

def lam_of(a):
    return mk_lam(list(a.vs), list(a.shape), a.body)


def is_sym(a):
    if a.ndim != 2:
        return False
    i, j = fresh(), fresh()
    set_range(i, a.shape[0])
    set_range(j, a.shape[0])
    return equal(a.el(i, j), a.el(j, i))


def inv_arr(interp, a):
    flag = 'sym' if is_sym(a) else ''
    # inv(c * M)?  keep as is
    base = node('inv', lam_of(a), flag)
    return mkarr(a.shape, lambda i, j: mk_el(base, (i, j)))


def chol_arr(interp, a, lower):
    base = node('chol', lam_of(a))
    if lower:
        return mkarr(a.shape, lambda i, j: mk_el(base, (i, j)))
    return mkarr(a.shape, lambda i, j: mk_el(base, (j, i)))


def chol_of(a):
    """if Arr is chol(M)[i,j] return lam of M, orientation"""
    b = a.body
    if b.op == 'el' and b.args[0].op == 'chol' and len(b.args) == 3:
        if b.args[1] is a.vs[0] and b.args[2] is a.vs[1]:
            return b.args[0].args[0], 'L'
        if b.args[1] is a.vs[1] and b.args[2] is a.vs[0]:
            return b.args[0].args[0], 'U'
    return None


def lam_arr(l):
    vs, body = open_binder(l)
    return Arr(tuple(l.args[1]), tuple(vs), body)


def solve_with(interp, invm, b):
    return dot(interp, wrap(interp, invm), wrap(interp, b) if b.ndim else Sc(b.body, 'float'))


# ---------------------------------------------------------------- random numbers

def next_label(interp, rng, kind):
    k = interp.rngkeys.get(rng, 0)
    interp.rngkeys[rng] = k + 1
    return k


def rng_node(interp, v, algo='mt'):
    """seed value -> rng Op"""
    v = interp.res(v)
    if isinstance(v, Op) and v.ty == 'rng':
        return v
    if v is None:
        interp.note('entropy', ())
        k = interp.rngkeys.get('entropy', 0)
        interp.rngkeys['entropy'] = k + 1
        return Op(born(interp, node('rng', 'entropy', num(k), *interp.loopvars)), 'rng')
    e = interp.enc(v)
    return Op(born(interp, node('rng', algo, e)), 'rng')


def born(interp, rng):
    """a new generator starts at its first number, whatever an equally seeded one has produced before"""
    interp.rngkeys[rng] = 0
    interp.rngkeys[('depth', rng)] = len(interp.loopvars)
    return rng


GLOBAL_RNG = node('rng', 'global')
_SIZED = {'uniform': 2, 'normal': 2, 'randn': None, 'rand': None, 'standard_normal': 0, 'random': 0, 'random_sample': 0, 'chisquare': 1,
          'randint': 2, 'integers': 2, 'exponential': 1, 'gamma': 2, 'beta': 2, 'standard_gamma': 1}


def rng_stream(interp, rng, label):
    return (rng, num(label)) + tuple(interp.loopvars[interp.rngkeys.get(('depth', rng), 0):])


def draw(interp, rng, meth, args, kw):
    """method of a random generator described by node rng"""
    args = [interp.res(a) for a in args]
    kw = {k: interp.res(v) for k, v in kw.items()}
    for i, a in enumerate(args):
        if isinstance(a, PyIte):
            return lift_ite(interp, a, lambda x: draw(interp, rng, meth, args[:i] + [x] + args[i + 1:], kw))
    for k, a in kw.items():
        if isinstance(a, PyIte):
            return lift_ite(interp, a, lambda x: draw(interp, rng, meth, args, {**kw, k: x}))
    if meth == 'seed':
        interp.note('reseed', (rng, tuple(interp.enc(a) for a in args)))
        return None
    if meth in ('get_state', 'set_state'):
        interp.note('rngstate', (rng, meth))
        return unka('rngstate')
    lab = next_label(interp, rng, meth)
    st = rng_stream(interp, rng, lab)
    interp.note('draw', (meth, rng))

    def sized(shape, f, dt='real'):
        if shape is None:
            return interp.scalar(Arr((), (), f(), dt))
        return wrap(interp, mkarr(shape, f, dt))

    def size_arg(i):
        s = g_arg(args, kw, i, 'size')
        if s is None:
            return None
        return dims_of(interp, s)
    if meth in ('uniform',):
        lo = g_arg(args, kw, 0, 'low', f_(0))
        hi = g_arg(args, kw, 1, 'high', f_(1))
        l, h = toarr(interp, lo), toarr(interp, hi)
        if l is None or h is None:
            return unka('uniform')
        sz = size_arg(2)
        sh, ok = bshape(interp, l.shape, h.shape)
        if g_arg(args, kw, 2, 'size') is None:
            sz = list(sh) if sh else None
        elif sz is None:
            return unka('uniform-size')
        if sz is not None:
            _, ok2 = bshape(interp, sz, sh)
            if ok is not True or ok2 is not True:
                return unka('uniform-shape')
        return sized(sz, lambda *ix: add(l.el(*bidx(l.shape, ix)), mul(sub(h.el(*bidx(h.shape, ix)), l.el(*bidx(l.shape, ix))), node('draw', 'unit', *st, *ix))))
    if meth in ('rand', 'random', 'random_sample', 'ranf', 'sample'):
        if meth == 'rand':
            sz = [tosc(interp, a).n for a in args] if args else None
        else:
            s = g_arg(args, kw, 0, 'size')
            sz = None if s is None else dims_of(interp, s)
        return sized(sz, lambda *ix: node('draw', 'unit', *st, *ix))
    if meth in ('randn', 'standard_normal', 'normal'):
        if meth == 'randn':
            sz = [tosc(interp, a).n for a in args] if args else None
            loc, sc = f_(0), f_(1)
        elif meth == 'standard_normal':
            s = g_arg(args, kw, 0, 'size')
            sz = None if s is None else dims_of(interp, s)
            loc, sc = f_(0), f_(1)
        else:
            loc, sc = g_arg(args, kw, 0, 'loc', f_(0)), g_arg(args, kw, 1, 'scale', f_(1))
            s = g_arg(args, kw, 2, 'size')
            sz = None if s is None else dims_of(interp, s)
        l, h = toarr(interp, loc), toarr(interp, sc)
        if l is None or h is None:
            return unka('normal')
        sh, ok = bshape(interp, l.shape, h.shape)
        if sz is None and sh:
            sz = list(sh)
        return sized(sz, lambda *ix: add(l.el(*bidx(l.shape, ix)), mul(h.el(*bidx(h.shape, ix)), node('draw', 'gauss', *st, *ix))))
    if meth == 'chisquare':
        df = interp.enc(g_arg(args, kw, 0, 'df'))
        sz = size_arg(1)
        return sized(sz, lambda *ix: node('drawpos', 'chisq', df, *st, *ix))
    if meth in ('randint', 'integers', 'random_integers'):
        lo = g_arg(args, kw, 0, 'low')
        hi = g_arg(args, kw, 1, 'high')
        if hi is None:
            lo, hi = i_(0), lo
        l, h = tosc(interp, lo), tosc(interp, hi)
        sz = size_arg(2)
        if l is None or h is None:
            return unka('randint')
        return sized(sz, lambda *ix: node('drawint', 'randint', l.n, h.n, *st, *ix), 'int')
    if meth == 'choice':
        a = g_arg(args, kw, 0, 'a')
        sz = size_arg(1)
        if g_arg(args, kw, 1, 'size') is None:
            sz = None
        rep = g_arg(args, kw, 2, 'replace', True)
        pw = g_arg(args, kw, 3, 'p')
        rp = interp.enc(rep)
        pn = interp.enc(pw) if pw is not None else node('none')
        if isinstance(a, Sc):
            n = a.n
            return sized(sz, lambda *ix: node('drawint', 'choice', ZERO, n, rp, pn, *((mul(*sz) if len(sz) > 1 else sz[0]) if sz else ONE,), *st, *ix), 'int')
        aa = toarr(interp, a)
        if aa is None or aa.ndim < 1:
            return unka('choice')
        n = aa.shape[0]
        if aa.ndim == 1:
            return sized(sz, lambda *ix: aa.el(node('drawint', 'choice', ZERO, n, rp, pn, *((mul(*sz) if len(sz) > 1 else sz[0]) if sz else ONE,), *st, *ix)), aa.dt)
        return unka('choice')
    if meth in ('permutation',):
        a = args[0]
        if isinstance(a, Sc):
            return wrap(interp, mkarr((a.n,), lambda i: node('drawint', 'perm', ZERO, a.n, *st, i), 'int'))
        aa = toarr(interp, a)
        if aa is None:
            return unka('permutation')
        n = aa.shape[0]
        return wrap(interp, mkarr(aa.shape, lambda i, *r: aa.el(node('drawint', 'perm', ZERO, n, *st, i), *r), aa.dt))
    if meth == 'shuffle':
        r = args[0]
        if is_arr(r):
            aa = interp.cell(r).val
            n = aa.shape[0]
            interp.write_arr(r, mkarr(aa.shape, lambda i, *x: aa.el(node('drawint', 'perm', ZERO, n, *st, i), *x), aa.dt), 'shuffle')
        elif is_list(r):
            interp.mutate(r, 'shuffle')
            interp.havoc(r)
        return None
    if meth == 'multivariate_normal':
        m, c = interp.enc(args[0]), interp.enc(args[1])
        ma = toarr(interp, args[0])
        sz = size_arg(2)
        if ma is None or ma.ndim != 1:
            return unka('mvn')
        base = node('mvn', m, c, *st)
        return wrap(interp, mkarr((list(sz) if sz else []) + [ma.shape[0]], lambda *ix: mk_el(base, ix)))
    base = node('draw2', meth, *st, *[interp.enc(a) for a in args], *[node('kv', k, interp.enc(v)) for k, v in sorted(kw.items())])
    return unka('rngmethod', meth, base)


# ---------------------------------------------------------------- closures handed to optimisers

def closure_node(interp, f, x_arr, extra_args=(), jac=False):
    """encode callable f by applying it to a canonical symbolic array in a sandboxed state"""
    saved = (dict(interp.heap), interp.pc, interp.alive, list(interp.events), interp.tries, list(interp.muts), dict(interp.rngkeys), interp.loc)
    ne, nm = len(interp.events), len(interp.muts)
    interp.tries = []
    from .interp import DeadPath
    try:
        r = interp.call(f, [interp.alloc('arr', ArrCell(x_arr))] + list(extra_args), {})
        e = interp.enc(r)
        raised = [(ev.kind, ev.data, ev.pc) for ev in interp.events[ne:] if ev.kind in ('raise', 'assert')]
        sub = interp.events[ne:]
    except DeadPath:
        e = node('bottom')
        sub = interp.events[ne:]
    newmuts = interp.muts[nm:]
    interp.heap, interp.pc, interp.alive, interp.events, interp.tries, _m, interp.rngkeys, interp.loc = saved
    interp.muts = _m + newmuts
    T._loc[0] = interp.loc
    return e, sub


_xdepth = [0]


def canon_x(interp, shape):
    d = getattr(interp, '_xdepth', 0)
    base = node('arr', f'$x{d}', '')
    return base, mkarr(shape, lambda *ix: mk_el(base, ix))


def with_x(interp, shape, f):
    interp._xdepth = getattr(interp, '_xdepth', 0) + 1
    try:
        base, x = canon_x(interp, shape)
        return f(base, x)
    finally:
        interp._xdepth -= 1


def opt_result(interp, kind, shape, parts):
    base = node('opt', kind, *parts)
    xb = node('optx', base)
    x = lambda: wrap(interp, mkarr(shape, lambda *ix: mk_el(xb, ix)))
    attrs = {'fun': Sc(node('optfun', base), 'float'), 'message': Op(node('optmsg', base)), 'success': Bl(cond_atom('optok', base)),
             'nit': Sc(node('optnit', base), 'int')}

    def at(it, name):
        if name == 'x':
            return x()
        return attrs.get(name)

    def gi(it, k):
        if isinstance(k, str):
            return at(it, k)
        return None
    return Op(base, 'optres', {'attrs': at, 'getitem': gi})


def bounds_node(interp, b):
    """canonical (lo, hi) lam from a bounds argument"""
    b = interp.res(b)
    if b is None:
        return node('none'), None
    a = toarr(interp, b)
    if a is not None and a.ndim == 2:
        return lam_of(a), a
    return interp.enc(b), None


def call_minimize(interp, args, kw):
    f = g_arg(args, kw, 0, 'fun')
    x0 = g_arg(args, kw, 1, 'x0')
    fargs = g_arg(args, kw, 2, 'args', ())
    method = interp.res(g_arg(args, kw, 3, 'method'))
    jac = interp.res(g_arg(args, kw, 4, 'jac', False))
    x0 = interp.res(x0)
    if isinstance(x0, PyIte):
        return lift_ite(interp, x0, lambda x: call_minimize(interp, [f, x], {**{k: v for k, v in kw.items() if k not in ('fun', 'x0')}, **({'args': fargs} if len(args) > 2 else {})}))
    if isinstance(jac, PyIte):
        return lift_ite(interp, jac, lambda x: call_minimize(interp, [f, x0], {**{k: v for k, v in kw.items() if k not in ('fun', 'x0')}, 'jac': x}))
    xa = toarr(interp, x0)
    if xa is None:
        return unka('minimize', interp.enc(x0))
    if not isinstance(fargs, tuple):
        fargs = (fargs,)
    bn, ba = bounds_node(interp, kw.get('bounds'))

    def go(base, x):
        e, sub = closure_node(interp, f, x, fargs)
        extra = [node('kv', k, interp.enc(v)) for k, v in sorted(kw.items()) if k not in ('fun', 'x0', 'method', 'jac', 'bounds', 'args', 'options')]
        op = interp.res(kw.get('options'))
        if isinstance(op, Ref) and op.kind == 'dict':
            c = interp.cell(op)
            extra += [node('kv', 'option:' + str(q), interp.enc(v)) for q, v in sorted(c.d.items(), key=lambda t: str(t[0])) if q != 'disp' and v is not None]
        elif op is not None:
            extra.append(node('kv', 'options', interp.enc(op)))
        if isinstance(jac, (Fun, Method, Partial)):
            je, _ = closure_node(interp, jac, x, fargs)
        else:
            je = interp.enc(jac)
        return e, je, extra, sub
    shape = xa.shape if xa.ndim else (ONE,)
    e, je, extra, sub = with_x(interp, shape, go)
    parts = [interp.enc(method), node('kv', 'f', e), node('kv', 'x0', lam_of(xa) if xa.ndim else xa.body), node('kv', 'bounds', bn), node('kv', 'jac', je)] + extra
    interp.note('minimize', dict(method=method, fun=e, jac=jac if isinstance(jac, bool) else je, x0=xa, bounds=ba, boundsn=bn, opt=node('opt', 'minimize', *parts), sub=sub))
    return opt_result(interp, 'minimize', shape, parts)


# settings of global optimisers that do not say what is optimised or where
TUNING = ('verbose', 'maxf', 'maxT', 'maxfevals', 'maxiter', 'eps', 'vol_tol', 'len_tol', 'disp', 'verb_disp', 'verb_log', 'verb_filenameprefix', 'sigma0')


def call_direct(interp, args, kw):
    f = g_arg(args, kw, 0, 'func')
    b = g_arg(args, kw, 1, 'bounds')
    bn, ba = bounds_node(interp, b)
    if ba is None:
        return unka('direct')
    shape = (ba.shape[0],)
    e, sub = with_x(interp, shape, lambda base, x: closure_node(interp, f, x, ()))
    extra = [node('kv', k, interp.enc(v)) for k, v in sorted(kw.items()) if k not in ('func', 'bounds', *TUNING)]
    parts = [node('kv', 'f', e), node('kv', 'bounds', bn)] + extra
    interp.note('minimize', dict(method='$direct', fun=e, jac=False, x0=None, bounds=ba, boundsn=bn, opt=node('opt', 'direct', *parts), sub=sub))
    return opt_result(interp, 'direct', shape, parts)


def call_cma(interp, args, kw):
    f = g_arg(args, kw, 0, 'objective_function')
    x0 = g_arg(args, kw, 1, 'x0')
    xa = toarr(interp, x0)
    if xa is None:
        return unka('cma', interp.enc(x0))
    shape = xa.shape if xa.ndim else (ONE,)
    opts = kw.get('options')
    bn, lo, hi = node('none'), None, None
    extra = []
    if is_dict(opts):
        d = interp.cell(opts).d
        bb = d.get('bounds')
        if bb is not None:
            its = interp.concrete_items(interp.res(bb))
            if its is not None and len(its) == 2:
                lo, hi = toarr(interp, its[0]), toarr(interp, its[1])
            bn = interp.enc(bb)
        extra = [node('kv', k, interp.enc(v)) for k, v in sorted(d.items(), key=str) if k not in ('bounds', *TUNING)]
    e, sub = with_x(interp, shape, lambda base, x: closure_node(interp, f, x, ()))
    parts = [node('kv', 'f', e), node('kv', 'x0', lam_of(xa) if xa.ndim else xa.body), node('kv', 'bounds', bn)] + extra
    interp.note('minimize', dict(method='$cma', fun=e, jac=False, x0=xa, bounds=(lo, hi), boundsn=bn, opt=node('opt', 'cma', *parts), sub=sub))
    base = node('opt', 'cma', *parts)
    xb = node('optx', base)
    rest = [Op(node('optitem', base, num(k))) for k in range(1, 8)]
    return (wrap(interp, mkarr(shape, lambda *ix: mk_el(xb, ix))),) + tuple(rest)


# ---------------------------------------------------------------- array methods

METH_AS_FUNC = {'sum', 'mean', 'std', 'var', 'min', 'max', 'argmin', 'argmax', 'all', 'any', 'prod', 'cumsum', 'squeeze', 'dot', 'clip',
                'argsort', 'trace', 'repeat', 'round', 'diagonal', 'nonzero', 'ptp', 'swapaxes', 'take', 'conj'}


def arr_method(interp, o, name, args, kw):
    if isinstance(o, Sc):
        if name in ('item', 'copy', 'squeeze', 'conj', 'astype', '__float__', 'sum', 'mean', 'min', 'max', 'conjugate'):
            if name == 'astype':
                return ewise_cast(interp, o, args[0])
            return o
        if name in ('all', 'any'):
            return interp.mkbool(interp.truth(o))
        if name in ('reshape', 'flatten', 'ravel'):
            a = toarr(interp, o)
            if name == 'reshape':
                ds = dims_of(interp, args[0] if len(args) == 1 else tuple(args))
                if ds is None:
                    return unka('reshape')
                ds = [ONE if d is None else d for d in ds]
                return wrap(interp, mkarr(ds, lambda *ix: a.body, a.dt))
            return wrap(interp, mkarr((ONE,), lambda i: a.body, a.dt))
        if name == 'tolist':
            return o
        if name == 'is_integer':
            return interp.mkbool(TRUE if isint(o.n) else cond_atom('isinteger', o.n))
        return unka('scmethod', name)
    a = interp.cell(o).val
    if name in METH_AS_FUNC:
        return call(interp, 'numpy.' + name, [o] + list(args), kw)
    if name in ('copy', '__copy__', '__deepcopy__'):
        return interp.alloc('arr', ArrCell(a))
    if name == 'astype':
        return ewise_cast(interp, o, args[0] if args else kw.get('dtype'))
    if name == 'reshape':
        return call(interp, 'numpy.reshape', [o, args[0] if len(args) == 1 else tuple(args)], {k: v for k, v in kw.items() if k != 'order'})
    if name in ('flatten', 'ravel'):
        r = reshape(interp, a, [total(a.shape)])
        return wrap(interp, r, None if name == 'flatten' else ((o, None),)) if r is not None else unka(name)
    if name == 'transpose':
        if not args:
            return arr_attr(interp, o, 'T')
        return call(interp, 'numpy.transpose', [o, args[0] if len(args) == 1 else tuple(args)], {})
    if name == 'tolist':
        if a.ndim == 1:
            t = fresh()
            set_range(t, a.shape[0])
            if isnum(a.shape[0]) and val(a.shape[0]) <= 24:
                return interp.newlist([interp.scalar(Arr((), (), a.el(num(k)), a.dt)) for k in range(int(val(a.shape[0])))])
            return interp.alloc('list', ListCell((('map', a.shape[0], t, interp.scalar(Arr((), (), a.el(t), a.dt))),)))
        return unka('tolist')
    if name == 'item':
        s = tosc(interp, o)
        if not args:
            return s if s is not None else unka('item')
        return interp.getitem(o, args[0])
    if name == 'fill':
        v = tosc(interp, args[0])
        interp.write_arr(o, mkarr(a.shape, lambda *ix: v.n if v is not None else node('unk', 'fill'), a.dt), '.fill')
        return None
    if name == 'sort':
        r = call(interp, 'numpy.sort', [o] + args, kw)
        if is_arr(r):
            interp.write_arr(o, interp.cell(r).val, '.sort')
        else:
            interp.mutate(o, '.sort')
            interp.havoc(o)
        return None
    if name in ('resize', 'itemset', 'put', 'partition', 'setflags', 'byteswap', 'setfield'):
        interp.mutate(o, '.' + name)
        if name != 'setflags':
            interp.havoc(o)
        return None
    if name == '__len__':
        return Sc(a.shape[0], 'int')
    if name == '__getitem__':
        return interp.getitem(o, args[0])
    if name == '__setitem__':
        interp.setitem(o, args[0], args[1])
        return None
    return unka('arrmethod', name)


def ewise_cast(interp, v, ty):
    a = toarr(interp, v)
    if a is None:
        return unka('cast')
    t = cast_name(interp, ty)
    if t == 'int':
        return wrap(interp, Arr(a.shape, a.vs, trunc_(num_body(a).body), 'int')) if a.ndim else Sc(trunc_(num_body(a).body), 'int')
    if t == 'real':
        b = num_body(a)
        return interp.alloc('arr', ArrCell(Arr(b.shape, b.vs, b.body, 'real'))) if b.ndim else Sc(b.body, 'float')
    if t == 'bool':
        b = a if a.dt == 'bool' else Arr(a.shape, a.vs, bnot(eq0(a.body)), 'bool')
        return wrap(interp, b)
    if t == 'obj':
        return wrap(interp, a)
    if t == 'f32':
        b = num_body(a)
        return wrap(interp, Arr(b.shape, b.vs, fn('f32', b.body), 'real')) if b.ndim else Sc(fn('f32', b.body), 'float')
    return unka('cast', str(t))


def cast_name(interp, ty):
    ty = interp.res(ty)
    if ty is None:
        return 'real'
    p = ty.path if isinstance(ty, Ext) else ty if isinstance(ty, str) else ''
    p = p.split('.')[-1]
    if p.startswith('float32') or p.startswith('float16') or p in ('single', 'half'):
        return 'f32'
    if p.startswith('float') or p in ('double',):
        return 'real'
    if p.startswith('int') or p.startswith('uint'):
        return 'int'
    if p.startswith('bool'):
        return 'bool'
    if p.startswith('object') or p == 'O':
        return 'obj'
    return None


# ---------------------------------------------------------------- opaque objects

LOGM = {'debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'warn'}


def op_method(interp, o, name, args, kw):
    ex = o.extra
    if isinstance(ex, dict) and 'methods' in ex:
        r = ex['methods'](interp, name, args, kw)
        if r is not NOTIMPL:
            return r
    if o.ty == 'rng':
        return draw(interp, o.n, name, args, kw)
    if o.ty == 'logger':
        if name in LOGM:
            interp.note('log', (name, o.n, tuple(interp.enc(a) for a in args)))
            return None
        interp.note('logcfg', (name, o.n, tuple(interp.enc(a) for a in args)))
        l = interp.handlers.get(o.n.args[0])
        if name == 'addHandler' and l is not None and len(args) == 1:
            from .models import list_method
            return list_method(interp, l, 'append', args, {})
        if name == 'hasHandlers' and l is not None:
            return interp.mkbool(bor(interp.truth(l), cond_atom('flag', 'ancestor_handlers')))
        if name in ('removeHandler',) and l is not None:
            interp.havoc(l)
            return None
        if name in ('hasHandlers',):
            return Bl(cond_atom('hashandlers', o.n))
        return None
    if o.ty == 'sampler':
        if name in ('random', 'random_base2'):
            k = next_label(interp, o.n, name)
            n = args[0] if args else kw.get('n', i_(1))
            m = kw.get('m', n)
            d = ex['d']
            s = tosc(interp, n if name == 'random' else m)
            if s is None:
                return unka('sampler')
            cnt = s.n if name == 'random' else power(num(2), s.n)
            interp.note('draw', (name, o.n))
            st = rng_stream(interp, o.n, k)
            return wrap(interp, mkarr((cnt, d), lambda i, j: node('draw', 'unit', *st, i, j)))
        if name in ('fast_forward', 'reset'):
            interp.note('draw', (name, o.n))
            next_label(interp, o.n, name)
            return o
        return unka('sampler', name)
    if o.ty == 'dist':
        if name == 'rvs':
            return dist_rvs(interp, o, args, kw)
        e = [interp.enc(a) for a in args]
        return unka('dist', name, o.n, *e)
    if o.ty == 'pool':
        if name in ('map', 'starmap'):
            return interp_map(interp, args[0], args[1], star=name == 'starmap')
        if name in ('imap',):
            return interp_map(interp, args[0], args[1])
        if name in ('imap_unordered',):
            r = interp_map(interp, args[0], args[1])
            c_ = interp.rngkeys.get('unordered', 0)
            interp.rngkeys['unordered'] = c_ + 1
            u = node('str', f'arrival order {c_}')
            n = interp.list_len(interp.cell(r)) if is_list(r) else node('unk', 'len')
            base = node('permuted', u)
            segs = interp.cell(r).segs if is_list(r) else ()
            t = fresh()
            set_range(t, n)
            from .models import segs_item
            try:
                it = segs_item(interp, segs, node('drawint', 'perm', ZERO, n, u, t))
                return interp.alloc('list', ListCell((('map', n, t, it),)))
            except Exception:
                return interp.alloc('list', ListCell((('opq', base, n),)))
        if name in ('map_async', 'starmap_async'):
            r = interp_map(interp, args[0], args[1], star=name == 'starmap_async')
            return Op(node('async'), 'async', {'methods': lambda it, nm, a, k: r if nm == 'get' else NOTIMPL})
        if name in ('close', 'join', 'terminate'):
            return None
        if name == 'apply':
            return interp.call(args[0], list(interp.concrete_items(args[1]) or []) if len(args) > 1 else [], {})
        return unka('pool', name)
    if o.ty == 'mpl':
        interp.note('mpl', (name, tuple(interp.enc(a) for a in args), tuple(sorted(kw))))
        return Op(node('mplobj', name), 'mpl', {'iter': None})
    if o.ty in ('handler', 'formatter'):
        interp.note('logcfg', (name, o.n, tuple(interp.enc(a) for a in args)))
        return None
    if o.n.unk:
        return Op(node('unk', 'mcall', name, o.n))
    ea = tuple(interp.enc(a) for a in args)
    ek = tuple(node('kv', k, interp.enc(v)) for k, v in sorted(kw.items()))
    interp.note('call', (node('attr', o.n, name), ea, ek))
    return Op(node('mcall', o.n, name, *(ea + ek)))


def dist_rvs(interp, o, args, kw):
    ex = o.extra
    m, c = ex['mean'], ex['cov']
    rs = kw.get('random_state')
    rng = GLOBAL_RNG if rs is None else rng_node(interp, rs).n
    size = g_arg(args, kw, 0, 'size', i_(1))
    size = interp.res(size)
    ma = toarr(interp, m)
    lab = next_label(interp, rng, 'mvn')
    st = rng_stream(interp, rng, lab)
    interp.note('draw', ('mvn', rng))
    ca = toarr(interp, c)
    if ma is None or ma.ndim != 1:
        return unka('mvn')
    base = node('mvn', lam_of(ma), lam_of(ca) if ca is not None and ca.ndim else interp.enc(c), *st)
    n = ma.shape[0]
    if isinstance(size, Sc):
        if isnum(size.n) and val(size.n) == 1:
            dims = []
        else:
            dims = [size.n]
    else:
        dims = dims_of(interp, size) if size is not None else []
    if dims is None:
        return unka('mvn-size')
    dims = list(dims) + ([] if is1(n) else [n])
    if is1(n):
        interp.note('mvn-degenerate', ())
        return wrap(interp, mkarr(dims, lambda *ix: mk_el(base, tuple(ix) + (ZERO,)))) if dims else Sc(mk_el(base, (ZERO,)), 'float')
    # scipy squeezes: unit axes vanish.  Symbolic sizes may be one at run time.
    interp.note('squeeze-amb', ('multivariate_normal.rvs', tuple(d for d in dims if not isnum(d))))
    return wrap(interp, mkarr(dims, lambda *ix: mk_el(base, ix)))


# ---------------------------------------------------------------- main dispatcher

from .npfuncs import call  # noqa: E402
