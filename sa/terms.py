"""Hash-consed value-graph terms with real-arithmetic normal forms.

Scalars are multivariate "polynomials" (rational coefficients, rational exponents)
over atoms; case distinctions are ordered decision diagrams (MTBDD) over atomic
conditions; finite sums and lambda-bound arrays use alpha-canonical binders.
Two terms that are the same object denote the same value for every input.
Nothing here executes the analysed program.
"""
from fractions import Fraction as F
import itertools

F0, F1 = F(0), F(1)
HALF = F(1, 2)


class N:
    __slots__ = ('op', 'args', 'id', 'fv', 'hgt', 'unk', 'loc', '__weakref__')

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]
_loc = [None]          # current source location, set by the interpreter


def _scan(x, fv, st):
    if isinstance(x, N):
        fv |= x.fv
        if x.hgt > st[0]:
            st[0] = x.hgt
        if x.unk:
            st[1] = True
    elif isinstance(x, tuple):
        for y in x:
            _scan(y, fv, st)


def node(op, *args):
    k = (op, args)
    n = _table.get(k)
    if n is None:
        n = N()
        n.op = op
        n.args = args
        _count[0] += 1
        n.id = _count[0]
        fv = set()
        st = [0, op == 'unk']
        _scan(args, fv, st)
        if op == 'iv':
            fv.add(n)
        n.fv = frozenset(fv)
        n.hgt = st[0]
        if op in BINDERS:
            n.hgt = args[0]
        n.unk = st[1]
        n.loc = _loc[0]
        _table[k] = n
    return n


# binders: first arg is the height (int); bound variables are ('bv', height, pos)
BINDERS = {'sum', 'lam', 'argmin', 'minred', 'maxred', 'exists', 'fold', 'prodred', 'count', 'fun'}

_ivc = [0]


def fresh(name='i', lo=0, hi=None):
    """fresh free index variable (integer, >= 0)."""
    _ivc[0] += 1
    return node('iv', _ivc[0])


def num(v):
    if isinstance(v, N):
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return node('num', F(v))
    if isinstance(v, F):
        return node('num', v)
    if isinstance(v, float):
        if v != v:
            return node('nan')
        if v in (float('inf'), float('-inf')):
            return INF if v > 0 else neg(INF)
        return node('num', F(repr(v)))
    raise TypeError(v)


def sym(name, ty='real', sign=None):
    """free scalar symbol; ty in int/real; sign in '', 'pos', 'nonneg'"""
    sign = sign or ''
    return node('sym', name, ty, sign)


def dim(name, lo=1):
    return node('sym', name, 'int', 'pos' if lo >= 1 else 'nonneg')


INF = node('inf')
PI = node('pi')
ZERO = num(0)
ONE = num(1)
TRUE = node('true')
FALSE = node('false')

# ---------------------------------------------------------------- polynomials


def poly(n):
    """node -> dict mono -> coef"""
    if n.op == 'num':
        v = n.args[0]
        return {(): v} if v else {}
    if n.op == 'poly':
        return dict(n.args[0])
    return {((n, F1),): F1}


def _monokey(m):
    return tuple((a.id, e) for a, e in m)


def mk(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return node('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op not in ('base', 'num'):
                return a
    items = tuple(sorted(d.items(), key=lambda mc: _monokey(mc[0])))
    return node('poly', items)


def isnum(n):
    return n.op == 'num'


def val(n):
    return n.args[0]


def _is_ite(n):
    return n.op == 'ite'


def lift(f, *xs):
    """apply scalar function f over MTBDD operands."""
    top = None
    for x in xs:
        if x.op == 'ite' and (top is None or x.args[0].id < top.id):
            top = x.args[0]
    if top is None:
        return f(*xs)
    t = [x.args[1] if x.op == 'ite' and x.args[0] is top else x for x in xs]
    e = [x.args[2] if x.op == 'ite' and x.args[0] is top else x for x in xs]
    return mkite(top, lift(f, *t), lift(f, *e))


def add(*xs):
    r = ZERO
    for x in xs:
        r = _add2(r, x)
    return r


def _add2(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == 'ite' or b.op == 'ite':
        return lift(_add2, a, b)
    if a.op == 'nan' or b.op == 'nan':
        return node('nan')
    d = poly(a)
    for m, c in poly(b).items():
        d[m] = d.get(m, F0) + c
    return mk(d)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return _add2(a, neg(b))


def _mulmono(m1, c1, m2, c2):
    """product of two monomials -> dict"""
    if not m1:
        return {m2: c1 * c2}
    if not m2:
        return {m1: c1 * c2}
    exps = dict(m1)
    expo = None
    for a, e in m2:
        exps[a] = exps.get(a, F0) + e
    return _normexps(exps, c1 * c2)


def _normexps(exps, coef):
    out = {}
    expsum = None
    expand = []
    for a, e in exps.items():
        if e == 0:
            continue
        if a.op == 'exp':
            t = mul(num(e), a.args[0])
            expsum = t if expsum is None else add(expsum, t)
            continue
        if a.op == 'num':           # rational prime base with fractional exponent
            ip = e.numerator // e.denominator
            if ip:
                coef *= a.args[0] ** ip
                e = e - ip
            if e:
                out[a] = e
            continue
        if a.op == 'base' and e.denominator == 1 and e > 0:
            expand.append((a, int(e)))
            continue
        if a.op == 'ivr':
            e = F1
        out[a] = e
    if expsum is not None and expsum is not ZERO:
        if expsum.op == 'ite':
            r = mk({tuple(sorted(out.items(), key=lambda t: t[0].id)): coef})
            r = mul(r, exp(expsum))
            for a, e in expand:
                r = mul(r, power(a.args[0], F(e)))
            return {'__node__': r}
        ex = node('exp', expsum)
        out[ex] = F1
    m = tuple(sorted(out.items(), key=lambda t: t[0].id))
    if not expand:
        return {m: coef}
    r = mk({m: coef})
    for a, e in expand:
        r = mul(r, power(a.args[0], F(e)))
    return {'__node__': r}


def mul(*xs):
    r = ONE
    for x in xs:
        r = _mul2(r, x)
    return r


def _mul2(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    if a.op == 'ite' or b.op == 'ite':
        return lift(_mul2, a, b)
    if a.op == 'nan' or b.op == 'nan':
        return node('nan')
    pa, pb = poly(a), poly(b)
    # cancellation of whole polynomials against reciprocal bases
    if len(pa) > 1 and b.op in ('poly',) or len(pb) > 1 and a.op == 'poly':
        r = _cancel(a, pa, b, pb)
        if r is not None:
            return r
    d = {}
    extra = ZERO
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            t = _mulmono(m1, c1, m2, c2)
            for m, c in t.items():
                if m == '__node__':
                    extra = _add2(extra, c)
                else:
                    d[m] = d.get(m, F0) + c
    return _add2(mk(d), extra)


def _cancel(a, pa, b, pb):
    for (x, px, y, py) in ((a, pa, b, pb), (b, pb, a, pa)):
        if len(px) > 1:
            c, m, p = _primitive(px, True)
            # look for base(p) with negative exponent in all monomials of y
            bn = _table.get(('base', (p,)))
            if bn is None:
                continue
            ok = all(any(at is bn and e < 0 for at, e in mm) for mm in py)
            if ok and py:
                d = {}
                ex = ZERO
                for mm, cc in py.items():
                    exps = dict(mm)
                    exps[bn] = exps[bn] + 1
                    t = _normexps(exps, cc)
                    for m_, c_ in t.items():
                        if m_ == '__node__':
                            ex = add(ex, c_)
                        else:
                            d[m_] = d.get(m_, F0) + c_
                r = _add2(mk(d), ex)
                return mul(num(c), mk({m: F1}), r)
    return None


def _factor_int(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
        if p > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _primitive(d, intexp):
    """d (>=2 terms) = c * m * P ; c>0 (or +-) rational, m common monomial."""
    monos = list(d)
    common = {}
    if True:
        first = dict(monos[0])
        for a, e in first.items():
            if not intexp and not _atomnn(a):
                continue
            es = [dict(m).get(a, F0) for m in monos]
            lo = min(es)
            hi = max(es)
            if lo > 0:
                common[a] = lo
            elif hi < 0:
                common[a] = hi
    m = tuple(sorted(common.items(), key=lambda t: t[0].id))
    if m:
        inv = {a: -e for a, e in common.items()}
        nd = {}
        for mm, c in d.items():
            exps = dict(mm)
            for a, e in inv.items():
                exps[a] = exps.get(a, F0) + e
                if exps[a] == 0:
                    del exps[a]
            k = tuple(sorted(exps.items(), key=lambda t: t[0].id))
            nd[k] = nd.get(k, F0) + c
        d = nd
    lead = max(d, key=_monokey)
    from math import gcd
    g, l = 0, 1
    for cc in d.values():
        g = gcd(g, cc.numerator)
        l = l * cc.denominator // gcd(l, cc.denominator)
    c = F(g, l)
    if intexp and d[lead] < 0:
        c = -c
    p = mk({mm: cc / c for mm, cc in d.items()})
    return c, m, p


def power(a, e):
    """a ** e, e Fraction"""
    if isinstance(e, N):
        if isnum(e):
            e = val(e)
        else:
            return lift(lambda x, y: power(x, val(y)) if isnum(y) else node('powsym', x, y), a, e)
    if e == 0:
        return ONE
    if e == 1:
        return a
    if a.op == 'ite':
        return lift(lambda x: power(x, e), a)
    if a.op == 'nan':
        return a
    if a.op == 'num':
        v = val(a)
        if e.denominator == 1:
            if v == 0 and e < 0:
                return node('divzero')
            return num(v ** int(e))
        if v == 0:
            return ZERO if e > 0 else node('divzero')
        if v < 0:
            return node('base_', a, e)
        exps = {}
        for p, k in _factor_int(v.numerator).items():
            exps[num(p)] = F(k) * e
        for p, k in _factor_int(v.denominator).items():
            exps[num(p)] = exps.get(num(p), F0) - F(k) * e
        d = _normexps(exps, F1)
        return mk(d)
    if a is INF:
        return ZERO if e < 0 else INF
    d = poly(a)
    if len(d) == 1:
        (m, c), = d.items()
        res = power(num(abs(c)), e) if (e.denominator != 1) else num(c ** int(e))
        if e.denominator == 1:
            exps = {at: x * e for at, x in m}
            t = _normexps(exps, F1)
            r = t['__node__'] if '__node__' in t else mk(t)
            return mul(res, r)
        # fractional power: split out factors known non-negative
        outer = {}
        inner = {}
        for at, x in m:
            if nonneg(at):
                outer[at] = x * e
            elif x.denominator == 1 and x % 2 == 0:
                ab = absv(atomnode(at))
                pa_ = poly(ab)
                (mm, cc), = pa_.items()
                outer_at = mm[0][0]
                outer[outer_at] = outer.get(outer_at, F0) + x * e
            else:
                inner[at] = x
        t = _normexps(outer, F1)
        r = t['__node__'] if '__node__' in t else mk(t)
        if c < 0:
            inner[None] = None
        if inner:
            sgn = -1 if c < 0 else 1
            inner.pop(None, None)
            base = mk({tuple(sorted(inner.items(), key=lambda t: t[0].id)): F(sgn)})
            b = node('base', base)
            r = mul(r, mk({((b, e),): F1}))
        return mul(res, r)
    if e.denominator == 1 and 0 < e <= 4:
        r = a
        for _ in range(int(e) - 1):
            r = mul(r, a)
        return r
    c, m, p = _primitive(d, e.denominator == 1)
    r = power(num(c), e)
    if m:
        r = mul(r, power(mk({m: F1}), e))
    b = node('base', p)
    t = mk({((b, e),): F1})
    return mul(r, t)


def atomnode(at):
    return at.args[0] if at.op == 'base' else at


def div(a, b):
    return mul(a, power(b, F(-1)))


def sqrt(a):
    return power(a, HALF)


def absv(a):
    if a.op == 'ite':
        return lift(absv, a)
    if isnum(a):
        return num(abs(val(a)))
    if nonneg(a):
        return a
    d = poly(a)
    if len(d) == 1:
        (m, c), = d.items()
        r = num(abs(c))
        for at, e in m:
            if nonneg(at):
                r = mul(r, mk({((at, e),): F1}))
            else:
                r = mul(r, mk({((node('abs', atomnode(at)), e),): F1}))
        return r
    c, m, p = _primitive(d, True)
    r = mul(num(abs(c)), mk({((node('abs', p), F1),): F1}))
    if m:
        r = mul(r, absv(mk({m: F1})))
    return r


def exp(a):
    if a.op == 'ite':
        return lift(exp, a)
    if a is ZERO:
        return ONE
    if a.op == 'log':
        return a.args[0]
    return node('exp', a)


def log(a):
    if a.op == 'ite':
        return lift(log, a)
    if a is ONE:
        return ZERO
    if isnum(a) and val(a) > 0:
        v = val(a)
        r = ZERO
        for p, k in _factor_int(v.numerator).items():
            r = add(r, mul(num(k), node('log', num(p))))
        for p, k in _factor_int(v.denominator).items():
            r = sub(r, mul(num(k), node('log', num(p))))
        return r
    d = poly(a)
    if len(d) == 1:
        (m, c), = d.items()
        if c > 0 and (len(m) > 1 or c != 1 or (m and m[0][1] != 1) or (m and m[0][0].op == 'exp')):
            if sum(1 for at, e in m if not nonneg(at)) == 0:
                r = log(num(c))
                for at, e in m:
                    if at.op == 'exp':
                        r = add(r, mul(num(e), at.args[0]))
                    elif at.op == 'num':
                        r = add(r, mul(num(e), log(at)))
                    else:
                        r = add(r, mul(num(e), node('log', atomnode(at))))
                return r
    elif len(d) > 1:
        c, m, p = _primitive(d, False)
        if c != 1:
            return add(log(num(c)), node('log', p))
    return node('log', a)


def fn(name, *args):
    """uninterpreted scalar function, lifted over case splits"""
    if any(x.op == 'ite' for x in args if isinstance(x, N)):
        return lift(lambda *z: fn(name, *z), *args)
    if name == 'gammaln':
        return log(fn('gamma', *args))
    if name == 'normcdf':
        pass
    return node('fn', name, *args)


POSFN = {'gamma', 'normcdf', 'normpdf'}


def nonneg(a):
    """a >= 0 for sure (for log: > 0 intended domain)"""
    if a.op == 'base':
        return _nonnegpoly(a.args[0])
    if a.op == 'num':
        return val(a) >= 0
    if a.op == 'poly':
        return _nonnegpoly(a)
    return _atomnn(a)


def _atomnn(a):
    o = a.op
    if o == 'sym':
        return a.args[2] in ('pos', 'nonneg')
    if o in ('exp', 'iv', 'bv', 'pi', 'inf', 'abs', 'argmin', 'ivr', 'count', 'chunklen', 'chunkoff', 'chunkof'):
        return True
    if o == 'fn':
        return a.args[0] in POSFN or a.args[0].startswith('nn_')
    if o == 'el':
        return isinstance(a.args[0], N) and a.args[0].op == 'arr' and a.args[0].args[1] in ('pos', 'nonneg')
    if o == 'sum':
        return nonneg(a.args[2])
    if o == 'draw':
        return a.args[0] == 'unit'
    if o == 'drawint':
        return nonneg(a.args[1])
    return False


def _nonnegpoly(p):
    d = poly(p)
    for m, c in d.items():
        if c < 0:
            break
        for at, e in m:
            if e.denominator == 1 and e % 2 == 0 or e.denominator % 2 == 0:
                continue
            if not nonneg(at):
                break
        else:
            continue
        break
    else:
        return True
    return _sumsquares(d)


def _sumsquares(d):
    """recognise expanded sum_k (x_k-y_k)^2 w_k : S(aa)-2S(ab)+S(bb) pattern or plain squares."""
    # plain: exactly a^2 -2ab + b^2 with common non-negative weight
    pos = [(m, c) for m, c in d.items() if c > 0]
    ngs = [(m, c) for m, c in d.items() if c < 0]
    if len(pos) != 2 or len(ngs) != 1:
        return False
    def inner(m):
        rest = {}
        for at, e in m:
            if at.op == 'sum' and e == 1 and len(at.args[1]) == 1:
                for a2, e2 in _mono_of(at.args[2]):
                    rest[a2] = rest.get(a2, F0) + e2
                rest[('S', at.args[1])] = F1
            else:
                rest[at] = rest.get(at, F0) + e
        return rest
    (m1, c1), (m2, c2) = pos
    m3, c3 = ngs[0]
    r1, r2, r3 = inner(m1), inner(m2), inner(m3)
    tot = {}
    for r in (r1, r2):
        for a, e in r.items():
            tot[a] = tot.get(a, F0) + e
    for a, e in r3.items():
        tot[a] = tot.get(a, F0) - 2 * e
    if any(tot.values()):
        return False
    if c1 * c2 * 4 != c3 * c3:
        return False
    # common weight w: min exponents; r1/w and r2/w must be even powers
    for r in (r1, r2):
        for a, e in r.items():
            if isinstance(a, tuple):
                continue
            w = min(r1.get(a, F0), r2.get(a, F0), r3.get(a, F0))
            if (e - w).denominator != 1 or (e - w) % 2:
                return False
            if w and not (w.denominator == 1 and w % 2 == 0) and not nonneg(a):
                return False
    return True


def _mono_of(n):
    d = poly(n)
    if len(d) != 1:
        return ((n, F1),)
    (m, c), = d.items()
    return m


# ---------------------------------------------------------------- integers / ranges

def isint(n):
    if n.op == 'num':
        return val(n).denominator == 1
    if n.op == 'poly':
        for m, c in poly(n).items():
            if c.denominator != 1:
                return False
            for a, e in m:
                if e.denominator != 1 or e < 0 or not isint(a):
                    return False
        return True
    if n.op == 'sym':
        return n.args[1] == 'int'
    if n.op == 'ite':
        return isint(n.args[1]) and isint(n.args[2])
    if n.op == 'base':
        return isint(n.args[0])
    return n.op in ('iv', 'bv', 'argmin', 'count', 'floor', 'ceil', 'len', 'toint', 'ivr', 'nth', 'nthm', 'drawint', 'chunklen', 'chunkoff', 'chunkof')


def _cmul(a, b):
    if a is None or b is None:
        return None
    return a * b


_ranges = {}    # iv node -> (lo node, hi node exclusive) known bounds


def set_range(iv, hi):
    _ranges[iv] = hi


def bounds(n, depth=0):
    """numeric interval (lo, hi) with None = unbounded"""
    if n.op == 'num':
        return val(n), val(n)
    if n.op == 'poly':
        lo, hi = F0, F0
        for m, c in poly(n).items():
            l, h = F1, F1
            for a, e in m:
                al, ah = bounds(a, depth + 1)
                if e.denominator != 1 or e < 0:
                    if nonneg(a) or e.denominator % 2 == 0:
                        al, ah = F0, None
                    elif e.denominator == 1 and e % 2 == 0:
                        al, ah = F0, None
                    else:
                        al, ah = None, None
                elif e != 1:
                    if al is not None and al >= 0:
                        al, ah = al ** int(e), (ah ** int(e) if ah is not None else None)
                    elif e % 2 == 0:
                        al, ah = F0, None
                    else:
                        al, ah = None, None
                l, h = _imul((l, h), (al, ah))
            l, h = _imul((l, h), (c, c))
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        return lo, hi
    if n.op == 'sym':
        s = n.args[2]
        if s == 'pos':
            return (F1 if n.args[1] == 'int' else F0), None
        if s == 'nonneg':
            return F0, None
        return None, None
    if n.op in ('iv', 'bv', 'argmin', 'count', 'len', 'chunklen', 'chunkoff', 'chunkof') or n.op == 'drawint' and nonneg(n.args[1]):
        return F0, None
    if n.op == 'pi':
        return F(3), F(4)
    if n.op == 'inf':
        return F(10) ** 30, None
    if n.op == 'draw' and n.args[0] == 'unit':
        return F0, F1
    if n.op == 'ivr':
        return F0, F1
    if n.op == 'ite':
        a, b = bounds(n.args[1], depth + 1), bounds(n.args[2], depth + 1)
        lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
        hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
        return lo, hi
    if nonneg(n):
        return F0, None
    return None, None


def _imul(a, b):
    INFN = None
    def prod(x, y):
        return x * y
    al, ah = a
    bl, bh = b
    # handle common sign cases
    if (al, ah) == (F1, F1):
        return b
    if (bl, bh) == (F1, F1):
        return a
    if bl is not None and bl == bh:
        c = bl
        if c == 0:
            return F0, F0
        l = None if al is None else al * c
        h = None if ah is None else ah * c
        return (l, h) if c > 0 else (h, l)
    if al is not None and al == ah:
        return _imul(b, a)
    if al is not None and al >= 0 and bl is not None and bl >= 0:
        return al * bl, (None if ah is None or bh is None else ah * bh)
    if None in (al, ah, bl, bh):
        return None, None
    ps = [al * bl, al * bh, ah * bl, ah * bh]
    return min(ps), max(ps)


def _lead_coef(p):
    d = poly(p)
    lead = max((m for m in d if m), key=_monokey, default=())
    return d[lead]


def _rel_ranges(p):
    """refine sign of p using known index ranges iv < hi: try p with iv -> extremes (linear)."""
    return None


def lt0(p):
    """condition p < 0 -> TRUE/FALSE/bdd"""
    if p.op == 'ite':
        return lift(lt0, p)
    if p.op == 'nan':
        return FALSE
    if p.op == 'num':
        return TRUE if val(p) < 0 else FALSE
    d = poly(p)
    # infinities
    infm = [(m, c) for m, c in d.items() if any(a is INF for a, e in m)]
    if len(infm) == 1 and infm[0][0] == ((INF, F1),):
        return TRUE if infm[0][1] < 0 else FALSE
    lo, hi = bounds(p)
    if lo is not None and lo >= 0:
        return FALSE
    if hi is not None and hi < 0:
        return TRUE
    b = _range_bounds(p)
    if b is not None:
        return b
    b = _count_cmp('lt0', p)
    if b is not None:
        return b
    if isint(p):
        # leading non-constant coefficient positive
        if _lead_coef(p) < 0:
            q = sub(neg(p), ONE)      # p<0  <=>  not(-p-1 < 0)
            q = sub(num(-1), p)
            return bnot(_mkcond('lt0', q))
        return _mkcond('lt0', p)
    # positive scaling
    lc = abs(_lead_coef(p))
    if lc != 1:
        p = mul(num(1 / lc), p)
    return _mkcond('lt0', p)


def _range_bounds(p):
    """use registered ranges of free index variables (0 <= iv < hi)."""
    ivs = [v for v in p.fv if v in _ranges]
    if not ivs or len(ivs) > 4:
        return None
    # p<0 for sure? maximise p; p>=0 for sure? minimise p. linear in each iv only.
    def extreme(q, maximise):
        for v in ivs:
            if v not in q.fv:
                continue
            d = poly(q)
            coef = F0
            lin = {}
            for m, c in d.items():
                e = dict(m).get(v, F0)
                if e == 0:
                    # v may hide inside atoms
                    if any(v in a.fv for a, _ in m):
                        return None
                    continue
                if e != 1 or any(a is not v and v in a.fv for a, _ in m):
                    return None
                rest = tuple(t for t in m if t[0] is not v)
                lin[rest] = lin.get(rest, F0) + c
            cf = mk(lin)
            l, h = bounds(cf)
            if l is not None and l >= 0:
                up = maximise
            elif h is not None and h <= 0:
                up = not maximise
            else:
                return None
            q = subst(q, {v: sub(_ranges[v], ONE) if up else ZERO})
        return q
    q = extreme(p, True)
    if q is not None:
        lo, hi = bounds(q)
        if hi is not None and hi < 0:
            return TRUE
    q = extreme(p, False)
    if q is not None:
        lo, hi = bounds(q)
        if lo is not None and lo >= 0:
            return FALSE
    return None


def _univr(b):
    """polynomial in Iverson brackets -> ite tree over their conditions with numeric leaves | None"""
    if b.op == 'ite':
        return None
    at = None
    for m, c in poly(b).items():
        for a, e in m:
            if a.op != 'ivr' or e != 1:
                return None
            if at is None or a.args[0].id < at.args[0].id:
                at = a
    if at is None:
        return b
    out = []
    for v in (ONE, ZERO):
        t = ZERO
        for m, c in poly(b).items():
            r = mk({tuple(x for x in m if x[0] is not at): c})
            t = add(t, mul(r, v) if len(dict(m)) and at in dict(m) else r)
        t = _univr(t)
        if t is None:
            return None
        out.append(t)
    return mkite(at.args[0], out[0], out[1])


def _count_form(p):
    """p = c + g*#{v in ranges: cond}, g > 0 or g < 0 numeric -> (c, g, vs, ranges, cond) | None"""
    d = poly(p)
    if len(d) > 12:
        return None
    s0 = None
    for m, c in d.items():
        if len(m) == 1 and m[0][0].op == 'sum' and m[0][1] == 1:
            s0 = m[0][0]
            break
    if s0 is None:
        return None
    rs = s0.args[1]
    tot = ONE
    for r in rs:
        tot = mul(tot, r)
    if tot.op == 'ite':
        return None
    vs = [fresh() for _ in rs]
    for v, r in zip(vs, rs):
        set_range(v, r)
    body = ZERO
    c0 = F0
    left = {}
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum' and m[0][0].args[1] == rs:
            a = m[0][0]
            body = add(body, mul(num(c), subst_bv(a.args[2], {node('bv', a.args[0], q): v for q, v in enumerate(vs)})))
        else:
            left[m] = c
    c0 = left.get((), F0)
    lm = {m: c for m, c in left.items() if m}
    if lm:
        dt = poly(tot)
        tm = {m: c for m, c in dt.items() if m}
        if set(tm) != set(lm):
            return None
        rat = {lm[m] / tm[m] for m in tm}
        if len(rat) != 1:
            return None
        rat = rat.pop()
        c0 = c0 - rat * dt.get((), F0)
        body = add(body, num(rat))
    if any(any(x in r.fv for x in vs) for r in rs):
        return None
    t = _univr(body)
    if t is None or t.op != 'ite':
        return None
    leaves = set()
    st = [t]
    while st:
        x = st.pop()
        if x.op == 'ite':
            st += [x.args[1], x.args[2]]
        elif x.op == 'num':
            leaves.add(val(x))
        else:
            return None
    g = [x for x in leaves if x != 0]
    if len(g) != 1:
        return None
    g = g[0]

    def tocond(x):
        if x.op == 'ite':
            return ite(mkite(x.args[0], TRUE, FALSE), tocond(x.args[1]), tocond(x.args[2]))
        return TRUE if val(x) != 0 else FALSE
    return c0, g, vs, rs, tocond(t)


def _count_cmp(op, p):
    """comparison of a number of hits with 0 or 1 as an existence statement | None"""
    if not any(a.op == 'sum' for m in poly(p) for a, e in m):
        return None
    q = _count_form(p)
    if q is None:
        return None
    c0, g, vs, rs, cond = q
    t = -c0 / g            # cnt < t (g > 0), cnt > t (g < 0), cnt == t
    ex = lambda: mk_exists(vs, rs, cond)
    if op == 'eq0':
        if t < 0 or t.denominator != 1:
            return FALSE
        return bnot(ex()) if t == 0 else None
    if g > 0:
        if t <= 0:
            return FALSE
        return bnot(ex()) if t <= 1 else None
    if t < 0:
        return TRUE
    return ex() if t < 1 else None


def le0(p):
    return bnot(lt0(neg(p)))


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return bnot(lt(b, a))


def eq0(p):
    if p.op == 'ite':
        return lift(eq0, p)
    if p.op == 'num':
        return TRUE if val(p) == 0 else FALSE
    d = poly(p)
    infm = [(m, c) for m, c in d.items() if any(a is INF for a, e in m)]
    if infm:
        return FALSE
    lo, hi = bounds(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    if p.fv:
        if _range_bounds(p) is TRUE or _range_bounds(neg(p)) is TRUE:
            return FALSE
    b = _count_cmp('eq0', p)
    if b is not None:
        return b
    lc = _lead_coef(p)
    if lc != 1:
        p = mul(num(1 / lc), p)
    return _mkcond('eq0', p)


def eq(a, b):
    return eq0(sub(a, b))


def _mkcond(op, *args):
    return mkite(node(op, *args), TRUE, FALSE)


def cond_atom(name, *args):
    return mkite(node('pred', name, *args), TRUE, FALSE)


# ---------------------------------------------------------------- MTBDD

def mkite(atom, a, b):
    """atom: atomic condition; a,b: terminals or ites over later atoms (order by id)."""
    if a is b:
        return a
    # orientation normalisation for reals: values equal at tie
    if atom.op == 'lt0' and a.op not in ('true', 'false', 'ite') and b.op not in ('true', 'false', 'ite'):
        p = atom.args[0]
        if not isint(p) and _lead_coef(p) < 0:
            diff = sub(a, b)
            if diff.op != 'ite':
                c = _ratio(diff, p)
                if c is not None:
                    q = neg(p)
                    at2 = node('lt0', q)
                    return ite(node('ite', at2, TRUE, FALSE), b, a)
    # ordering
    ta = a.args[0].id if a.op == 'ite' else None
    tb = b.args[0].id if b.op == 'ite' else None
    if (ta is None or ta > atom.id) and (tb is None or tb > atom.id):
        return node('ite', atom, a, b)
    top = a.args[0] if ta is not None and (tb is None or ta <= tb) else b.args[0]
    if top is atom:
        return mkite(atom, cof(a, atom, True), cof(b, atom, False))
    return mkite(top, mkite(atom, cof(a, top, True), cof(b, top, True)),
                 mkite(atom, cof(a, top, False), cof(b, top, False)))


def _ratio(d, p):
    pd, pp = poly(d), poly(p)
    if set(pd) != set(pp) or not pd:
        return None
    r = None
    for m in pd:
        q = pd[m] / pp[m]
        if r is None:
            r = q
        elif r != q:
            return None
    return r


def cof(x, atom, v):
    if x.op != 'ite':
        return x
    if x.args[0] is atom:
        return cof(x.args[1] if v else x.args[2], atom, v)
    if x.args[0].id > atom.id:
        return x
    return mkite(x.args[0], cof(x.args[1], atom, v), cof(x.args[2], atom, v))


_itecache = {}


def ite(c, a, b):
    """c: condition bdd; a,b: any scalar/cond nodes"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c, a, b)
    r = _itecache.get(k)
    if r is not None:
        return r
    tops = [x.args[0] for x in (c, a, b) if x.op == 'ite']
    top = min(tops, key=lambda t: t.id)
    r = mkite(top, ite(cof(c, top, True), cof(a, top, True), cof(b, top, True)),
              ite(cof(c, top, False), cof(a, top, False), cof(b, top, False)))
    _itecache[k] = r
    return r


def band(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def bor(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def bnot(c):
    return ite(c, FALSE, TRUE)


def iscond(n):
    """is n a boolean bdd"""
    while n.op == 'ite':
        n = n.args[1]
    return n.op in ('true', 'false')


def cond_atoms(c, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [c]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            acc.add(x.args[0])
            st += [x.args[1], x.args[2]]
    return acc


def simp(x, pc):
    """simplify x (ite-DAG) under the assumption that condition pc holds (generalised cofactor)."""
    if pc is TRUE or x.op != 'ite':
        return x
    if pc is FALSE:
        return x
    top = min(x.args[0].id, pc.args[0].id)
    if pc.args[0].id == top:
        at = pc.args[0]
        pt, pf = pc.args[1], pc.args[2]
        if pt is FALSE:
            return simp(cof(x, at, False), pf)
        if pf is FALSE:
            return simp(cof(x, at, True), pt)
        if x.args[0] is at:
            return mkite(at, simp(x.args[1], pt), simp(x.args[2], pf))
        return simp(x, ite(pt, TRUE, pf))
    at = x.args[0]
    return mkite(at, simp(x.args[1], pc), simp(x.args[2], pc))


def leaves(x):
    out = []
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == 'ite':
            st += [y.args[2], y.args[1]]
        else:
            out.append(y)
    return out


# ---------------------------------------------------------------- substitution

def subst(n, mp):
    mp = {k: v for k, v in mp.items() if k is not v}
    if not mp:
        return n
    keys = set(mp)
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, N):
            return x
        if x in mp:
            return mp[x]
        if not (x.fv & keys) and not (nonfv and _contains_any(x, nonfv, cmemo)):
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    nonfv = frozenset(k for k in keys if k.op != 'iv')
    cmemo = {}
    return go(n)


def _contains_any(x, keys, memo):
    if isinstance(x, tuple):
        return any(_contains_any(y, keys, memo) for y in x)
    if not isinstance(x, N):
        return False
    if x in keys:
        return True
    r = memo.get(x)
    if r is None:
        memo[x] = False
        r = any(_contains_any(y, keys, memo) for y in x.args)
        memo[x] = r
    return r


def contains(x, pred, memo=None):
    memo = {} if memo is None else memo
    if isinstance(x, tuple):
        return any(contains(y, pred, memo) for y in x)
    if not isinstance(x, N):
        return False
    r = memo.get(x)
    if r is None:
        memo[x] = False
        r = bool(pred(x)) or any(contains(y, pred, memo) for y in x.args)
        memo[x] = r
    return r


def subterms(x, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, N) or y in seen:
            continue
        seen.add(y)
        acc.append(y)
        st.extend(y.args)
    return acc


def rebuild(x, go):
    o = x.op
    if o == 'poly':
        r = ZERO
        for m, c in x.args[0]:
            t = num(c)
            for a, e in m:
                t = mul(t, power(go(a.args[0]) if a.op == 'base' else go(a), e))
            r = add(r, t)
        return r
    if o == 'base':
        return go(x.args[0])
    if o == 'ite':
        return ite(recond(go, x.args[0]), go(x.args[1]), go(x.args[2]))
    if o == 'exp':
        return exp(go(x.args[0]))
    if o == 'log':
        return log(go(x.args[0]))
    if o == 'abs':
        return absv(go(x.args[0]))
    if o == 'fn':
        return fn(x.args[0], *[go(a) for a in x.args[1:]])
    if o == 'powsym':
        return power(go(x.args[0]), go(x.args[1]))
    if o == 'ivr':
        return ivr(recond(go, x.args[0]))
    if o == 'sum':
        vs, body = open_binder(x)
        return mk_sum(list(zip(vs, [go(r) for r in x.args[1]])), go(body))
    if o in ('lam', 'minred', 'maxred', 'argmin', 'exists', 'count', 'prodred', 'fun'):
        vs, body = open_binder(x)
        return REBUILD_BINDER[o](vs, tuple(go(r) for r in x.args[1]), go(body))
    if o == 'el':
        return mk_el(go(x.args[0]), tuple(go(a) for a in x.args[1:]))
    if o == 'nth':
        return mk_nth(go(x.args[0]), go(x.args[1]))
    if o in REBUILD_OPS:
        return REBUILD_OPS[o](*[go(a) for a in x.args])
    args = [go(a) for a in x.args]
    if any(isinstance(a, N) and a.op == 'ite' for a in args) and o in LIFTABLE:
        ns = [i for i, a in enumerate(args) if isinstance(a, N)]
        def f(*z):
            aa = list(args)
            for i, v in zip(ns, z):
                aa[i] = v
            return node(o, *aa)
        return lift(f, *[args[i] for i in ns])
    return node(o, *args)


REBUILD_OPS = {}


def nth_rewrite(v, body):
    """body mentions v only as nth(L, v): -> (L, w, body[w]) else None"""
    if v not in body.fv:
        return None
    tgt = None
    for x in subterms(body):
        if x.op == 'nth' and x.args[1] is v:
            if tgt is not None and tgt is not x:
                return None
            tgt = x
    if tgt is None:
        return None
    w = fresh()
    set_range(w, tgt.args[0].args[1][0])
    b2 = subst(body, {tgt: w})
    if v in b2.fv:
        return None
    return tgt.args[0], w, b2


def mk_nth(L, q):
    """index of the q-th True entry of the mask L"""
    if q.op == 'ite':
        return lift(lambda z: mk_nth(L, z), q)
    if L.op == 'ite':
        return ite(mkite(L.args[0], TRUE, FALSE), mk_nth(L.args[1], q), mk_nth(L.args[2], q))
    if L.op == 'lam' and L.args[2] is TRUE:
        return q
    if q.op == 'argmin':
        vs, b = open_binder(q)
        r = nth_rewrite(vs[0], b)
        if r is not None and r[0] is L:
            _, w, b2 = r
            m = lam_apply(L, (w,))
            return mk_argmin([w], [L.args[1][0]], ite(m, b2, INF))
    if q is ZERO:
        w = fresh()
        set_range(w, L.args[1][0])
        return mk_argmin([w], [L.args[1][0]], ite(lam_apply(L, (w,)), ZERO, ONE))
    return node('nth', L, q)


LIFTABLE = {'floor', 'ceil', 'toint'}


def recond(go, at):
    if at.op == 'lt0':
        return lt0(go(at.args[0]))
    if at.op == 'eq0':
        return eq0(go(at.args[0]))
    if at.op == 'exists':
        r = rebuild(at, go)
        return r
    return mkite(node(at.op, *[go(a) for a in at.args]), TRUE, FALSE)


def ivr(c):
    """Iverson bracket of condition bdd as polynomial"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    at = c.args[0]
    a = node('ivr', at)
    # [at]*T + (1-[at])*E
    t, e = ivr(c.args[1]), ivr(c.args[2])
    return add(mul(a, t), mul(sub(ONE, a), e))


# ---------------------------------------------------------------- binders

def open_binder(x):
    h, ranges, body = x.args[0], x.args[1], x.args[2]
    vs = []
    mp = {}
    for p in range(len(ranges)):
        v = fresh()
        vs.append(v)
        mp[node('bv', h, p)] = v
    for v, r in zip(vs, ranges):
        set_range(v, r)
    return vs, subst_bv(body, mp)


def subst_bv(n, mp):
    memo = {}
    keys = frozenset(mp)
    cmemo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, N):
            return x
        if x in mp:
            return mp[x]
        if not _contains_any(x, keys, cmemo):
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(n)


def close(vs, body):
    """-> (height, body with vs replaced by bv)"""
    h = 1 + _hmax(body)
    mp = {v: node('bv', h, i) for i, v in enumerate(vs)}
    nb = subst_plain(body, mp)
    return h, nb


def _hmax(b):
    if isinstance(b, tuple):
        return max((_hmax(x) for x in b), default=0)
    return b.hgt if isinstance(b, N) else 0


def subst_plain(n, mp):
    """rename index variables only; keep structure but restore canonical ordering."""
    return subst(n, mp) if isinstance(n, N) else tuple(subst(x, mp) if isinstance(x, N) else
                                                       (subst_plain(x, mp) if isinstance(x, tuple) else x) for x in n)


def mk_lam(vs, ranges, body):
    one = {v: ZERO for v, r in zip(vs, ranges) if r is ONE}
    if one:
        body = subst_plain(body, one)
    h, nb = close(vs, body)
    return node('lam', h, tuple(ranges), nb)


def lam_apply(l, idx):
    mp = {node('bv', l.args[0], i): v for i, v in enumerate(idx)}
    return subst_bv(l.args[2], mp)


def mk_sum(vr, body):
    """sum over [(var, range)...] of body"""
    for v, r in vr:
        set_range(v, r)
        body = _sum1(v, r, body)
    return body


def _sum1(v, r, body):
    if isnum(r) and val(r) <= 3:
        t = ZERO
        for k in range(int(val(r))):
            t = add(t, subst(body, {v: num(k)}))
        return t
    nr = nth_rewrite(v, body)
    if nr is not None:
        L, w, b2 = nr
        return _sum1(w, L.args[1][0], ite(lam_apply(L, (w,)), b2, ZERO))
    if body.op == 'ite':
        return _sum_ite(v, r, body)
    if r.op == 'ite':
        return lift(lambda rr: _sum1(v, rr, body), r)
    out = ZERO
    for m, c in poly(body).items():
        out = add(out, _sum_mono(v, r, m, c))
    return out


def _has(v, x):
    return v in x.fv


def _sum_ite(v, r, body):
    at = body.args[0]
    if not _has(v, at):
        return ite(mkite(at, TRUE, FALSE), _sum1(v, r, body.args[1]), _sum1(v, r, body.args[2]))
    # any leaf-level condition independent of v floats out by ordering eventually
    if at.op == 'eq0':
        e = solve_for(at.args[0], v)
        if e is not None:
            tt = subst(body.args[1], {v: e})
            ee = subst(body.args[2], {v: e})
            inr = band(bnot(lt0(e)), lt(e, r))
            return add(_sum1(v, r, body.args[2]), ite(inr, sub(tt, ee), ZERO))
    if at.op == 'lt0':
        # split range at threshold: v < e
        e = solve_lt(at.args[0], v)
        if e is not None:
            kind, thr = e
            # kind 'lt': cond <=> v < thr ; 'ge': cond <=> v >= thr
            a, b = (body.args[1], body.args[2]) if kind == 'lt' else (body.args[2], body.args[1])
            # sum_{v<thr} a + sum_{v>=thr} b, 0<=thr<=r assumed via clamps
            c0 = lt0(thr)
            c1 = lt(r, thr)
            lo = ite(c0, ZERO, ite(c1, r, thr))
            w = fresh()
            part1 = _sum1(v, lo, a)
            part2 = _sum1(w, sub(r, lo), subst(b, {v: add(w, lo)}))
            return add(part1, part2)
    a = ivr(mkite(at, TRUE, FALSE))
    bb = add(mul(a, body.args[1]), mul(sub(ONE, a), body.args[2]))
    return _sum1(v, r, bb)


def solve_for(p, v):
    """p == 0 with p linear in v, coefficient +-1 -> expression for v"""
    d = poly(p)
    k = ((v, F1),)
    c = d.get(k)
    if c is None or abs(c) != 1:
        return None
    rest = {m: cc for m, cc in d.items() if m != k}
    if any(_has(v, a) for m in rest for a, _ in m):
        return None
    return mk({m: -cc / c for m, cc in rest.items()})


def solve_lt(p, v):
    """p < 0 linear in int v -> ('lt', thr): v < thr  or ('ge', thr): v >= thr"""
    d = poly(p)
    k = ((v, F1),)
    c = d.get(k)
    if c is None or abs(c) != 1:
        return None
    rest = mk({m: cc for m, cc in d.items() if m != k})
    if _has(v, rest) or not isint(rest):
        return None
    if c == 1:
        return 'lt', neg(rest)              # v + rest < 0
    return 'ge', add(rest, ONE)              # -v + rest < 0  <=> v > rest <=> v >= rest+1


def _sum_mono(v, r, m, c):
    dep = []
    ind = []
    for a, e in m:
        (dep if _has(v, a) else ind).append((a, e))
    coef = mul(num(c), mk({tuple(ind): F1}) if ind else ONE)
    if not dep:
        return mul(coef, r)
    # gather binder set: flatten inner sums
    vs = [(v, r)]
    fac = []
    for a, e in dep:
        if a.op == 'sum' and e.denominator == 1 and 0 < e <= 3:
            for _ in range(int(e)):
                ivs, ib = open_binder(a)
                vs += list(zip(ivs, a.args[1]))
                fac.append((ib, F1))
        else:
            fac.append((a, e))
    body = ONE
    for a, e in fac:
        body = mul(body, power(atomnode(a), e))
    return mul(coef, _sum_conn(vs, body))


def _sum_conn(vs, body):
    """body is a single monomial; split into connected components over vs and canonicalise"""
    d = poly(body)
    if body.op == 'ite' or len(d) != 1:
        t = body
        for v, r in vs:
            t = _sum1(v, r, t)
        return t
    (m, c), = d.items()
    vset = [v for v, _ in vs]
    ranges = dict((v, r) for v, r in vs)
    comp = {v: {v} for v in vset}
    facs = list(m)
    def find(v):
        for s in groups:
            if v in s:
                return s
    groups = [{v} for v in vset]
    def union(s):
        nonlocal groups
        s = [x for x in s if x in ranges]
        if len(s) < 2:
            return
        g = set()
        rest = []
        for gr in groups:
            if gr & set(s):
                g |= gr
            else:
                rest.append(gr)
        groups = rest + [g]
    for a, e in facs:
        union(a.fv)
    for v in vset:
        union(set(ranges[v].fv) | {v})
    out = num(c)
    used = set()
    for g in groups:
        gf = [(a, e) for a, e in facs if a.fv & g]
        used |= set(id(x) for x in gf)
        if not gf and len(g) == 1:
            out = mul(out, ranges[next(iter(g))])
            continue
        out = mul(out, _mk_sum_atom([(v, ranges[v]) for v in vset if v in g], gf))
    rest = [(a, e) for a, e in facs if not any(a.fv & g for g in groups)]
    if rest:
        out = mul(out, mk({tuple(rest): F1}))
    return out


def _mk_sum_atom(vs, facs):
    body = mk({tuple(sorted(facs, key=lambda t: t[0].id)): F1})
    best = None
    perms = itertools.permutations(vs) if len(vs) <= 4 else [vs]
    # dependent ranges: keep order constraints (a range may mention another var)
    for p in perms:
        names = [v for v, _ in p]
        h, nb = close(names, body)
        rs = tuple(r for _, r in p)
        bad = False
        rr = []
        for r in rs:
            if r.fv & set(names):
                r = subst(r, {v: node('bv', h, i) for i, v in enumerate(names)})
            rr.append(r)
        cand = node('sum', h, tuple(rr), nb)
        if best is None or cand.id < best.id:
            best = cand
    return best


def mk_minred(vs, ranges, body):
    return _mk_red('minred', vs, ranges, body)


def mk_maxred(vs, ranges, body):
    return neg(_mk_red('minred', vs, ranges, neg(body)))


def _mk_red(op, vs, ranges, body):
    for v, r in zip(vs, ranges):
        set_range(v, r)
    keep = []
    for v, r in zip(vs, ranges):
        if isnum(r) and val(r) == 1:
            body = subst(body, {v: ZERO})
        else:
            keep.append((v, r))
    if not keep:
        return body
    for q, (v, r) in enumerate(keep):
        nr = nth_rewrite(v, body)
        if nr is not None:
            L, w, b2 = nr
            kk = keep[:q] + [(w, L.args[1][0])] + keep[q + 1:]
            return _mk_red(op, [k[0] for k in kk], [k[1] for k in kk], ite(lam_apply(L, (w,)), b2, INF))
    if body.op == 'ite':
        at = body.args[0]
        if not any(_has(v, at) for v, _ in keep):
            return ite(mkite(at, TRUE, FALSE), _mk_red(op, [k[0] for k in keep], [k[1] for k in keep], body.args[1]),
                       _mk_red(op, [k[0] for k in keep], [k[1] for k in keep], body.args[2]))
    # pull out additive terms and positive factors that do not mention the variables
    if body.op != 'ite':
        d = poly(body)
        vset = set(v for v, _ in keep)
        indep = {m: c for m, c in d.items() if not any(a.fv & vset for a, _ in m)}
        dep = {m: c for m, c in d.items() if m not in indep}
        if indep and dep:
            return add(mk(indep), _mk_red(op, [k[0] for k in keep], [k[1] for k in keep], mk(dep)))
        if not dep:
            return body
        # common positive numeric factor / common nonneg monomial factor
        common = None
        for m in dep:
            fs = {(a, e) for a, e in m if not (a.fv & vset)}
            common = fs if common is None else common & fs
        common = {(a, e) for a, e in common if nonneg(a)}
        lc = abs(dep[max(dep, key=_monokey)])
        if common or lc != 1:
            nd = {}
            for m, c in dep.items():
                nd[tuple(t for t in m if t not in common)] = c / lc
            f = mk({tuple(sorted(common, key=lambda t: t[0].id)): lc})
            return mul(f, _mk_red(op, [k[0] for k in keep], [k[1] for k in keep], mk(nd)))
    best = None
    for p in itertools.permutations(keep):
        names = [v for v, _ in p]
        h, nb = close(names, body)
        cand = node(op, h, tuple(r for _, r in p), nb)
        if best is None or cand.id < best.id:
            best = cand
    return best


def mk_argmin(vs, ranges, body):
    for v, r in zip(vs, ranges):
        set_range(v, r)
    assert len(vs) == 1
    v, r = vs[0], ranges[0]
    if isnum(r) and val(r) == 1:
        return ZERO
    if body.op != 'ite':
        d = poly(body)
        dep = {m: c for m, c in d.items() if any(_has(v, a) for a, _ in m)}
        if not dep:
            return ZERO
        common = None
        for m in dep:
            fs = {(a, e) for a, e in m if not _has(v, a)}
            common = fs if common is None else common & fs
        common = {(a, e) for a, e in common if nonneg(a)}
        lc = abs(dep[max(dep, key=_monokey)])
        nd = {}
        for m, c in dep.items():
            nd[tuple(t for t in m if t not in common)] = c / lc
        body = mk(nd)
    elif not _has(v, body.args[0]):
        at = body.args[0]
        return ite(mkite(at, TRUE, FALSE), mk_argmin(vs, ranges, body.args[1]), mk_argmin(vs, ranges, body.args[2]))
    h, nb = close([v], body)
    return node('argmin', h, (r,), nb)


def mk_exists(vs, ranges, c):
    """exists vs in ranges. c  -> condition bdd"""
    for v, r in zip(vs, ranges):
        set_range(v, r)
    keep = []
    for v, r in zip(vs, ranges):
        if isnum(r) and val(r) == 1:
            c = subst(c, {v: ZERO})
        elif isnum(r) and val(r) in (2, 3):
            p, c = c, FALSE
            for q in range(int(val(r))):
                c = bor(c, subst(p, {v: num(q)}))
        else:
            keep.append((v, r))
    c = _exists_rec(keep, c)
    return c


def _exists_rec(keep, c):
    if c in (TRUE, FALSE):
        if c is FALSE:
            return FALSE
        r = TRUE
        for v, rg in keep:
            r = band(r, lt(ZERO, rg))
        return r
    if not keep:
        return c
    vset = set(v for v, _ in keep)
    if not (c.fv & vset):
        r = c
        for v, rg in keep:
            r = band(r, lt(ZERO, rg))
        return r
    for q, (v, rg) in enumerate(keep):
        nr = nth_rewrite(v, c)
        if nr is not None:
            L, w, b2 = nr
            return _exists_rec(keep[:q] + [(w, L.args[1][0])] + keep[q + 1:], band(lam_apply(L, (w,)), b2))
    at = c.args[0]
    if not (at.fv & vset):
        return ite(mkite(at, TRUE, FALSE), _exists_rec(keep, c.args[1]), _exists_rec(keep, c.args[2]))
    # distribute over disjunction of leaf paths is not canonical; close as is
    for i, (v, rg) in enumerate(keep):
        if at.op == 'eq0' and c.args[2] is FALSE:
            e = solve_for(at.args[0], v)
            if e is not None:
                rest = keep[:i] + keep[i + 1:]
                return _exists_rec(rest, band(subst(c.args[1], {v: e}), bnot(lt0(e)), lt(e, rg)))
    best = None
    for p in itertools.permutations(keep):
        names = [v for v, _ in p]
        h, nb = close(names, c)
        cand = node('exists', h, tuple(r for _, r in p), nb)
        if best is None or cand.id < best.id:
            best = cand
    return mkite(best, TRUE, FALSE)


def mk_forall(vs, ranges, c):
    return bnot(mk_exists(vs, ranges, bnot(c)))


def mk_count(vs, ranges, c):
    """number of index tuples satisfying c = sum of Iverson"""
    return mk_sum(list(zip(vs, ranges)), ite(c, ONE, ZERO))


REBUILD_BINDER = {
    'lam': lambda vs, rs, b: mk_lam(vs, rs, b),
    'fun': lambda vs, rs, b: mk_fun(vs, rs, b),
    'minred': lambda vs, rs, b: mk_minred(vs, rs, b),
    'maxred': lambda vs, rs, b: mk_maxred(vs, rs, b),
    'argmin': lambda vs, rs, b: mk_argmin(vs, rs, b),
    'exists': lambda vs, rs, b: mk_exists(vs, rs, b),
}


def mk_fun(vs, rs, b):
    h, nb = close(vs, b)
    return node('fun', h, tuple(rs), nb)


# ---------------------------------------------------------------- elements of opaque arrays

EL_HOOKS = []


def mk_el(base, idx):
    if any(i.op == 'ite' for i in idx):
        return lift(lambda *z: mk_el(base, z), *idx)
    if base.op == 'lam':
        return lam_apply(base, idx)
    if base.op == 'ite':
        return ite(mkite(base.args[0], TRUE, FALSE), mk_el(base.args[1], idx), mk_el(base.args[2], idx))
    for h in EL_HOOKS:
        r = h(base, idx)
        if r is not None:
            return r
    return node('el', base, *idx)


# ---------------------------------------------------------------- differentiation

def diff(n, x):
    """d n / d x for atom x (a 'sym' or an 'el' atom with concrete index).  Sums over an index that
    hits x element-wise use delta elimination."""
    memo = {}

    def dd(n):
        r = memo.get(n)
        if r is None:
            r = _d(n)
            memo[n] = r
        return r

    def _d(n):
        if n is x:
            return ONE
        o = n.op
        if o in ('num', 'sym', 'pi', 'inf', 'iv', 'bv'):
            return ZERO
        if o == 'el':
            if x.op == 'el' and n.args[0] is x.args[0]:
                c = TRUE
                for a, b in zip(n.args[1:], x.args[1:]):
                    c = band(c, eq(a, b))
                return ite(c, ONE, ZERO)
            if not contains(n, lambda t: t is x or (x.op == 'el' and t.op == 'el' and t.args[0] is x.args[0])):
                return ZERO
            return node('unk', 'diff', n)
        if o == 'poly':
            r = ZERO
            for m, c in n.args[0]:
                for i, (a, e) in enumerate(m):
                    base = atomnode(a)
                    da = dd(base)
                    if da is ZERO:
                        continue
                    t = mul(num(c * e), power(base, e - 1), da)
                    for j, (b, f) in enumerate(m):
                        if j != i:
                            t = mul(t, power(atomnode(b), f))
                    r = add(r, t)
            return r
        if o == 'exp':
            return mul(n, dd(n.args[0]))
        if o == 'log':
            return div(dd(n.args[0]), n.args[0])
        if o == 'ite':
            return ite(mkite(n.args[0], TRUE, FALSE), dd(n.args[1]), dd(n.args[2]))
        if o == 'fn' and n.args[0] == 'gamma':
            return mul(n, fn('digamma', n.args[1]), dd(n.args[1]))
        if o == 'sum':
            vs, body = open_binder(n)
            db = diff(body, x)
            return mk_sum(list(zip(vs, n.args[1])), db)
        if o == 'fn':
            if all(dd(a) is ZERO for a in n.args[1:] if isinstance(a, N)):
                return ZERO
        if not contains(n, lambda t: t is x or (x.op == 'el' and t.op == 'el' and t.args[0] is x.args[0])):
            return ZERO
        return node('unk', 'diff', n)
    return dd(n)


# ---------------------------------------------------------------- equality

def is_zero(n, depth=0):
    if n is ZERO:
        return True
    if n.op == 'ite':
        return all(is_zero(l, depth) for l in leaves(n))
    if n.op == 'num':
        return False
    # clear denominators
    d = poly(n)
    for m in d:
        for a, e in m:
            if a.op == 'base' and e < 0 and e.denominator == 1:
                k = max(-ee for mm in d for aa, ee in mm if aa is a)
                q = mul_expand(n, a, k)
                return is_zero(q, depth + 1) if depth < 12 else False
    # fractional exponents of one base: group by residue, factor out the smallest power of each class
    bases = []
    for m in d:
        for a, e in m:
            if a.op == 'base' and a not in bases:
                bases.append(a)
    for a in bases:
        cls = {}
        for m, c in d.items():
            e = dict(m).get(a, F0)
            cls.setdefault(e - (e.numerator // e.denominator), []).append((e, m, c))
        if len(cls) == 1 and len({e for r in cls.values() for e, _, _ in r}) == 1:
            continue
        if depth > 8:
            return False
        for r, ms in cls.items():
            lo = min(e for e, _, _ in ms)
            out = ZERO
            for e, m, c in ms:
                t = mk({tuple((x, y) for x, y in m if x is not a): c})
                for _ in range(int(e - lo)):
                    t = _mul_nocancel(t, a.args[0])
                out = add(out, t)
            if not is_zero(out, depth + 1):
                return False
        return True
    return False


def mul_expand(n, a, k):
    """multiply polynomial n by base(a)^k exactly, expanding"""
    out = ZERO
    for m, c in poly(n).items():
        exps = dict(m)
        e = exps.pop(a, F0)
        t = mk({tuple(sorted(exps.items(), key=lambda t: t[0].id)): c})
        rem = k + e
        if rem > 0 and rem.denominator == 1:
            p = a.args[0]
            for _ in range(int(rem)):
                t = _mul_nocancel(t, p)
        elif rem != 0:
            t = mul(t, mk({((a, rem),): F1}))
        out = add(out, t)
    return out


def _mul_nocancel(a, b):
    d = {}
    extra = ZERO
    for m1, c1 in poly(a).items():
        for m2, c2 in poly(b).items():
            for m, c in _mulmono(m1, c1, m2, c2).items():
                if m == '__node__':
                    extra = add(extra, c)
                else:
                    d[m] = d.get(m, F0) + c
    return add(mk(d), extra)


def equal(a, b):
    if a is b:
        return True
    if iscond(a) or iscond(b):
        return False
    try:
        return is_zero(sub(a, b))
    except Exception:
        return False


# ---------------------------------------------------------------- printing

def show(n, depth=0, lim=14):
    if isinstance(n, tuple):
        return '(' + ', '.join(show(x, depth + 1, lim) for x in n) + ')'
    if not isinstance(n, N):
        return str(n)
    if depth > lim:
        return '..'
    o, a = n.op, n.args
    s = lambda x: show(x, depth + 1, lim)
    if o == 'num':
        v = a[0]
        return str(v) if v.denominator == 1 or v.denominator < 1000 else repr(float(v))
    if o == 'poly':
        parts = []
        for m, c in a[0]:
            fs = []
            if c != 1 or not m:
                fs.append(s(node('num', c)))
            for at, e in m:
                t = s(at)
                fs.append(t if e == 1 else f'{t}^{e if e.denominator == 1 and e > 0 else "(" + str(e) + ")"}')
            parts.append('*'.join(fs))
        return '(' + ' + '.join(parts) + ')'
    if o == 'base':
        return s(a[0])
    if o == 'sym':
        return str(a[0])
    if o == 'arr':
        return str(a[0])
    if o == 'iv':
        return f'i{a[0]}'
    if o == 'bv':
        return 'ijklmnpq'[a[1] % 8] + ('' if a[0] == 1 else str(a[0]))
    if o == 'el':
        return f"{s(a[0])}[{','.join(s(x) for x in a[1:])}]"
    if o == 'ite':
        return f'if({s(a[0])} ? {s(a[1])} : {s(a[2])})'
    if o == 'lt0':
        return f'{s(a[0])}<0'
    if o == 'eq0':
        return f'{s(a[0])}==0'
    if o in ('sum', 'minred', 'argmin', 'lam', 'exists', 'fun'):
        vs = ','.join('ijklmnpq'[k % 8] + ('' if a[0] == 1 else str(a[0])) + '<' + s(r) for k, r in enumerate(a[1]))
        return f'{o}[{vs}]({s(a[2])})'
    if o in ('true', 'false', 'inf', 'pi', 'nan'):
        return o
    if o == 'fn':
        return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    return f"{o}({', '.join(s(x) for x in a)})"
