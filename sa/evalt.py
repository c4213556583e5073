"""Witness search for *differences between two value graphs*.

When the prover cannot show that the value graph of the analysed code equals the
reference graph, a report is only made if a valuation of the graph's symbols
(array entries, sizes, draws) is found under which the two terms denote different
values.  This interprets terms of the analysis domain, never repository code, and
it is only ever used to confirm a report, not to establish that a property holds.
"""
import itertools
import math
import hashlib
from fractions import Fraction
from . import terms as T
from .terms import N


class Fail(Exception):
    pass


class Undef(Exception):
    """the term has no value under this valuation (0/0, singular matrix, ...)"""


NUMOPS = {'num', 'poly', 'sym', 'el', 'sum', 'minred', 'maxred', 'argmin', 'exp', 'log', 'fn', 'abs', 'floor', 'iv', 'bv', 'pi', 'inf', 'count',
          'base', 'draw', 'drawpos', 'drawint', 'ceil', 'nth', 'nan', 'ivr', 'powsym', 'divzero', 'det', 'logdet', 'detsign', 'toint', 'tofloat',
          'chunklen', 'chunkoff', 'chunkof', 'nthm', 'clk'}


STROPS = {'str', 'strcat', 'fmt', 'join', 'symstr'}


def hsh(key, seed):
    h = hashlib.blake2b(repr((key, seed)).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big') / 2.0 ** 64


def rnd(x):
    """digest of a number, stable under rounding noise"""
    if isinstance(x, bool):
        return x
    if isinstance(x, (int,)):
        return ('f', x) if x else ('f', 0)
    if isinstance(x, float):
        if math.isnan(x):
            return 'nan'
        if math.isinf(x):
            return ('inf', x > 0)
        if abs(x) < 1e-9:
            return ('f', 0)
        m, e = math.frexp(x)
        r = math.ldexp(round(m * 2 ** 22) / 2 ** 22, e)
        return ('f', int(r) if r == int(r) and abs(r) < 1e9 else r)
    return x


class Val:
    """valuation of the symbols, derived from a seed"""

    def __init__(self, seed, dims=None, grid=False, over=None, pool=None, scale=1.0, mode='', small=False):
        self.seed = seed
        self.mode = mode
        self.small = small
        self.grid = grid
        self.pool = pool
        self.scale = scale
        self.dims = dims or {}
        self.over = over or {}

    def real(self, key, sign=''):
        u = hsh(('r', key), self.seed)
        if self.mode == 'two':
            return 0.5 if u < 0.6 else 1.5
        if self.mode == 'wide':
            return int(u * 48) / 4.0 - (0.0 if sign else 6.0) + (0.25 if sign == 'pos' else 0.0)
        if self.mode == 'near':
            return 1.0 + 0.04 * u
        if self.mode == 'tail' and isinstance(key, tuple) and key[:1] == ('draw',):
            return 8.0 * u - 4.0
        if self.pool and hsh(('p', key), self.seed) < 0.5:
            g = [x for x in self.pool if x > 0 or x == 0 and sign in ('nn', 'nonneg')] if sign else self.pool
            if g:
                return g[int(u * len(g))]
        if self.scale != 1.0 and not self.grid:
            return self.scale * (4.0 * u - 2.0 if not sign else 0.1 + 2.0 * u)
        if self.grid:
            g = [0.5, 1.0, 2.0, 1.5] if sign == 'pos' else [0.0, 1.0, 0.5, 2.0] if sign in ('nn', 'nonneg') else [-1.0, 0.0, 1.0, 0.5, 2.0, -0.5]
            return g[int(u * len(g))]
        if sign == 'pos':
            return 0.2 + 2.0 * u
        if sign in ('nn', 'nonneg'):
            return 2.0 * u
        return 4.0 * u - 2.0

    def unit(self, key):
        u = hsh(('u', key), self.seed)
        return [0.0, 0.25, 0.5, 0.999][int(u * 4)] if self.grid else u

    def dim(self, name, lo=1):
        if name in self.dims:
            return self.dims[name]
        return lo + int(hsh(('d', name), self.seed) * (2 if self.small or self.mode == 'two' else 3))

    def bool(self, key):
        return hsh(('b', key), self.seed) < 0.5


class Evl:
    def __init__(self, val, limit=400000):
        self.v = val
        self.eps = 1e-10 * min(1.0, val.scale)
        self.steps = 0
        self.limit = limit
        self.memo = {}

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Fail('budget')

    # ------------------------------------------------------------ numbers
    def num(self, n, env):
        self.tick()
        closed = not _open(n)
        if closed and not env.get('$fs'):
            r = self.memo.get(n)
            if r is not None:
                return r
        r = self._num(n, env)
        if closed and not env.get('$fs'):
            self.memo[n] = r
        return r

    def atom(self, a, env):
        return self.num(a.args[0] if a.op == 'base' else a, env)

    def _num(self, n, env):
        o = n.op
        if o == 'num':
            v = n.args[0]
            return int(v) if v.denominator == 1 else float(v)
        if o == 'poly':
            s = 0
            infs = []
            for m, c in n.args[0]:
                t = int(c) if c.denominator == 1 else float(c)
                for a, e in m:
                    x = self.atom(a, env)
                    if e.denominator == 1:
                        e = int(e)
                        if e < 0 and x == 0:
                            raise Undef('div0')
                        try:
                            x = x ** e if e >= 0 else 1.0 / float(x) ** (-e)
                        except OverflowError:
                            raise Undef('overflow')
                    else:
                        if x < 0:
                            if x > -1e-9:
                                x = 0.0
                            else:
                                raise Undef('root of negative')
                        if x == 0 and e < 0:
                            raise Undef('div0')
                        x = float(x) ** float(e)
                    t = t * x
                s = s + t
            if isinstance(s, float) and math.isnan(s):
                raise Undef('nan')
            return s
        if o in ('iv', 'bv', 'fs', 'ft', 'fslen'):
            if n in env:
                return env[n]
            if o == 'iv':
                raise Fail('free index')
            raise Fail('unbound')
        if o == 'sym':
            if n in self.v.over:
                return self.v.over[n]
            name = n.args[0]
            ty = n.args[1] if len(n.args) > 1 else 'real'
            sign = n.args[2] if len(n.args) > 2 else None
            if ty in ('int', 'dim'):
                lo, hi = T.bounds(n)
                if lo is not None or name in self.v.dims:
                    return self.v.dim(name, int(lo) if lo is not None else 1)
                return int(hsh(('i', name), self.v.seed) * 7) - 1
            return self.v.real(name, sign or '')
        if o == 'inf':
            return math.inf
        if o == 'pi':
            return math.pi
        if o == 'nan':
            return math.nan
        if o == 'divzero':
            raise Undef('div0')
        if o == 'ite':
            return self.num(n.args[1] if self.cond1(n.args[0], env) else n.args[2], env)
        if o == 'exp':
            try:
                return math.exp(self.num(n.args[0], env))
            except OverflowError:
                raise Undef('overflow')
        if o == 'log':
            x = self.num(n.args[0], env)
            if x <= 0:
                raise Undef('log')
            return math.log(x)
        if o == 'abs':
            return abs(self.num(n.args[0], env))
        if o == 'floor':
            return math.floor(self.num(n.args[0], env) + 1e-9)
        if o == 'ceil':
            return math.ceil(self.num(n.args[0], env) - 1e-9)
        if o == 'toint':
            return int(self.num(n.args[0], env))
        if o == 'tofloat':
            return float(self.num(n.args[0], env))
        if o == 'sum':
            return sum(self.over_binder(n, env), 0)
        if o in ('minred', 'maxred'):
            xs = list(self.over_binder(n, env))
            if not xs:
                raise Undef('empty min')
            return min(xs) if o == 'minred' else max(xs)
        if o == 'argmin':
            xs = list(self.over_binder(n, env))
            if not xs:
                raise Undef('empty argmin')
            xs = [float(x) for x in xs]
            m = min(xs)
            for i, x in enumerate(xs):
                if x <= m + 1e-12 * max(1, abs(m)) or x == m:
                    return i
        if o in ('chunklen', 'chunkoff', 'chunkof'):
            nn, c, t = (int(self.num(x, env)) for x in n.args)
            if c < 1:
                raise Undef('chunks')
            q, r = divmod(nn, c)
            lens = [q + 1] * r + [q] * (c - r)
            if o == 'chunkof':
                s = 0
                for i, l in enumerate(lens):
                    s += l
                    if t < s:
                        return i
                raise Undef('chunk index')
            if not 0 <= t < c:
                raise Undef('chunk index')
            return lens[t] if o == 'chunklen' else sum(lens[:t])
        if o == 'ivr':
            return 1 if self.cond(n.args[0], env) else 0
        if o == 'count':
            return sum(1 for c in self.over_binder(n, env, cond=True) if c)
        if o == 'fn':
            nm = n.args[0]
            if all(isinstance(x, N) for x in n.args[1:]):
                xs = [self.any(x, env) for x in n.args[1:]]
            else:
                xs = [self.dig(x, env) for x in n.args[1:]]
            if len(xs) == 1 and isinstance(xs[0], (int, float)):
                x = float(xs[0])
                try:
                    if nm == 'normcdf':
                        return 0.5 * math.erfc(-x / math.sqrt(2))
                    if nm == 'normpdf':
                        return math.exp(-x * x / 2) / math.sqrt(2 * math.pi)
                    if nm == 'sin':
                        return math.sin(x)
                    if nm == 'cos':
                        return math.cos(x)
                    if nm == 'tanh':
                        return math.tanh(x)
                    if nm == 'gamma':
                        return math.gamma(x)
                    if nm == 'rint':
                        return float(round(x))
                    if nm == 'digamma':
                        hh = 1e-5
                        if x <= hh:
                            raise Undef('digamma')
                        return (math.lgamma(x + hh) - math.lgamma(x - hh)) / (2 * hh)
                except (OverflowError, ValueError):
                    raise Undef(nm)
            return self.v.real(('fn', nm) + tuple(rnd(x) if isinstance(x, (int, float)) else x for x in xs), 'pos' if nm in T.POSFN else '')
        if o == 'draw':
            kind = n.args[0]
            key = ('draw',) + tuple(self.dig(x, env) for x in n.args[1:])
            return self.v.unit(key) if kind == 'unit' else self.v.real(key)
        if o == 'drawint':
            return self.drawint(n, env)
        if o == 'drawpos':
            return self.v.real(('dp',) + tuple(self.dig(x, env) for x in n.args), 'pos')
        if o == 'el':
            return self.el(n, env)
        if o == 'nth':
            q = self.num(n.args[1], env)
            L = n.args[0]
            k = self.num(L.args[1][0], env)
            c = 0
            for i in range(int(k)):
                e2 = dict(env)
                e2[T.node('bv', L.args[0], 0)] = i
                if self.cond(L.args[2], e2):
                    if c == q:
                        return i
                    c += 1
            raise Undef('nth')
        if o in ('true', 'false', 'lt0', 'eq0', 'pred', 'exists'):
            return self.cond(n, env)
        if o in ('det', 'logdet', 'detsign') and n.args and isinstance(n.args[0], N):
            m = self.table(n.args[0], env)
            d = det([list(map(float, r)) for r in m])
            if o == 'det':
                return d
            if o == 'detsign':
                return 0 if d == 0 else (1 if d > 0 else -1)
            if d == 0:
                raise Undef('det')
            return math.log(abs(d))
        if o == 'scan':
            return self.scan(n, env)
        if o == 'powsym':
            try:
                return float(self.num(n.args[0], env)) ** float(self.num(n.args[1], env))
            except (ValueError, ZeroDivisionError, OverflowError):
                raise Undef('pow')
        if o == 'optfun':
            return self.v.real(self.dig(n, env, raw=True))
        if o == 'unk':
            raise Fail('unk')
        if o in ('lam', 'tup', 'list', 'dict', 'str', 'none', 'pytrue', 'pyfalse'):
            raise Fail('not a number')
        lo, hi = T.bounds(n)
        key = self.dig(n, env, raw=True)
        if T.isint(n):
            l = int(lo) if lo is not None else 0
            return l + int(hsh(('i', key), self.v.seed) * 3)
        return self.v.real(key, 'nn' if T.nonneg(n) else '')

    def drawint(self, n, env):
        a = n.args
        lo, hi = int(self.num(a[1], env)), int(self.num(a[2], env))
        if hi <= lo:
            raise Undef('empty range')
        off = 6 if a[0] == 'choice' else 3
        distinct = a[0] == 'perm' or a[0] == 'choice' and a[3].op == 'pyfalse'
        if distinct and len(a) == off + 3:
            key = ('drawint',) + tuple(self.dig(x, env) if isinstance(x, N) else x for x in a[:-1])
            i = int(self.num(a[-1], env))
            q = sorted(range(lo, hi), key=lambda x: hsh((key, x), self.v.seed))
            if not 0 <= i < len(q):
                raise Undef('draw index')
            return q[i]
        key = ('drawint',) + tuple(self.dig(x, env) if isinstance(x, N) else x for x in a)
        return lo + int(hsh(key, self.v.seed) * (hi - lo))

    def over_binder(self, n, env, cond=False):
        h, rs, body = n.args[0], n.args[1], n.args[2]
        bvs = [T.node('bv', h, p) for p in range(len(rs))]
        ks = []
        for r in rs:
            k = self.num(r, env)
            ks.append(int(k))

        def rec(p, e):
            if p == len(rs):
                yield self.cond(body, e) if cond else self.num(body, e)
                return
            for i in range(ks[p]):
                e2 = dict(e)
                e2[bvs[p]] = i
                yield from rec(p + 1, e2)
        yield from rec(0, env)

    def table(self, l, env):
        """nested list of a lam; dict for shapes"""
        if l.op == 'ite':
            return self.table(l.args[1] if self.cond1(l.args[0], env) else l.args[2], env)
        if l.op in ('fs', 'ft') and l in env:
            return env[l]
        if l.op != 'lam':
            raise Fail('table ' + l.op)
        key = ('tab', l)
        closed = not _open(l) and not env.get('$fs')
        if closed and key in self.memo:
            return self.memo[key]
        h, rs, body = l.args
        ks = [int(self.num(r, env)) for r in rs]
        bvs = [T.node('bv', h, p) for p in range(len(rs))]

        def rec(p, e):
            if p == len(rs):
                return self.any(body, e)
            out = []
            for i in range(ks[p]):
                e2 = dict(e)
                e2[bvs[p]] = i
                out.append(rec(p + 1, e2))
            return out
        r = rec(0, env)
        if closed:
            self.memo[key] = r
        return r

    def el(self, n, env):
        base = n.args[0]
        ix = [self.num(x, env) for x in n.args[1:]]
        return self.elv(base, ix, env)

    def elv(self, base, ix, env):
        o = base.op
        if o == 'ite':
            return self.elv(base.args[1] if self.cond1(base.args[0], env) else base.args[2], ix, env)
        if o == 'arr':
            sign = base.args[1] if len(base.args) > 1 and isinstance(base.args[1], str) else ''
            k = (base, tuple(int(i) for i in ix))
            if k in self.v.over:
                return self.v.over[k]
            if base.args[0][:1] == '$' and self.v.seed % 2 == 0:
                return 2.0 + self.v.real((base.args[0],) + tuple(int(i) for i in ix), 'pos')
            return self.v.real((base.args[0],) + tuple(int(i) for i in ix), sign)
        if o == 'lam':
            e2 = dict(env)
            for p, i in enumerate(ix):
                e2[T.node('bv', base.args[0], p)] = int(i)
            return self.any(base.args[2], e2)
        if o == 'inv':
            try:
                m = self.mat(base.args[0], env)
                r = self.cached(('invm', base), env, lambda: inverse(m))
            except Fail:
                return self.v.real((self.dig(base, env),) + tuple(rnd(i) for i in ix))
            return r[int(ix[0])][int(ix[1])]
        if o in ('fs',) and base in env:
            return self.at(env[base], ix)
        if o == 'scan':
            return self.at(self.scan(base, env), ix)
        if o == 'unk':
            raise Fail('unk')
        if o in ('sorted', 'argsort', 'unique'):
            return self.order(base, env)[int(ix[0])]
        ints = tuple(rnd(i) for i in ix)
        if o == 'app' and len(ix) >= 2 and isinstance(base.args[0], str) and base.args[0][-1:] == '~' and ix[0] > ix[1]:
            ix = (ix[1], ix[0]) + tuple(ix[2:])
            ints = (ints[1], ints[0]) + ints[2:]
        sg = 'nn' if T.nonneg(T.node('el', base, *[T.num(int(i)) for i in ix if i == int(i)])) else ''
        return self.v.real((self.dig(base, env),) + ints, sg)

    def order(self, n, env):
        rev = False
        for x in n.args[1:]:
            if x.op != 'kv' or x.args[0] != 'reverse' or x.args[1].op not in ('pytrue', 'pyfalse'):
                raise Fail('sort key')
            rev = x.args[1].op == 'pytrue'
        v = self.table(n.args[0], env)
        if not all(isinstance(x, (int, float)) for x in v):
            raise Fail('sort items')
        if n.op == 'argsort':
            return sorted(range(len(v)), key=lambda i: v[i])
        return sorted(set(v) if n.op == 'unique' else v, reverse=rev)

    def at(self, v, ix):
        """entry of a table, or of an uninterpreted array known by its digest"""
        for k, i in enumerate(ix):
            if not isinstance(v, list):
                return self.v.real((v,) + tuple(rnd(q) for q in ix[k:]), '')
            v = v[int(i)]
        return v

    def cached(self, key, env, f):
        if _open(key[1]) or env.get('$fs'):
            return f()
        if key not in self.memo:
            self.memo[key] = f()
        return self.memo[key]

    def mat(self, l, env):
        return [[float(x) for x in r] for r in self.table(l, env)]

    def scan(self, n, env):
        desc, q, k = n.args[0], n.args[1], n.args[2]
        if desc.op != 'folddesc':
            raise Fail('scan')
        init, step = desc.args[0], desc.args[1]
        cnt = int(self.num(k, env))
        st = [self.started(x, y, env) for x, y in zip(init, step)]
        # height of the fold symbols
        h = None
        fsn = {}
        seen = set()
        stack = list(step)
        hs = set()
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                stack.extend(x)
                continue
            if not isinstance(x, N) or x in seen:
                continue
            seen.add(x)
            if x.op in ('fs', 'ft', 'fslen'):
                hs.add(x.args[0])
            stack.extend(x.args)
        if hs:
            h = max(hs)
        for t in range(cnt):
            e2 = dict(env)
            e2['$fs'] = env.get('$fs', 0) + 1
            if h is not None:
                e2[T.node('ft', h)] = t
                for j, v in enumerate(st):
                    e2[T.node('fs', h, j)] = v
                    if isinstance(v, list):
                        e2[T.node('fslen', h, j)] = len(v)
            st = [self.grown(x, st[j], e2) for j, x in enumerate(step)]
        return st[int(self.num(q, env))]

    # ------------------------------------------------------------ conditions
    def cond(self, c, env):
        while c.op == 'ite':
            c = c.args[1] if self.cond1(c.args[0], env) else c.args[2]
        if c.op == 'true':
            return True
        if c.op == 'false':
            return False
        if c.op in ('lt0', 'eq0', 'pred', 'exists'):
            return self.cond1(c, env)
        return bool(self.any(c, env))

    def cond1(self, a, env):
        self.tick()
        o = a.op
        if o == 'lt0':
            x = self.num(a.args[0], env)
            return x < -self.eps
        if o == 'eq0':
            x = self.any(a.args[0], env)
            if isinstance(x, (int, float)):
                return abs(x) < self.eps
            return self.v.bool(('eq0', self.dig(a.args[0], env)))
        if o == 'exists':
            return any(self.over_binder(a, env, cond=True))
        if o == 'pred':
            if a.args[0] in ('isnan', 'isinf') and len(a.args) == 2:
                x = self.any(a.args[1], env)
                if isinstance(x, (int, float)) and not isinstance(x, bool):
                    return math.isnan(x) if a.args[0] == 'isnan' else math.isinf(x)
            return self.v.bool(('pred',) + tuple(self.dig(x, env) for x in a.args))
        if o == 'unk':
            raise Fail('unk')
        if o in ('true', 'false', 'ite'):
            return self.cond(a, env)
        return self.v.bool(self.dig(a, env))

    # ------------------------------------------------------------ anything
    def any(self, n, env):
        if isinstance(n, tuple):
            return tuple(self.any(x, env) for x in n)
        if not isinstance(n, N):
            return n
        o = n.op
        if o == 'ite':
            return self.any(n.args[1] if self.cond1(n.args[0], env) else n.args[2], env)
        if o == 'lam':
            return ('arr', tuple(int(self.num(r, env)) for r in n.args[1]), self.table(n, env)) if False else self.table(n, env)
        if o in ('true', 'false'):
            return o == 'true'
        if o in ('fs', 'ft') and n in env:
            return env[n]
        if o == 'scan':
            return self.scan(n, env)
        if o in NUMOPS:
            return self.num(n, env)
        return self.dig(n, env)

    def dig(self, n, env, raw=False):
        """hashable digest of any term"""
        self.tick()
        if isinstance(n, tuple):
            return tuple(self.dig(x, env) for x in n)
        if not isinstance(n, N):
            return rnd(n)
        o = n.op
        if o == 'ite':
            return self.dig(n.args[1] if self.cond1(n.args[0], env) else n.args[2], env)
        if o == 'unk':
            raise Fail('unk')
        if o == 'lam':
            sh = tuple(int(self.num(r, env)) for r in n.args[1])
            return ('lam', sh, _dt(self.table(n, env)))
        if o in STROPS:
            return ('s', self.text(n, env))
        if o == 'list':
            out = []
            for x in n.args:
                out.extend(self.items(x, env))
            return ('list', tuple(out))
        if o in ('true', 'false'):
            return o == 'true'
        if o in ('iv', 'bv', 'fs', 'ft') and n in env:
            return _dt(env[n])
        if o == 'scan':
            return _dt(self.scan(n, env))
        if o in NUMOPS and not raw:
            return rnd(self.num(n, env))
        if o in ('lt0', 'eq0', 'exists', 'pred') and not raw:
            return self.cond1(n, env)
        if o in T.BINDERS:
            h, rs, body = n.args[0], n.args[1], n.args[2]
            ks = [int(self.num(r, env)) for r in rs]
            return (o, tuple(ks), _dt(self.table(T.node('lam', h, rs, body), env)))
        if o == 'arr':
            return ('arr', n.args[0])
        if o == 'opt':
            out = []
            for x in n.args:
                try:
                    out.append(self.dig(x, env))
                except Undef as e:
                    out.append(('undef', str(e)))
            return ('opt',) + tuple(out)
        if o == 'item':
            b = self.any(n.args[0], env)
            return ('item', _dt(b), self.dig(n.args[1], env))
        return (o,) + tuple(self.dig(x, env) for x in n.args)

    def text(self, n, env):
        """a string term as a tuple of literal texts and formatted values"""
        out = []

        def put(x):
            if isinstance(x, str):
                if x and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x:
                    out.append(x)
            elif isinstance(x, tuple) and len(x) == 2 and x[0] == 's' and isinstance(x[1], tuple):
                for y in x[1]:
                    put(y) if isinstance(y, str) else out.append(y)
            else:
                raise Fail('text')
        if isinstance(n, str):
            return (n,) if n else ()
        while n.op == 'ite':
            n = n.args[1] if self.cond1(n.args[0], env) else n.args[2]
        if n.op == 'str':
            put(n.args[0])
        elif n.op == 'symstr':
            out.append(('sym', n.args[0]))
        elif n.op == 'strcat':
            for p in n.args:
                put(p if isinstance(p, str) else ('s', self.text(p, env)))
        elif n.op == 'fmt':
            x = self.any(n.args[0], env)
            spec, cv = n.args[1], n.args[2]
            if isinstance(x, tuple) and x and x[0] == 's' and not spec and cv in (-1, 115):
                put(x)
            else:
                out.append(('fmt', _dt(x), spec, -1 if cv == 115 else cv))
        elif n.op == 'join':
            l = n.args[1]
            while l.op == 'ite':
                l = l.args[1] if self.cond1(l.args[0], env) else l.args[2]
            if l.op != 'list':
                raise Fail('join')
            its = []
            for x in l.args:
                its.extend(self.items(x, env))
            for i, x in enumerate(its):
                if i:
                    put(n.args[0] if isinstance(n.args[0], str) else ('s', self.text(n.args[0], env)))
                put(x)
        elif n.op == 'unk':
            raise Fail('unk')
        else:
            raise Fail('text')
        return tuple(out)

    def items(self, x, env):
        while x.op == 'ite':
            x = x.args[1] if self.cond1(x.args[0], env) else x.args[2]
        if x.op == 'segmap':
            l = x.args[0]
            while l.op == 'ite':
                l = l.args[1] if self.cond1(l.args[0], env) else l.args[2]
            k = int(self.num(l.args[1][0], env))
            out = []
            for i in range(k):
                e2 = dict(env)
                e2[T.node('bv', l.args[0], 0)] = i
                b = l.args[2]
                out.append(self.dig(b, e2))
            return out
        if x.op == 'segs':
            out = []
            for y in x.args:
                while y.op == 'ite':
                    y = y.args[1] if self.cond1(y.args[0], env) else y.args[2]
                if y.op == 'list':
                    for z in y.args:
                        out.extend(self.items(z, env))
                else:
                    out.extend(self.items(y, env))
            return out
        return [self.dig(x, env)]


def _dt(v):
    if isinstance(v, (list, tuple)):
        return tuple(_dt(x) for x in v)
    return rnd(v)


_openmemo = {}


def _open(n):
    """does n mention a variable bound outside of it (bv not bound inside, fs/ft)"""
    if not isinstance(n, N):
        return any(_open(x) for x in n) if isinstance(n, tuple) else False
    r = _openmemo.get(n)
    if r is None:
        r = bool(_fb(n))
        _openmemo[n] = r
    return r


_fbm = {}


def _fb(n):
    if isinstance(n, tuple):
        s = frozenset()
        for x in n:
            s |= _fb(x)
        return s
    if not isinstance(n, N):
        return frozenset()
    r = _fbm.get(n)
    if r is not None:
        return r
    if n.op == 'bv':
        r = frozenset([n])
    elif n.op in ('fs', 'ft', 'fslen', 'iv'):
        r = frozenset([n])
    else:
        r = frozenset()
        for x in n.args:
            r |= _fb(x)
        if n.op in T.BINDERS:
            h = n.args[0]
            rr = frozenset()
            for x in n.args[1]:
                rr |= _fb(x)
            r = frozenset(v for v in r if not (v.op == 'bv' and v.args[0] == h)) | rr
        if n.op == 'folddesc':
            hs = [v.args[0] for v in r if v.op in ('fs', 'ft', 'fslen')]
            if hs:
                m = max(hs)
                r = frozenset(v for v in r if not (v.op in ('fs', 'ft', 'fslen') and v.args[0] == m))
    _fbm[n] = r
    return r


def inverse(m):
    n = len(m)
    a = [list(r) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < 1e-9:
            raise Undef('singular')
        a[c], a[p] = a[p], a[c]
        d = a[c][c]
        a[c] = [x / d for x in a[c]]
        for r in range(n):
            if r != c and a[r][c]:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]


def det(m):
    n = len(m)
    a = [list(r) for r in m]
    d = 1.0
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if a[p][c] == 0:
            return 0.0
        if p != c:
            a[c], a[p] = a[p], a[c]
            d = -d
        d *= a[c][c]
        for r in range(c + 1, n):
            f = a[r][c] / a[c][c]
            a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return d


def close(a, b, tol=1e-6, unit=1.0):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and float(a) == float(b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(unit, abs(a), abs(b))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y, tol, unit) for x, y in zip(a, b))
    return a == b


def symbols(*ts):
    syms, arrs = set(), set()
    for t in ts:
        for u in T.subterms(t) if isinstance(t, N) else []:
            if u.op == 'sym':
                syms.add(u)
            elif u.op == 'arr':
                arrs.add(u)
    return syms, arrs


def free_env(ev, ts):
    fv = set()
    for t in ts:
        if isinstance(t, N):
            fv |= {x for x in t.fv if x.op == 'iv'}
    env = {}
    for x in sorted(fv, key=lambda x: x.id):
        r = T._ranges.get(x)
        try:
            hi = int(ev.num(r, env)) if r is not None else 3
        except (Fail, Undef):
            hi = 3
        if hi <= 0:
            return None
        env[x] = int(hsh(('iv', x.id), ev.v.seed) * hi)
    return env


def thresholds(ts):
    """numeric thresholds the graphs compare against: (real thresholds, size thresholds)"""
    seen, reals, sizes = set(), set(), set()
    st = [t for t in ts if t is not None]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, list)):
            st.extend(x)
            continue
        if not isinstance(x, N) or x in seen:
            continue
        seen.add(x)
        st.extend(x.args)
        if x.op not in ('lt0', 'eq0') or not isinstance(x.args[0], N) or x.args[0].op != 'poly':
            continue
        p = x.args[0].args[0]
        c = [k for m, k in p if not m]
        rest = [(m, k) for m, k in p if m]
        if not c or not rest:
            continue
        ints = all(a.op == 'sym' and len(a.args) > 1 and a.args[1] == 'int' for m, k in rest for a, e in m)
        for m, k in rest[:3]:
            v = float(-c[0] / k)
            if ints and len(rest) == 1 and len(m) == 1:
                if 3 < v < 100000:
                    sizes.add((m[0][0].args[0], int(v)))
            elif v:
                reals.add(v)
                break
    return sorted(reals, key=abs)[:8], sorted(sizes)[:4]


def plain(trials, dims, modes):
    """the usual valuations, then alternating with special ones: coinciding values, nearly equal values, extreme draws"""
    for k in range(trials):
        yield 1000 + k, k % 3 == 2, dict(dims or {}), None, 1.0, ''
        if k >= 9:
            m = modes[k % len(modes)]
            yield 5000 + k, False, dict(dims or {}), None, 1.0, m


def valuations(trials, dims, ts):
    first = plain(trials, dims, ('two', 'near', 'two', 'tail'))
    yield from itertools.islice(first, 16)
    yield from special(dims, ts)
    yield from first


def special(dims, ts):
    """sizes and values around the thresholds the graphs compare against"""
    reals, sizes = thresholds(ts)
    for q, (nm, c) in enumerate(sizes):
        for off in (0, 1, 2, 1) if c < 200 else (1, 2):
            yield 2000 + 10 * q + off, False, dict(dims or {}, **{nm: c + off}), None, 1.0, ''
        if 16 < c <= 5000:
            for k, f in enumerate((1, 3, 1, 3, 1, 3)):
                yield 2700 + 10 * q + k, False, dict(dims or {}, **{nm: c + f * c}), None, 1.0, ''
        if c <= 24:
            names = {x.args[0] for x in symbols(*ts)[0] if len(x.args) > 1 and x.args[1] in ('int', 'dim')}
            for off in (1, 2):
                yield 2000 + 10 * q + 4 + off, False, dict(dims or {}, **{x: c + off for x in names}), None, 1.0, ''
            for k, x in enumerate(sorted(names - {nm})[:6]):
                for sd, off in enumerate((1, c, c, c, c)):
                    yield 2100 + 20 * k + sd, False, dict({y: 1 + (k + sd) % 3 for y in names}, **dict(dims or {}, **{nm: c + off, x: c + off + 1})), None, 1.0, ''
        if c <= 64:
            for k in range(24):
                yield 2500 + 30 * q + k, k % 2 == 1, dict(dims or {}, **{nm: 2 * c}), None, 1.0, '' if k % 2 else 'wide'
    pool = sorted(set(reals) | {-x for x in reals} | {0.0})
    if reals:
        for k in range(8):
            yield 3000 + k, k % 2 == 1, dict(dims or {}), pool, 1.0, ''
    for q, c in enumerate(reals):
        if abs(c) < 0.15 or abs(c) > 2.5:
            for j, f in enumerate((0.1, 0.6, 3.0) if abs(c) > 1e-4 else (0.4, 3.0, 0.1, 0.4, 0.4, 0.4, 0.4, 0.4)):
                for k in range(2):
                    yield 4000 + 20 * q + 2 * j + k, False, dict(dims or {}), None, abs(c) * f, ''


def dbg(e):
    import os
    if os.environ.get('VERIF_DIFF'):
        import sys
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1] if isinstance(e, Exception) else ''
        print('differ:', type(e).__name__, e, tb and f'{tb.filename}:{tb.lineno}', file=sys.stderr)


def probability(t):
    while isinstance(t, N) and t.op in ('lam', 'ite'):
        t = t.args[-1]
    return isinstance(t, N) and t.op == 'fn' and t.args[0] == 'normcdf'


def differ(a, b, pre=None, trials=24, dims=None, limit=300000, checks=None):
    """search a valuation separating a and b (under pre).  -> (witness text | None, number of valuations compared)"""
    done = 0
    fails = 0
    wits = []
    small = False
    # tail probabilities are evaluated to full relative accuracy: compare them relatively
    unit = 1e-250 if probability(a) and probability(b) else None
    import time
    t0 = time.time()
    for sd, grid, dm, pool, scale, mode in valuations(trials, dims, (a, b, pre)):
        if time.time() - t0 > 60:
            break
        v = Val(sd, dm, grid, pool=pool, scale=scale, mode=mode, small=small)
        try:
            lim = limit * 2 if any(x > 60 for x in dm.values() if isinstance(x, int)) else limit
            ev = Evl(v, lim)
            env0 = free_env(ev, (a, b, pre))
            if env0 is None:
                continue
            if pre is not None and not ev.cond(pre, dict(env0)):
                continue
            try:
                x = ev.any(a, dict(env0))
                ux = None
            except Undef as e:
                x, ux = None, str(e)
            try:
                y = Evl(v, lim).any(b, dict(env0))
                uy = None
            except Undef as e:
                y, uy = None, str(e)
            if ux or uy:
                dbg(ux or uy)
                continue
            done += 1
            if not close(x, y, unit=unit or min(1.0, max(scale, 1e-9))):
                # guard against rounding noise: two independent valuations have to separate the terms
                wits.append({'seed': sd, 'grid': grid, 'pool': pool, 'scale': scale, 'mode': mode, 'left': short(x), 'right': short(y)})
                if len(wits) >= 2:
                    return wits[0], done
        except Fail as e:
            dbg(e)
            fails += 0.3 if e.args == ('budget',) else 1
            small = small or e.args == ('budget',)
            if fails > 6:
                return None, done
        except (RecursionError, ZeroDivisionError, OverflowError, IndexError, TypeError, KeyError, ValueError) as e:
            dbg(e)
            fails += 1
            if fails > 6:
                return None, done
    return None, done


def short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'
