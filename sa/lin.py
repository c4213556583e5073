"""Linear facts about value-graph terms (a small polyhedral domain).

Used to discard branch combinations of a gated value graph that cannot occur
together (k == 0 and k - 1 == 0, i < j and j < i, ...) and to decide interval
questions about indices.  Monomials are the dimensions of the polyhedron.
"""
from fractions import Fraction
from . import terms as T
from .terms import N, poly, isint, bounds, mkite, isnum, _ranges

F0, F1 = Fraction(0), Fraction(1)
CAP = 260


def _row(p):
    """linear form of polynomial p: ({monomial: coef}, const)"""
    d, c = {}, F0
    for m, k in poly(p).items():
        if not m:
            c += k
        else:
            d[m] = d.get(m, F0) + k
    return d, c


class Facts:
    __slots__ = ('rows', 'neq', 'eqs', 'bad', 'seen')

    def __init__(self, other=None):
        if other is None:
            self.rows, self.neq, self.eqs, self.bad, self.seen = [], [], [], False, set()
        else:
            self.rows, self.neq, self.eqs = list(other.rows), list(other.neq), list(other.eqs)
            self.bad, self.seen = other.bad, set(other.seen)

    # ---- adding
    def le(self, p, strict=False):
        """p <= 0 (p < 0 if strict)"""
        if p.op not in ('poly', 'num') and p.op == 'ite':
            return self
        if isnum(p):
            v = T.val(p)
            if v > 0 or (strict and v == 0):
                self.bad = True
            return self
        d, c = _row(p)
        if strict and isint(p):
            c, strict = c + 1, False
        self._vars(d)
        self.rows.append((d, c, strict))
        return self

    def _vars(self, d):
        for m in d:
            if m in self.seen:
                continue
            self.seen.add(m)
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a.op == 'iv':
                    self.rows.append(({m: -F1}, F0, False))
                    hi = _ranges.get(a)
                    if hi is not None and hi.op != 'ite':
                        q = T.sub(T.add(a, T.ONE), hi)
                        dd, c = _row(q)
                        self._vars(dd)
                        self.rows.append((dd, c, False))
                    continue
                if a.op == 'drawint':
                    for q in (T.sub(a.args[1], a), T.sub(T.add(a, T.ONE), a.args[2])):
                        if q.op != 'ite':
                            dd, c = _row(q)
                            self._vars(dd)
                            self.rows.append((dd, c, False))
                    continue
                if a.op in ('argmin',):
                    self.rows.append(({m: -F1}, F0, False))
                    if len(a.args[0]) == 1 if isinstance(a.args[0], tuple) else False:
                        pass
                if a.op == 'floor':
                    # y-1 < floor(y) <= y
                    y = a.args[0]
                    if isinstance(y, N) and y.op != 'ite':
                        q = T.sub(a, y)
                        dd, c = _row(q)
                        self.rows.append((dd, c, False))
                        self.rows.append(({k: -v for k, v in dd.items()}, -c - 1, True))
                        self._vars(dd)
            lo, hi = bounds(T.mk({m: F1}))
            if lo is not None:
                self.rows.append(({m: -F1}, lo, False))
            if hi is not None:
                self.rows.append(({m: F1}, -hi, False))

    def add(self, atom, value):
        if atom.op == 'lt0':
            p = atom.args[0]
            if value:
                self.le(p, True)
            else:
                self.le(T.neg(p))
        elif atom.op == 'eq0':
            p = atom.args[0]
            if value:
                self.le(p)
                self.le(T.neg(p))
                self.eqs.append(p)
            else:
                self.neq.append(p)
                self._refine()
                return self
        if self.neq:
            self._refine()
        return self

    def _refine(self):
        for p in list(self.neq):
            if not isint(p):
                if self.entails_le(p) and self.entails_le(T.neg(p)):
                    self.bad = True
                continue
            a = self.entails_le(p)
            b = self.entails_le(T.neg(p))
            if a and b:
                self.bad = True
                return
            if a:
                self.neq.remove(p)
                self.le(T.add(p, T.ONE))
            elif b:
                self.neq.remove(p)
                self.le(T.sub(T.ONE, p))

    def child(self, atom, value):
        f = Facts(self)
        return f.add(atom, value)

    # ---- queries
    def infeasible(self, extra=()):
        if self.bad:
            return True
        rows = self.rows
        if extra:
            f = Facts(self)
            for p, s in extra:
                f.le(p, s)
            if f.bad:
                return True
            rows = f.rows
            key = set()
            for p, s in extra:
                key |= set(_row(p)[0])
            rows = component(rows, key)
        return fm(rows)

    def entails_le(self, p):
        if isnum(p):
            return T.val(p) <= 0
        if p.op == 'ite':
            return False
        q = T.neg(p)
        return self.infeasible([(q, True)])

    def entails_lt(self, p):
        if isnum(p):
            return T.val(p) < 0
        if p.op == 'ite':
            return False
        return self.infeasible([(T.neg(p), False)])

    def decide(self, atom):
        """True / False / None"""
        if atom.op == 'lt0':
            p = atom.args[0]
            if self.entails_lt(p):
                return True
            if self.entails_le(T.neg(p)):
                return False
            return None
        if atom.op == 'eq0':
            p = atom.args[0]
            if p in self.neq:
                return False
            a, b = self.entails_le(p), self.entails_le(T.neg(p))
            if a and b:
                return True
            if self.entails_lt(p) or self.entails_lt(T.neg(p)):
                return False
            return None
        return None


def component(rows, key):
    key = set(key)
    left = list(rows)
    out = []
    ch = True
    while ch:
        ch = False
        rest = []
        for r in left:
            if any(m in key for m in r[0]):
                out.append(r)
                for m in r[0]:
                    if m not in key:
                        key.add(m)
                        ch = True
            else:
                rest.append(r)
        left = rest
    return out


def fm(rows):
    """True when the rows  sum(c*m) + k <= 0 (or < 0) are infeasible over the rationals."""
    cur = {}

    def put(tab, d, c, s):
        d = {m: v for m, v in d.items() if v != 0}
        if not d:
            return c > 0 or (s and c == 0)
        piv = abs(next(iter(sorted(d.items(), key=lambda t: (id(t[0]),))))[1])
        key = frozenset((m, v / piv) for m, v in d.items())
        c = c / piv
        o = tab.get(key)
        if o is None or c > o[0] or (c == o[0] and s and not o[1]):
            tab[key] = (c, s)
        return False
    for d, c, s in rows:
        if put(cur, d, c, s):
            return True
    while True:
        ms = {}
        for key in cur:
            for m, v in key:
                a, b = ms.get(m, (0, 0))
                ms[m] = (a + 1, b) if v > 0 else (a, b + 1)
        if not ms:
            return False
        m = min(ms, key=lambda x: ms[x][0] * ms[x][1])
        nxt = {}
        pos, ng = [], []
        for key, (c, s) in cur.items():
            d = dict(key)
            v = d.get(m)
            if v is None:
                nxt[key] = (c, s)
            elif v > 0:
                pos.append((d, c, s))
            else:
                ng.append((d, c, s))
        if len(nxt) + len(pos) * len(ng) > CAP:
            return False
        for d1, c1, s1 in pos:
            for d2, c2, s2 in ng:
                a, b = -d2[m], d1[m]
                dd = {}
                for k, v in d1.items():
                    dd[k] = dd.get(k, F0) + a * v
                for k, v in d2.items():
                    dd[k] = dd.get(k, F0) + b * v
                dd.pop(m, None)
                if put(nxt, dd, a * c1 + b * c2, s1 or s2):
                    return True
        cur = nxt


class Budget(Exception):
    pass


def facts_of(pc):
    """facts that hold on every path to TRUE of pc (conjunctive part)"""
    f = Facts()
    c = pc
    while c.op == 'ite':
        at, a, b = c.args
        if a is T.FALSE:
            f.add(at, False)
            c = b
        elif b is T.FALSE:
            f.add(at, True)
            c = a
        else:
            break
    return f


def prune(x, facts=None, cap=3000, leaf=None):
    """drop infeasible branches of an ite-DAG; returns x itself when the budget is exceeded"""
    if x.op != 'ite':
        return x if leaf is None else leaf(x, facts or Facts())
    f = facts or Facts()
    cnt = [0]

    def go(y, f):
        if y.op != 'ite':
            return y if leaf is None else leaf(y, f)
        cnt[0] += 1
        if cnt[0] > cap:
            raise Budget
        at = y.args[0]
        if at.op in ('lt0', 'eq0'):
            v = f.decide(at)
            if v is not None:
                return go(y.args[1] if v else y.args[2], f)
            ft, ff = f.child(at, True), f.child(at, False)
            if ft.bad:
                return go(y.args[2], ff)
            if ff.bad:
                return go(y.args[1], ft)
            return mkite(at, go(y.args[1], ft), go(y.args[2], ff))
        return mkite(at, go(y.args[1], f), go(y.args[2], f))
    try:
        return go(x, f)
    except Budget:
        return x


def eqsubst(y, f):
    """rewrite a leaf with the equalities known on its path (index variables eliminated)"""
    return apply_eqs(y, eq_map(f))


def eq_map(f):
    ms = []
    for p in f.eqs:
        for v, e in ms:
            p = T.subst(p, {v: e})
        if p.op == 'ite' or isnum(p):
            continue
        for v in sorted((v for v in p.fv if v.op == 'iv'), key=lambda v: -v.id):
            e = T.solve_for(p, v)
            if e is not None and v not in e.fv:
                ms.append((v, e))
                break
    return ms


def apply_eqs(y, ms):
    for v, e in ms:
        y = T.subst(y, {v: e})
    return y
