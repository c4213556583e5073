"""Sign of a polynomial term under linear facts: vertex / ray rules.

p = A + B*x affine in an atom x with  L <= x <= U :
   p <= 0   if  p[x:=L] <= 0 and p[x:=U] <= 0        (an affine function is largest at an end)
   p <= 0   if  p[x:=U] <= 0 and B >= 0,   or   p[x:=L] <= 0 and B <= 0
Common factors of known sign are divided out and positive denominators multiplied in;
integer-valued polynomials need only be below one.
"""
from fractions import Fraction
from . import terms as T
from .terms import N, poly, isint, bounds, isnum
from .lin import Facts

F1 = Fraction(1)


def atom(m):
    return T.mk({((m, F1),): F1}) if isinstance(m, N) else T.mk({m: F1})


def split(p, x):
    """A, B with p = A + B*x, or None"""
    A, B = {}, {}
    for m, c in poly(p).items():
        e = [k for a, k in m if a is x]
        if not e:
            A[m] = c
        elif e[0] == 1:
            B[tuple((a, k) for a, k in m if a is not x)] = c
        else:
            return None
    if not B:
        return None
    return T.mk(A) if A else T.ZERO, T.mk(B)


def atoms(p):
    out = []
    for m in poly(p):
        for a, k in m:
            if a not in out:
                out.append(a)
    return out


def rng(f, x):
    lo, hi = [], []
    b = bounds(x)
    if b[0] is not None:
        lo.append((T.num(b[0]), False))
    if b[1] is not None:
        hi.append((T.num(b[1]), False))
    if x.op == 'draw' and x.args and x.args[0] == 'unit':
        lo.append((T.ZERO, False))
        hi.append((T.ONE, True))
    if x.op == 'floor':
        y = x.args[0]
        if isinstance(y, N) and y.op != 'ite':
            hi.append((y, False))
            lo.append((T.sub(y, T.ONE), True))
    if x.op == 'iv':
        h = T._ranges.get(x)
        lo.append((T.ZERO, False))
        if h is not None and h.op != 'ite':
            hi.append((T.sub(h, T.ONE), False))
    key = ((x, F1),)
    for d, c, s in f.rows:
        k = None
        for m, v in d.items():
            if m == key or (len(m) == 1 and m[0][0] is x and m[0][1] == 1):
                k = v
        if k is None:
            continue
        if any(any(a is x for a, _ in m) for m in d if not (len(m) == 1 and m[0][0] is x)):
            continue
        rest = {m: -v / k for m, v in d.items() if not (len(m) == 1 and m[0][0] is x)}
        if c:
            rest[()] = rest.get((), Fraction(0)) - c / k
        e = T.mk(rest) if rest else T.ZERO
        (hi if k > 0 else lo).append((e, s))
    return lo, hi


def put(p, x, e):
    return T.subst(p, {x: e}) if x.op in ('iv', 'sym') else replace(p, x, e)


def replace(p, x, e):
    s = split(p, x)
    return T.add(s[0], T.mul(s[1], e))


class Nl:
    def __init__(self, f, budget=400):
        self.f, self.n = f, budget
        self.memo = {}

    def le(self, p, depth=4, strict=False):
        k = (p, strict)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        r = self._le(p, depth, strict)
        self.memo[k] = r
        return r

    def _le(self, p, depth, strict):
        self.n -= 1
        f = self.f
        if self.n < 0:
            return False
        if isnum(p):
            return T.val(p) < 0 or (T.val(p) == 0 and not strict)
        if p.op == 'ite':
            return False
        if f.entails_lt(p) if strict else f.entails_le(p):
            return True
        if depth == 0:
            return False
        # denominators and common factors
        ms = list(poly(p).items())
        for a in atoms(p):
            mn = min(dict(m).get(a, 0) for m, _ in ms)
            if mn == 0:
                continue
            inner = self.base(a)
            if not self.pos(a):
                if not (mn > 0 and not strict and (self.nonneg(a) or mn.denominator == 1 and int(mn) % 2 == 0)):
                    continue
            s = T.ZERO
            for m, c in ms:
                r = T.num(c)
                for b, k in m:
                    if b is not a:
                        r = T.mul(r, T.power(self.base(b), k))
                k = dict(m).get(a, 0) - mn
                if k:
                    r = T.mul(r, T.power(inner, k))
                s = T.add(s, r)
            if s is not p and self.le(s, depth, strict):
                return True
        if not strict and isint(p) and self.le(T.sub(p, T.ONE), depth - 1, True):
            return True
        for x in sorted(atoms(p), key=lambda a: (a.op == 'sym', a.id)):
            ab = split(p, x)
            if ab is None or x.op != 'floor' and all(len(m) == 1 for m in poly(p) if any(a is x for a, _ in m)):
                continue
            B = ab[1]
            lo, hi = rng(f, x)
            bp = bn = None
            for e, s in hi:
                v = replace(p, x, e)
                if v.op == 'ite':
                    continue
                if bp is None:
                    bp = self.le(T.neg(B), depth - 1)
                if not bp:
                    break
                if self.le(v, depth - 1, strict) if not (s and strict) else (self.le(v, depth - 1, True) or self.le(v, depth - 1) and self.le(T.neg(B), depth - 1, True)):
                    return True
            for e, s in lo:
                v = replace(p, x, e)
                if v.op == 'ite':
                    continue
                if bn is None:
                    bn = self.le(B, depth - 1)
                if not bn:
                    break
                if self.le(v, depth - 1, strict) if not (s and strict) else (self.le(v, depth - 1, True) or self.le(v, depth - 1) and self.le(B, depth - 1, True)):
                    return True
            for e, _ in lo:
                if self.le(replace(p, x, e), depth - 1, strict):
                    for g, _ in hi:
                        if self.le(replace(p, x, g), depth - 1, strict):
                            return True
        return False

    def pos(self, a):
        a = self.base(a)
        lo, hi = rng(self.f, a)
        if any(isnum(e) and (T.val(e) > 0 or T.val(e) == 0 and s) for e, s in lo):
            return True
        return self.f.entails_lt(T.neg(a)) or self.f.entails_lt(T.neg(self.base(a)))

    def nonneg(self, a):
        a = self.base(a)
        lo, hi = rng(self.f, a)
        return any(isnum(e) and T.val(e) >= 0 for e, s in lo) or self.f.entails_le(T.neg(self.base(a)))

    def base(self, a):
        return a.args[0] if a.op == 'base' else a


def decide(at, f):
    """True / False / None for an lt0 atom"""
    if at.op != 'lt0':
        return None
    p = at.args[0]
    if p.op == 'ite' or all(len(m) <= 1 and (not m or m[0][1] == 1) for m in poly(p)):
        return None
    if len(poly(p)) > 60:
        return None
    if Nl(f).le(p, strict=True):
        return True
    if Nl(f).le(T.neg(p)):
        return False
    return None
