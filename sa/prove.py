"""Deciding equality of two value graphs under a path condition.

proved      identical after normalisation, or identical in every feasible case of a
            case analysis on the conditions both graphs contain
differs     not provable and a valuation separates the graphs (random interpretation
            of the two terms; see evalt)
undecided   neither
"""
import time
from . import terms as T
from .terms import N, TRUE, FALSE, node, isnum
from . import lin
from .lin import Facts, facts_of
from . import evalt
from . import nl


class Budget(Exception):
    pass


class Prover:
    def __init__(self, budget=4000, seconds=20):
        self.n = 0
        self.budget = budget
        self.deadline = time.time() + seconds

    def tick(self):
        self.n += 1
        if self.n > self.budget or time.time() > self.deadline:
            raise Budget

    UNI = {'opt', 'app', 'inv', 'chol', 'scan', 'argmin', 'minred', 'maxred', 'det', 'logdet', 'detsign', 'lt0', 'eq0'}

    def closed(self, x, acc):
        seen = set()
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, tuple):
                st.extend(y)
                continue
            if not isinstance(y, N) or y in seen:
                continue
            seen.add(y)
            if y.op in self.UNI and not y.fv and not evalt._open(y):
                acc.append(y)
            st.extend(y.args)
        return acc

    def unify(self, a, b):
        """replace sub-terms of b by provably equal sub-terms of a (innermost first)"""
        for rnd in range(6):
            ca = self.closed(a, [])
            sa, cb = set(ca), self.closed(b, [])
            sb = set(cb)
            ua = sorted((x for x in ca if x not in sb and x.op not in ('lt0', 'eq0')), key=lambda x: x.id)
            ub = sorted((x for x in cb if x not in sa and x.op not in ('lt0', 'eq0')), key=lambda x: x.id)
            mp = {}
            tries = 0
            for y in ub:
                for x in ua:
                    if x.op != y.op or x in mp.values() or tries > 60:
                        continue
                    if x.op == 'app' and (x.args[0] != y.args[0] or x.args[1] is not y.args[1] and not isinstance(x.args[1], N) and x.args[1] != y.args[1]):
                        continue
                    tries += 1
                    p = Prover(budget=600, seconds=4)
                    p.nouni = True
                    try:
                        if p.congr(x, y, Facts(), TRUE):
                            mp[y] = x
                            break
                    except (Budget, lin.Budget, RecursionError):
                        pass
                if mp:
                    break
            if not mp:
                return b
            b = T.subst(b, mp)
            if a is b:
                return b
        return b

    # -------------------------------------------------------------- main
    def same(self, a, b, f, pc=TRUE):
        self.tick()
        if a is b:
            return True
        if isinstance(a, tuple) or isinstance(b, tuple):
            return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(self.same(x, y, f, pc) for x, y in zip(a, b))
        if not isinstance(a, N) or not isinstance(b, N):
            return a == b and type(a) is type(b)
        if pc is not TRUE:
            a, b = T.simp(a, pc), T.simp(b, pc)
            if a is b:
                return True
        at = self.pick(a, b)
        if at is not None:
            v = f.decide(at) if at.op in ('lt0', 'eq0') else None
            if v is None and at.op == 'lt0':
                v = nl.decide(at, f)
            for val in (True, False):
                if v is not None and v != val:
                    continue
                g = f.child(at, val)
                if g.bad:
                    continue
                c = T.ite(T.node('ite', at, TRUE, FALSE), TRUE, FALSE) if False else T.node('ite', at, TRUE, FALSE)
                p2 = T.band(pc, c if val else T.bnot(c))
                if p2 is FALSE:
                    continue
                if not self.same(T.cof(a, at, val), T.cof(b, at, val), g, p2):
                    return False
            return True
        ms = lin.eq_map(f)
        if ms:
            a, b = lin.apply_eqs(a, ms), lin.apply_eqs(b, ms)
            if a is b:
                return True
            if self.pick(a, b) is not None:
                return self.same(a, b, f, pc)
        if f.infeasible():
            return True
        if self.numeric(a) and self.numeric(b):
            return self.samenum(a, b, f, pc)
        if a.op in T.BINDERS and b.op == a.op:
            return self.binder(a, b, f, pc)
        if a.op == b.op and len(a.args) == len(b.args):
            return all(self.same(x, y, f, pc) for x, y in zip(a.args, b.args))
        return False

    def pick(self, a, b):
        ats = set()
        if a.op == 'ite':
            ats.add(a.args[0])
        if b.op == 'ite':
            ats.add(b.args[0])
        if not ats:
            return None
        return min(ats, key=lambda x: x.id)

    def numeric(self, a):
        return a.op in ('num', 'poly') or a.op in evalt.NUMOPS

    def binder(self, a, b, f, pc):
        if len(a.args) != len(b.args):
            return False
        r1, r2 = a.args[1], b.args[1]
        if len(r1) != len(r2):
            return False
        mp1, mp2, vs = {}, {}, []
        for p in range(len(r1)):
            v = T.fresh()
            T.set_range(v, T.subst_bv(r1[p], mp1) if mp1 else r1[p])
            mp1[T.node('bv', a.args[0], p)] = v
            mp2[T.node('bv', b.args[0], p)] = v
            vs.append(v)
        for x, y in zip(r1, r2):
            if not self.same(T.subst_bv(x, mp1), T.subst_bv(y, mp2), f, pc):
                return False
        b1, b2 = T.subst_bv(a.args[2], mp1), T.subst_bv(b.args[2], mp2)
        if not self.same(b1, b2, f, pc):
            return False
        return all(self.same(x, y, f, pc) for x, y in zip(a.args[3:], b.args[3:]))

    def samenum(self, a, b, f, pc):
        d = T.sub(a, b)
        if isnum(d):
            return T.val(d) == 0
        if d.op == 'ite':
            return self.same(d, T.num(0), f, pc)
        try:
            if T.is_zero(d):
                return True
        except RecursionError:
            pass
        if f.entails_le(d) and f.entails_le(T.neg(d)):
            return True
        # congruence on the atoms of the difference: unify provably equal atoms of the same kind
        ats = []
        for mono in T.poly(d):
            for at, e in mono:
                if at not in ats:
                    ats.append(at)
        mp = {}
        cand = [x for x in ats if x.op not in ('sym', 'iv', 'bv', 'arr', 'pi')]
        for i, x in enumerate(cand):
            if x in mp:
                continue
            for y in cand[:i]:
                if y in mp or y.op != x.op:
                    continue
                if self.congr(x, y, f, pc):
                    mp[x] = y
                    break
        if not mp:
            # conditions inside atoms: refine with the facts
            return self.refine(d, ats, f, pc)
        d2 = T.subst(d, mp)
        if isnum(d2):
            return T.val(d2) == 0
        if d2 is d:
            return False
        return self.same(d2, T.num(0), f, pc)

    def refine(self, d, ats, f, pc):
        mp = {}
        for x in ats:
            y = self.rewrite(x, f, pc)
            if y is not x:
                mp[x] = y
        if not mp:
            return False
        d2 = T.subst(d, mp)
        if isnum(d2):
            return T.val(d2) == 0
        if d2 is d:
            return False
        return self.same(d2, T.num(0), f, pc)

    def rewrite(self, x, f, pc):
        """simplify the conditions buried in an atom with the facts in force"""
        self.tick()
        if x.op in T.BINDERS:
            vs, body = T.open_binder(x)
            b2 = lin.prune(body, Facts(f))
            if b2 is body:
                return x
            rs = x.args[1]
            mp = {}
            if x.op == 'lam':
                return T.mk_lam(vs, [T.subst_bv(r, {T.node('bv', x.args[0], p): v for p, v in enumerate(vs)}) for r in rs], b2)
            if x.op == 'sum':
                return T.mk_sum([(v, T.subst_bv(r, {T.node('bv', x.args[0], p): v for p, v in enumerate(vs)})) for v, r in zip(vs, rs)], b2)
            return x
        return x

    def congr(self, x, y, f, pc):
        if x.op in T.BINDERS:
            return self.binder(x, y, f, pc)
        return len(x.args) == len(y.args) and all(self.same(p, q, f, pc) for p, q in zip(x.args, y.args))


class Res:
    def __init__(self, status, info=None, steps=0):
        self.status, self.info, self.steps = status, info, steps

    def __bool__(self):
        return self.status == 'proved'

    def __repr__(self):
        return f'{self.status}{"" if self.info is None else " " + str(self.info)[:300]}'


def has_unk(x):
    return isinstance(x, N) and T.contains(x, lambda y: isinstance(y, N) and y.op == 'unk')


def same(a, b, pre=TRUE, dims=None, seconds=20, trials=40):
    if pre is FALSE or a is b:
        return Res('proved', steps=1)
    p = Prover(seconds=seconds)
    try:
        f = facts_of(pre)
        a0, b0 = T.simp(a, pre), T.simp(b, pre)
        if a0 is not b0 and not f.bad:
            b1 = p.unify(a0, b0)
            if b1 is a0:
                return Res('proved', steps=p.n + 1)
            b = b1
        if f.bad or p.same(T.simp(a, pre), T.simp(b, pre), f, pre):
            return Res('proved', steps=p.n)
    except (Budget, lin.Budget, RecursionError):
        pass
    if has_unk(a) or has_unk(b):
        w, k = evalt.differ(a, b, pre, trials=trials, dims=dims)
        if w is not None:
            return Res('differs', w, p.n)
        return Res('undecided', 'unknown construct in the value graph', p.n)
    w, k = evalt.differ(a, b, pre, trials=trials, dims=dims)
    if w is not None:
        return Res('differs', w, p.n)
    return Res('undecided', f'no proof; {k} valuations agree', p.n)


def always(c, pre=TRUE, dims=None, seconds=20, trials=40):
    """condition c holds whenever pre does"""
    return same(c, TRUE, pre, dims, seconds, trials)
