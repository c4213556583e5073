"""Symbolic inputs, runs of the abstract interpreter, opaque summaries."""
import os
import sys
import time
sys.setrecursionlimit(40000)
from .interp import *          # noqa: F401,F403
from .interp import Interp, Repo, DeadPath, Unsupported, ArrCell, mkarr
from . import terms as T
from .terms import node, mk_el, TRUE, FALSE
from .values import Sc, Bl, Op, Ref, Arr, f_, i_

ROOT = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_repo = []


def repo():
    if not _repo:
        _repo.append(Repo(ROOT, extra=(HERE, 'spec')))
    return _repo[0]


class Missing(Exception):
    """a public anchor is gone"""


class Out:
    __slots__ = ('val', 'enc', 'pc', 'events', 'dead', 'muts', 'err', 'heap', 'visited')


n, m, d, k = T.dim('n'), T.dim('m'), T.dim('d'), T.dim('k')
ONE = T.num(1)


class H:
    def __init__(self, opaque=None, imports=None, max_depth=60):
        self.it = Interp(repo(), opaque or {}, imports, max_depth)
        self.steps = 0

    # ---------------------------------------------------------------- inputs
    def arr(self, name, *shape, sign='', dt='real'):
        b = node('arr', name, sign)
        sh = [x if isinstance(x, T.N) else T.num(x) for x in shape]
        return self.it.alloc('arr', ArrCell(mkarr(sh, lambda *ix: mk_el(b, ix), dt), origin='arg:' + name))

    def carr(self, name, body_shape, f, dt='real'):
        sh = [x if isinstance(x, T.N) else T.num(x) for x in body_shape]
        return self.it.alloc('arr', ArrCell(mkarr(sh, f, dt), origin='arg:' + name))

    def fl(self, name, sign=''):
        return Sc(T.sym(name, 'real', sign), 'float')

    def int(self, name, lo=None):
        return Sc(T.dim(name) if lo == 1 else T.sym(name, 'int', 'nonneg') if lo == 0 else T.sym(name, 'int'), 'int')

    def dimv(self, t):
        return Sc(t, 'int')

    def c(self, v):
        return f_(v) if isinstance(v, float) else i_(v)

    def flag(self, name):
        return Bl(T.cond_atom('flag', name))

    def hyps(self, ard=True, noise='noise', sign='pos', **k):
        D = {'signal': self.fl('sig', sign), 'lengthscales': self.arr('ls', d, sign='pos') if ard else self.fl('ls', 'pos'),
             'noise': self.fl(noise, sign)}
        D.update(k)
        return self.it.newdict(D, origin='arg:hyps')

    def user(self, name, shape=None, sign='', record=True, elementwise=False):
        """an arbitrary caller-supplied function: its result is an unknown function of its arguments"""
        def call(interp, args, kw):
            ea = tuple(interp.enc(a) for a in args) + tuple(node('kv', q, interp.enc(v)) for q, v in sorted(kw.items()))
            if record:
                interp.note('user', (name, ea))
            if any(t.swallow for t in interp.tries):  # caught: the function of the caller may raise anything
                interp.may_raise(T.cond_atom('raises', name, *ea), 'UserError')
            base = node('app', name, *ea)
            if shape is None:
                return Sc(mk_el(node('appv', name, *ea), (T.num(0),)), 'float')
            sh = shape(interp, args)
            return interp.newarr(mkarr(sh, lambda *ix: mk_el(base, ix)))
        return Op(node('user', name), 'callable', {'call': call})

    # ---------------------------------------------------------------- runs
    def look(self, path):
        try:
            f = self.it.lookup_path(path)
        except (KeyError, AttributeError, Unsupported):
            f = None
        if f is None or (isinstance(f, Op) and f.n.op == 'unk'):
            raise Missing(path)
        return f

    keep = False

    def reset(self, pc=TRUE):
        it = self.it
        it.pc, it.alive = pc, True
        it.tries, it.loops, it.funs, it.callstack = [], [], [], []
        it.depth = 0
        if not self.keep:               # otherwise generators go on from where earlier calls left them
            it.rngkeys = {}
        it.loopvars = []
        it.scope = [dict()]

    def call(self, f, args=(), kw=None, pc=TRUE):
        """f: dotted path or callable value"""
        it = self.it
        if isinstance(f, str):
            f = self.look(f)
        self.reset(pc)
        e0, m0 = len(it.events), len(it.muts)
        o = Out()
        o.dead, o.err, o.val, o.enc = False, None, None, None
        try:
            o.val = it.call(f, list(args), dict(kw or {}))
            o.enc = it.enc(o.val)
        except DeadPath:
            o.dead = True
        o.pc = FALSE if o.dead else it.pc
        o.events = it.events[e0:]
        o.muts = it.muts[m0:]
        return o

    def new(self, cls, args=(), kw=None):
        self.reset()
        c = self.look(cls)
        try:
            return self.it.call(c, list(args), dict(kw or {}))
        except DeadPath:
            return None

    def meth(self, o, name):
        try:
            v = self.it.getattr(o, name)
        except (AttributeError, KeyError):
            v = None
        if v is None or (isinstance(v, Op) and v.n.op == 'unk'):
            raise Missing(name)
        return v


def evs(o, *kinds):
    return [e for e in o.events if e.kind in kinds]


# -------------------------------------------------------------------- opaque summaries
def argsenc(it, b, skip=()):
    return tuple(node('kv', q, it.enc(v)) for q, v in b.items() if q not in skip and q != 'self')


def opq(name, *outs, skip=(), cap=None):
    """summary of a function as an uninterpreted function of its (bound) arguments.
    outs: ('arr', shape(it,b), sign) | ('sc', sign) | ('none',)"""
    def summ(it, b):
        ea = argsenc(it, b, skip)
        it.note('opq', (name, {q: it.enc(v) for q, v in b.items() if q not in skip and q != 'self'}))
        rs = []
        for i, o in enumerate(outs):
            base = node('app', name, i, *ea)
            if o[0] == 'arr':
                sh = o[1](it, b)
                rs.append(it.newarr(mkarr(sh, lambda *ix, base=base: mk_el(base, ix))))
            elif o[0] == 'sc':
                rs.append(Sc(mk_el(base, (T.num(0),)), 'float'))
            elif o[0] == 'op':
                rs.append(Op(base, o[1] if len(o) > 1 else None))
            else:
                rs.append(None)
        return rs[0] if len(rs) == 1 else tuple(rs)
    return summ
