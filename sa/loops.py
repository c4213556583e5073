"""Summaries of loops over symbolic ranges.

The body is interpreted once with every loop-carried location replaced by a
state symbol; the resulting update functions are recognised as sums, minima,
searches, fills, appends, filters - or kept as a canonical recurrence.
"""
import ast
from .terms import *
from . import terms as T
from .values import *


class LoopFail(Exception):
    pass


class St:
    __slots__ = ('loc', 'k', 'n', 'kind', 'init', 'shape', 'dt', 'ty', 'ty1', 'res', 'closed', 'ph', 'len0', 'step', 'proto', 'extra', 'lensym')


_uid = [0]


# ---------------------------------------------------------------- heap differences

from . import lin


def diff_locs(h0, h1):
    out = []
    for i, c0 in h0.items():
        c1 = h1.get(i)
        if c1 is None or c1 is c0:
            continue
        if isinstance(c0, Frame):
            for n in c1.vars:
                if c1.vars[n] is not c0.vars.get(n, UNDEF):
                    if n.startswith('$') and n not in ('$x',):
                        continue
                    out.append(('var', i, n))
        elif isinstance(c0, ArrCell):
            if c0.val is not c1.val:
                out.append(('arr', i, None))
        elif isinstance(c0, ListCell):
            if c0.segs != c1.segs:
                out.append(('list', i, None))
        elif isinstance(c0, DictCell):
            for n in c1.d:
                if c1.d[n] is not c0.d.get(n, UNDEF):
                    out.append(('key', i, n))
            if c1.base is not c0.base:
                out.append(('dictbase', i, None))
        elif isinstance(c0, ObjCell):
            for n in c1.attrs:
                if c1.attrs[n] is not c0.attrs.get(n, UNDEF):
                    out.append(('attr', i, n))
    return out


def get_loc(h, loc):
    k, i, n = loc
    c = h[i]
    if k == 'var':
        return c.vars.get(n, UNDEF)
    if k == 'arr':
        return c.val
    if k == 'list':
        return c.segs
    if k == 'key':
        return c.d.get(n, UNDEF)
    if k == 'attr':
        return c.attrs.get(n, UNDEF)
    if k == 'dictbase':
        return c.base


def set_loc(h, loc, v):
    k, i, n = loc
    c = h[i]
    if k == 'var':
        d = dict(c.vars)
        d[n] = v
        h[i] = Frame(d, c.parent, c.mod)
    elif k == 'arr':
        h[i] = ArrCell(v, c.view, c.origin)
    elif k == 'list':
        h[i] = ListCell(v, c.origin)
    elif k == 'key':
        d = dict(c.d)
        d[n] = v
        h[i] = DictCell(d, c.origin, c.base)
    elif k == 'attr':
        d = dict(c.attrs)
        d[n] = v
        h[i] = ObjCell(c.cls, d, c.origin, c.base)
    elif k == 'dictbase':
        h[i] = DictCell(c.d, c.origin, v)


# ---------------------------------------------------------------- the loop

def sym_loop(interp, N, itemfn, bind, body, fid, sink=None):
    """sink: collects the outcomes of break when something (further items, an else clause) follows only without one"""
    try:
        _sym_loop(interp, N, itemfn, bind, body, fid, sink)
    except LoopFail as e:
        interp.note('unk', 'loop:' + str(e))
        fake = ast.While(test=ast.Constant(value=True), body=body, orelse=[])
        try:
            bind(unkop('loopitem'))
        except Exception:
            pass
        interp.havoc_while(fake, fid)


def _sym_loop(interp, N, itemfn, bind, body, fid, sink=None):
    N = simp(N, interp.pc)
    if N is ZERO:
        return
    _uid[0] += 1
    uid = _uid[0]
    h0, pc0 = dict(interp.heap), interp.pc
    nid0 = interp.nid
    rng0 = dict(interp.rngkeys)
    ev0, mu0 = list(interp.events), list(interp.muts)
    tries0 = interp.tries
    ntc0 = [len(tc.caught) for tc in interp.tries]
    nret0 = len(interp.funs[-1].returns)
    t = fresh()
    set_range(t, N)
    states = {}
    interp.loopvars.append(t)
    run = None
    try:
        for attempt in range(8):
            interp.rngkeys = dict(rng0)
            interp.events, interp.muts = list(ev0), list(mu0)
            for tc, k in zip(interp.tries, ntc0):
                del tc.caught[k:]
            del interp.funs[-1].returns[nret0:]
            h = dict(h0)
            interp.heap = h
            for s in states.values():
                set_loc(h, s.loc, make_placeholder(interp, s))
            hb = dict(interp.heap)
            interp.pc, interp.alive = pc0, True
            lctx = type('L', (), {})()
            lctx.breaks, lctx.conts = [], []
            interp.loops.append(lctx)
            from .interp import DeadPath
            try:
                bind(itemfn(t))
                interp.exec_block(body, fid)
            except DeadPath:
                interp.alive = False
            interp.loops.pop()
            outs = lctx.conts
            if interp.alive:
                outs.append((interp.pc, interp.heap, None))
            if outs:
                pcn, hn, _ = interp.merge_outcomes(outs, pc0)
            else:
                pcn, hn = FALSE, None
            exits = [('break', p, hh, None, None) for p, hh, _ in lctx.breaks]
            for p, hh, v in interp.funs[-1].returns[nret0:]:
                exits.append(('return', p, hh, v, None))
            for ti, (tc, k) in enumerate(zip(interp.tries, ntc0)):
                for (p, hh, hk, name) in tc.caught[k:]:
                    exits.append(('caught', p, hh, None, (ti, hk, name)))
            locs = []
            seen = set()
            for hh in ([hn] if hn is not None else []) + [e[2] for e in exits]:
                for l in diff_locs(hb, hh):
                    if l not in seen and l[1] in h0:
                        seen.add(l)
                        locs.append(l)
            new = [l for l in locs if l not in states]
            if any(l[0] == 'dictbase' for l in locs):
                raise LoopFail('dict with unknown keys')
            reshape = False
            if not new and hn is not None:
                for s in states.values():
                    if check_growth(interp, s, get_loc(hn, s.loc), hn, t):
                        reshape = True
            if not new and not reshape:
                break
            for l in new:
                ref_h = hn if hn is not None else exits[0][2]
                s = St()
                s.loc = l
                s.k = len(states)
                s.init = get_loc(h0, l)
                s.extra = None
                s.lensym = None
                setup_state(interp, s, uid, get_loc(ref_h, l), h0, ref_h, t)
                states[l] = s
        else:
            raise LoopFail('unstable state set')
        sub = interp.events[len(ev0):]
        newmuts = interp.muts[len(mu0):]
    finally:
        interp.loopvars.pop()
        interp.tries = tries0
        for tc, k in zip(interp.tries, ntc0):
            del tc.caught[k:]
        del interp.funs[-1].returns[nret0:]
    rng1 = dict(interp.rngkeys)
    interp.events = list(ev0)
    interp.muts = list(mu0) + newmuts
    interp.rngkeys = rng1
    interp.pc, interp.alive = pc0, True
    ss = list(states.values())
    # results
    if hn is not None:
        interp.heap = hn
        for s in ss:
            s.res = norm_res(interp, s, get_loc(hn, s.loc))
    else:
        for s in ss:
            s.res = None
    # exit condition
    pe = FALSE
    for e in exits:
        pe = bor(pe, simp(e[1], pc0))
    if pe is not FALSE:
        # continuing iterations may assume no exit
        pass
    work = dict(hn) if hn is not None else dict(h0)
    for e in exits:
        for i, c in e[2].items():
            work.setdefault(i, c)
    interp.heap = work
    close_states(interp, ss, t, N, uid, exits)
    tomap = lambda n: state_map(interp, ss, n)
    # events
    if sub:
        interp.heap = dict(work)
        mt = state_map(interp, ss, t)
        sub2 = [map_ev(interp, e, mt) for e in sub]
        interp.events.append(loop_ev(interp, N, t, sub2, pc0, ss, mt, exits))
    hfin = dict(h0)
    for i, c in work.items():
        if i not in hfin and i > nid0:
            hfin[i] = c
    if pe is FALSE:
        if hn is None:
            # every iteration dies: reachable only when N == 0
            interp.heap = h0
            interp.pc = band(pc0, bnot(lt(ZERO, N)))
            if interp.pc is FALSE:
                interp.alive = False
            return
        interp.heap = hfin
        finalize(interp, ss, N, hn, t, nid0)
        interp.pc = pc0
        return
    # loops with exits: first iteration whose exit condition holds
    mt = state_map(interp, ss, t)
    interp.heap = dict(work)
    b = subst_any(interp, pe, mt)
    found = simp(mk_exists([t], [N], b), pc0)
    u = fresh()
    set_range(u, N)
    tstar = mk_argmin([u], [N], ite(subst(b, {t: u}), ZERO, ONE))
    outs = []
    ne = len(interp.tries)
    for kind, p, hh, v, info in exits:
        mp = state_map(interp, ss, tstar)
        mp = mp.with_iv(t, tstar)
        interp.heap = dict(hh)
        p2 = band(found, subst_any(interp, simp(p, pc0), mp), pc0)
        hx = dict(h0)
        base = dict(hh)
        interp.heap = base
        ns = {}
        for i, c in hh.items():
            if i not in h0 and i > nid0:
                hx[i] = c
        interp.heap = hx
        for i in [i for i in hh if i not in h0 and i > nid0]:
            hx[i] = subst_cell(interp, hh[i], mp)
        for l in diff_locs(h0, hh):
            val_ = get_loc(hh, l)
            set_loc(interp.heap, l, subst_loc(interp, l, val_, mp))
        # states unchanged by the exiting iteration hold their value at t*
        for s in ss:
            if s.loc not in [x for x in diff_locs(h0, hh)]:
                set_loc(interp.heap, s.loc, s.init)
        vv = subst_val(interp, v, mp) if v is not None else None
        hx = interp.heap
        if kind == 'break':
            (outs if sink is None else sink).append((p2, hx, None))
        elif kind == 'return':
            interp.funs[-1].returns.append((p2, hx, vv))
        else:
            ti, hk, name = info
            interp.tries[ti].caught.append((p2, hx, hk, name))
    pn = band(pc0, bnot(found))
    interp.heap = hfin
    interp.pc = pn
    if hn is not None or True:
        if hn is not None:
            finalize(interp, ss, N, hn, t, nid0)
        if pn is not FALSE and not (hn is None and lt(ZERO, N) is TRUE):
            outs.append((pn, interp.heap, None))
    if outs:
        interp.pc, interp.heap, _ = interp.merge_outcomes(outs, pc0)
        interp.alive = True
    else:
        interp.alive = False


def loop_ev(interp, N, t, sub, pc, ss, mt, exits):
    from .interp import Ev
    info = {'N': N, 't': t, 'exits': bool(exits), 'states': [(s.loc, s.kind) for s in ss]}
    return Ev('loop', info, pc, interp.loc, sub)


class SMap:
    """substitution: node map, list map (opq node -> segs), value map (opq node -> python value)"""
    __slots__ = ('nm', 'lm', 'vm')

    def __init__(self, nm, lm, vm):
        self.nm, self.lm, self.vm = nm, lm, vm

    def with_iv(self, a, b):
        nm = dict(self.nm)
        nm[a] = b
        return SMap(nm, self.lm, self.vm)

    def empty(self):
        return not self.nm and not self.lm and not self.vm


def map_data(f, d):
    if isinstance(d, N):
        return f(d)
    if isinstance(d, tuple):
        return tuple(map_data(f, x) for x in d)
    if isinstance(d, list):
        return [map_data(f, x) for x in d]
    if isinstance(d, dict):
        return {k: map_data(f, x) for k, x in d.items()}
    if isinstance(d, Arr):
        return Arr([f(s) for s in d.shape], d.vs, f(d.body), d.dt)
    if isinstance(d, Sc):
        return Sc(f(d.n), d.ty)
    if isinstance(d, Bl):
        c = f(d.c)
        return True if c is TRUE else False if c is FALSE else Bl(c)
    if type(d).__name__ == 'Ev':
        return type(d)(d.kind, map_data(f, d.data), f(d.pc), d.loc, map_data(f, d.sub) if d.sub else d.sub)
    return d


def map_ev(interp, e, mp):
    if mp.empty():
        return e
    return map_data(lambda n: subst_any(interp, n, mp), e)


def subst_any(interp, n, mp):
    if not isinstance(n, N):
        return n
    return subst(n, mp.nm) if mp.nm else n


def subst_val(interp, v, mp, memo=None):
    """python value substitution including list/value states"""
    memo = {} if memo is None else memo
    if mp.empty():
        return v
    if isinstance(v, Op) and v.n in mp.vm:
        return mp.vm[v.n]
    if isinstance(v, tuple):
        return tuple(subst_val(interp, x, mp, memo) for x in v)
    if isinstance(v, PyIte):
        c = subst_any(interp, v.c, mp)
        return interp.merge_val(c, subst_val(interp, v.a, mp, memo), subst_val(interp, v.b, mp, memo))
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        c = interp.heap.get(v.id)
        memo[v.id] = v
        if c is None or isinstance(c, Frame):
            return v
        c2 = subst_cell(interp, c, mp, memo)
        if c2 is c:
            return v
        r = interp.alloc(v.kind, c2)
        memo[v.id] = r
        return r
    return interp.psubst(v, mp.nm, {})


def subst_segs(interp, segs, mp, memo=None):
    out = []
    ch = False
    for s in segs:
        if s[0] == 'opq' and s[1] in mp.lm:
            out.extend(mp.lm[s[1]])
            ch = True
        elif s[0] == 'item':
            x = subst_val(interp, s[1], mp, memo)
            ch |= x is not s[1]
            out.append(('item', x))
        elif s[0] == 'map':
            x = subst_val(interp, s[3], mp, dict(memo) if memo else None)
            n = subst_any(interp, s[1], mp)
            ch |= x is not s[3] or n is not s[1]
            out.append(('map', n, s[2], x))
        elif s[0] == 'ite':
            c = subst_any(interp, s[1], mp)
            a, b = subst_segs(interp, s[2], mp, memo), subst_segs(interp, s[3], mp, memo)
            ch = True
            if c is TRUE:
                out.extend(a)
            elif c is FALSE:
                out.extend(b)
            else:
                out.append(('ite', c, a, b))
        else:
            s2 = interp.subst_seg(s, mp.nm, {})
            ch |= s2 is not s
            out.append(s2)
    return tuple(out) if ch else tuple(segs)


def subst_cell(interp, c, mp, memo=None):
    if isinstance(c, ArrCell):
        sh = tuple(subst_any(interp, s, mp) for s in c.val.shape)
        b = subst_any(interp, c.val.body, mp)
        if b is c.val.body and all(p is q for p, q in zip(sh, c.val.shape)):
            return c
        for v, s in zip(c.val.vs, sh):
            pass
        return ArrCell(Arr(sh, c.val.vs, b, c.val.dt), c.view, c.origin)
    if isinstance(c, ListCell):
        s = subst_segs(interp, c.segs, mp, memo)
        return c if s == tuple(c.segs) else ListCell(s, c.origin)
    if isinstance(c, DictCell):
        d = {k: subst_val(interp, x, mp, memo) for k, x in c.d.items()}
        if all(d[k] is c.d[k] for k in d):
            return c
        return DictCell(d, c.origin, c.base)
    if isinstance(c, ObjCell):
        d = {k: subst_val(interp, x, mp, memo) for k, x in c.attrs.items()}
        if all(d[k] is c.attrs[k] for k in d):
            return c
        return ObjCell(c.cls, d, c.origin, c.base)
    return c


def subst_loc(interp, loc, v, mp):
    if loc[0] == 'arr':
        return Arr([subst_any(interp, s, mp) for s in v.shape], v.vs, subst_any(interp, v.body, mp), v.dt)
    if loc[0] == 'list':
        return subst_segs(interp, v, mp)
    return subst_val(interp, v, mp)


# ---------------------------------------------------------------- state symbols

def arr_of(interp, h, v):
    if isinstance(v, Ref) and v.kind == 'arr':
        c = h.get(v.id) or interp.heap.get(v.id)
        return c.val if c is not None else None
    return None


def segs_of(interp, h, v):
    if isinstance(v, Ref) and v.kind == 'list':
        c = h.get(v.id) or interp.heap.get(v.id)
        return c.segs if c is not None else None
    return None


def seg_total(interp, segs):
    r = ZERO
    for s in segs:
        r = add(r, interp.seglen(s))
    return r


def setup_state(interp, s, uid, after, h0, h1, t):
    nm = f'$st{uid}_{s.k}'
    s.ty = None
    s.shape = s.dt = s.step = s.len0 = s.proto = None
    kind = s.loc[0]
    if kind == 'arr':
        s.kind = 'arr'
        s.n = node('arrst', nm)
        s.shape, s.dt = s.init.shape, s.init.dt
        s.extra = 'cell'
        if s.dt != after.dt and s.dt == 'int':
            s.dt = after.dt
        return
    if kind == 'list':
        s.kind = 'list'
        s.n = node('lstst', nm)
        s.extra = 'cell'
        set_list_growth(interp, s, s.init, after, t)
        return
    a, b = s.init, after
    if isinstance(a, Sc) and arr1(interp, h1, b):
        s.kind, s.extra, s.ty = 'sc', 'arr1', 'float'
        s.n = sym(nm, 'real')
        return
    if isinstance(a, Sc) and isinstance(b, Sc):
        s.kind = 'sc'
        s.ty = a.ty if a.ty == b.ty else 'float'
        s.ty1 = b.ty                # type once assigned
        s.n = sym(nm, 'int' if s.ty == 'int' else 'real')
        return
    if isinstance(a, (bool, Bl)) and isinstance(b, (bool, Bl)):
        s.kind = 'bool'
        s.n = sym(nm, 'int', 'nonneg')
        return
    x, y = arr_of(interp, h0, a), arr_of(interp, h1, b)
    if x is not None and y is not None and x.ndim == y.ndim:
        s.kind = 'arr'
        s.n = node('arrst', nm)
        s.dt = x.dt if x.dt == y.dt else 'real'
        s.shape = list(x.shape)
        s.extra = 'ref'
        for d in range(x.ndim):
            p, q = simp(x.shape[d], interp.pc), simp(y.shape[d], interp.pc)
            if p is q or equal(p, q):
                continue
            g = sub(q, p)
            if isnum(g) and d == 0:
                s.shape[0] = add(p, mul(g, t))
                s.step = g
            elif d == 0:
                s.lensym = sym(f'$len{uid}_{p.id}', 'int', 'nonneg')
                s.shape[0] = s.lensym
            else:
                raise LoopFail('array state of varying shape')
        s.shape = tuple(s.shape)
        s.len0 = x.shape[0]
        return
    p, q = segs_of(interp, h0, a), segs_of(interp, h1, b)
    if p is not None and q is not None:
        s.kind = 'list'
        s.n = node('lstst', nm)
        s.extra = 'ref'
        set_list_growth(interp, s, p, q, t)
        return
    s.kind = 'opq'
    s.n = node('stx', nm)
    if isinstance(a, Op) and isinstance(b, Op):
        s.ty = a.ty
        s.extra = a.extra


def arr1(interp, h, v):
    """a one-element vector, or a choice between one and a scalar"""
    if isinstance(v, PyIte):
        return (arr1(interp, h, v.a) or isinstance(v.a, Sc)) and (arr1(interp, h, v.b) or isinstance(v.b, Sc)) and (arr1(interp, h, v.a) or arr1(interp, h, v.b))
    x = arr_of(interp, h, v)
    return x is not None and x.ndim == 1 and equal(x.shape[0], ONE) and x.dt != 'bool'


def set_list_growth(interp, s, a, b, t):
    la, lb = seg_total(interp, a), seg_total(interp, b)
    g = sub(lb, la)
    s.len0 = la
    if isnum(g):
        s.step = g
        s.shape = (add(la, mul(g, t)),)
    else:
        s.step = None
        s.lensym = sym(s.n.args[0] + 'len', 'int', 'nonneg')
        s.shape = (s.lensym,)
    # item prototype
    proto = None
    for sg in list(b) + list(a):
        if sg[0] == 'item':
            proto = sg[1]
            break
        if sg[0] == 'map':
            proto = sg[3]
            break
        if sg[0] == 'ite':
            for x in sg[2] + sg[3]:
                if x[0] == 'item':
                    proto = x[1]
    s.proto = proto


def list_itemfn(interp, s, base):
    p = interp.res(s.proto) if s.proto is not None else None

    def mkitem(p, t, path=()):
        if isinstance(p, Sc):
            return Sc(mk_el(base, path + (t,)), p.ty)
        if isinstance(p, Ref) and p.kind == 'arr' and p.id in interp.heap:
            a = interp.heap[p.id].val
            return interp.alloc('arr', ArrCell(mkarr(a.shape, lambda *ix: mk_el(base, path + (t,) + ix), a.dt)))
        if isinstance(p, tuple):
            return tuple(mkitem(x, t, path + (node('field', q),)) for q, x in enumerate(p))
        return Op(mk_el(base, path + (t,)))
    return lambda t: mkitem(p, t)


def make_placeholder(interp, s):
    if s.kind == 'sc':
        if s.extra == 'arr1':
            return interp.newarr(mkarr([ONE], lambda i: s.n))
        return Sc(s.n, s.ty)
    if s.kind == 'bool':
        return Bl(bnot(eq0(s.n)))
    if s.kind == 'arr':
        a = mkarr(s.shape, lambda *ix: mk_el(s.n, ix) if s.dt != 'bool' else bnot(eq0(mk_el(s.n, ix))), s.dt)
        if s.extra == 'cell':
            return a
        return interp.alloc('arr', ArrCell(a))
    if s.kind == 'list':
        segs = (('opq', s.n, s.shape[0], list_itemfn(interp, s, s.n)),)
        if s.extra == 'cell':
            return segs
        return interp.alloc('list', ListCell(segs))
    return Op(s.n, s.ty, s.extra)


def check_growth(interp, s, after, h1, t):
    """after a run with placeholders: did shape assumptions hold?  True -> placeholders changed, rerun"""
    if s.kind == 'arr' and s.extra == 'ref':
        y = arr_of(interp, h1, after)
        if y is None or y.ndim != len(s.shape):
            s.kind = 'opq'
            s.n = node('stx', s.n.args[0])
            s.ty = None
            s.extra = None
            return True
        for d in range(1, y.ndim):
            if not equal(y.shape[d], s.shape[d]):
                raise LoopFail('array state of varying shape')
        g = sub(y.shape[0], s.shape[0])
        if s.lensym is None and not equal(y.shape[0], add(s.shape[0], s.step or ZERO)):
            if s.step is None and isnum(g):
                s.step = g
                s.shape = (add(s.len0, mul(g, t)),) + tuple(s.shape[1:])
            else:
                s.lensym = sym(f'$len{s.n.args[0].split("_")[0][3:]}_{s.len0.id}', 'int', 'nonneg')
                s.step = None
                s.shape = (s.lensym,) + tuple(s.shape[1:])
            return True
        return False
    if s.kind == 'list':
        segs = after if s.extra == 'cell' else segs_of(interp, h1, after)
        if segs is None:
            raise LoopFail('list state replaced')
        if s.lensym is None:
            g = sub(seg_total(interp, segs), s.shape[0])
            if not equal(g, s.step):
                s.lensym = sym(s.n.args[0] + 'len', 'int', 'nonneg')
                s.step = None
                s.shape = (s.lensym,)
                return True
        return False
    if s.kind == 'sc' and s.extra == 'arr1':
        x = arr_of(interp, h1, after)
        if x is not None and x.ndim == 1 and equal(x.shape[0], ONE):
            return False
        s.extra = None
        s.kind = 'opq'
        s.n = node('stx', s.n.args[0])
        s.ty = None
        return True
    if s.kind == 'sc' and not isinstance(after, Sc):
        s.kind = 'opq'
        s.n = node('stx', s.n.args[0])
        s.ty = None
        return True
    if s.kind == 'bool' and not isinstance(after, (bool, Bl)):
        s.kind = 'opq'
        s.n = node('stx', s.n.args[0])
        return True
    return False


def norm_res(interp, s, v):
    if s.kind == 'sc':
        if s.extra == 'arr1':
            return interp.cell(v).val.el(ZERO)
        return v.n
    if s.kind == 'bool':
        return ite(interp.bl(v), ONE, ZERO)
    if s.kind == 'arr':
        return v if isinstance(v, Arr) else interp.cell(v).val
    if s.kind == 'list':
        return tuple(v) if s.extra == 'cell' else tuple(interp.cell(v).segs)
    return v


# ---------------------------------------------------------------- dependencies

def val_nodes(interp, v, acc, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, N):
        acc.append(v)
    elif isinstance(v, Sc):
        acc.append(v.n)
    elif isinstance(v, Bl):
        acc.append(v.c)
    elif isinstance(v, Op):
        acc.append(v.n)
    elif isinstance(v, Arr):
        acc.extend(v.shape)
        acc.append(v.body)
    elif isinstance(v, PyIte):
        acc.append(v.c)
        val_nodes(interp, v.a, acc, seen)
        val_nodes(interp, v.b, acc, seen)
    elif isinstance(v, (tuple, list)):
        for x in v:
            val_nodes(interp, x, acc, seen)
    elif isinstance(v, Ref):
        if v.id in seen:
            return acc
        seen.add(v.id)
        c = interp.heap.get(v.id)
        if isinstance(c, ArrCell):
            val_nodes(interp, c.val, acc, seen)
        elif isinstance(c, ListCell):
            val_nodes(interp, tuple(c.segs), acc, seen)
        elif isinstance(c, DictCell):
            val_nodes(interp, tuple(c.d.values()), acc, seen)
            if c.base is not None:
                acc.append(c.base)
        elif isinstance(c, ObjCell):
            val_nodes(interp, tuple(c.attrs.values()), acc, seen)
            if c.base is not None:
                acc.append(c.base)
    elif isinstance(v, (Method,)):
        val_nodes(interp, v.self, acc, seen)
    elif isinstance(v, Fun):
        fr = interp.heap.get(v.frame.id)
        if fr is not None and v.frame.id not in seen and v.frame.id not in [m.id for m in interp.modules.values()]:
            seen.add(v.frame.id)
            val_nodes(interp, tuple(x for x in fr.vars.values() if not isinstance(x, frozenset)), acc, seen)
    return acc


def deps_of(interp, v, ss, memo):
    names = {}
    for s in ss:
        names[s.n] = s
        if s.lensym is not None:
            names[s.lensym] = s
    out = set()
    m = {}

    def pred(x):
        if x in names:
            out.add(names[x])
        return False
    for n in val_nodes(interp, v, []):
        contains(n, pred, m)
    return out


# ---------------------------------------------------------------- closed forms

def rep(interp, s, v):
    """node used to replace the state symbol by value v"""
    if s.kind == 'sc':
        return v.n
    if s.kind == 'bool':
        return ite(interp.bl(v), ONE, ZERO)
    if s.kind == 'arr':
        b = v.body if v.dt != 'bool' else ite(v.body, ONE, ZERO)
        return mk_lam(list(v.vs), list(v.shape), b)
    return None


def state_map(interp, ss, n):
    nm, lm, vm = {}, {}, {}
    for s in ss:
        if s.closed is None:
            continue
        v = s.closed(n)
        if s.kind in ('sc', 'bool', 'arr'):
            nm[s.n] = rep(interp, s, v)
            if s.lensym is not None:
                nm[s.lensym] = v.shape[0]
        elif s.kind == 'list':
            lm[s.n] = v
            nm[s.n] = list_lam(interp, v)
            if s.lensym is not None:
                nm[s.lensym] = seg_total(interp, v)
        else:
            vm[s.n] = v
            nm[s.n] = interp.enc(v)
    return SMap(nm, lm, vm)


def list_lam(interp, segs):
    """array-like lam describing list elements, so el(st, i, ..) resolves"""
    from . import npmodels
    try:
        if not segs:
            return node('emptylist')
        r = npmodels.from_segs(interp, segs)
        a = npmodels.toarr(interp, r)
        if a is not None and a.ndim:
            return mk_lam(list(a.vs), list(a.shape), a.body if a.dt != 'bool' else ite(a.body, ONE, ZERO))
    except Exception:
        pass
    return interp.enc_segs(segs)


def apply_closed(interp, s, done, t):
    """result of s with closed states replaced by their value at iteration t"""
    mp = state_map(interp, done, t)
    if mp.empty():
        return s.res
    if s.kind in ('sc', 'bool'):
        return subst_any(interp, s.res, mp)
    if s.kind == 'arr':
        return Arr([subst_any(interp, x, mp) for x in s.res.shape], s.res.vs, subst_any(interp, s.res.body, mp), s.res.dt)
    if s.kind == 'list':
        return subst_segs(interp, s.res, mp)
    return subst_val(interp, s.res, mp)


def pyinit(s):
    return s.init


def init_arr(interp, s):
    if s.extra == 'cell':
        return s.init
    return interp.cell(s.init).val


def init_segs(interp, s):
    return tuple(s.init) if s.extra == 'cell' else tuple(interp.cell(s.init).segs)


def close_states(interp, ss, t, N, uid, exits):
    for s in ss:
        s.closed = None
    live = [s for s in ss if s.res is not None]
    for s in ss:
        if s.res is None:
            # body never completes an iteration
            s.closed = const_closed(interp, s)
    unchanged = [s for s in live if is_unchanged(interp, s)]
    for s in unchanged:
        s.closed = const_closed(interp, s)
    todo = [s for s in live if s.closed is None]
    # min/argmin groups on raw updates
    argmins(interp, todo, t, N)
    todo = [s for s in todo if s.closed is None]
    filters(interp, todo, t, N)
    todo = [s for s in todo if s.closed is None]
    progress = True
    while todo and progress:
        progress = False
        done = [s for s in ss if s.closed is not None]
        for s in list(todo):
            r = apply_closed(interp, s, done, t)
            d = deps_of(interp, r, todo, {})
            if d - {s}:
                continue
            f = classify(interp, s, r, t, N, s in d)
            if f is not None:
                s.closed = f
                todo.remove(s)
                progress = True
                break
    if todo:
        folds(interp, ss, todo, t, N, uid)


def const_closed(interp, s):
    if s.kind == 'arr':
        v = init_arr(interp, s)
    elif s.kind == 'list':
        v = init_segs(interp, s)
    else:
        v = s.init
    return lambda n: v


def is_unchanged(interp, s):
    r = s.res
    if s.kind == 'sc':
        return r is s.n
    if s.kind == 'bool':
        return r is ite(bnot(eq0(s.n)), ONE, ZERO)
    if s.kind == 'arr':
        b = r.body
        return b is (mk_el(s.n, r.vs) if s.dt != 'bool' else bnot(eq0(mk_el(s.n, r.vs)))) and s.step is None and s.lensym is None
    if s.kind == 'list':
        return len(r) == 1 and r[0][0] == 'opq' and r[0][1] is s.n
    return isinstance(r, Op) and r.n is s.n


def nonempty(n):
    return lt(ZERO, n)


def guard_first(interp, n, v, init):
    """value after n iterations of 'x = v(t)'"""
    c = simp(nonempty(n), interp.pc)
    if c is TRUE:
        return v
    return interp.merge_val(c, v, init)


def classify(interp, s, r, t, N, selfdep):
    if s.kind == 'sc':
        if not selfdep:
            def f(n):
                c = simp(nonempty(n), interp.pc)
                v = subst(r, {t: sub(n, ONE)})
                if c is TRUE:
                    return Sc(v, s.ty)
                return Sc(ite(c, v, s.init.n), s.ty)
            return f
        g = sub(r, s.n)
        if not contains(g, lambda x: x is s.n):
            return lambda n: Sc(add(s.init.n, msum(g, t, n)), s.ty)
        # conditional accumulation: ite(c, st + g, st)
        if r.op == 'ite':
            g2 = strip_add(r, s.n)
            if g2 is not None:
                return lambda n: Sc(add(s.init.n, msum(g2, t, n)), s.ty)
        # product / other: no closed form
        q = div(r, s.n)
        if not contains(q, lambda x: x is s.n) and t not in q.fv and isnum(q) and not isnum(N) is None:
            return lambda n: Sc(mul(s.init.n, power(q, n)), s.ty) if isnum(n) else Sc(mul(s.init.n, fn('ipow', q, n)), s.ty)
        # last write wins: ite(c(t), v(t), st)
        f = last_write(interp, s, r, t, N, lambda c, v: ite(c, v, s.n) is r)
        return f
    if s.kind == 'bool':
        c = bnot(eq0(r))
        if not selfdep:
            return lambda n: _bl(interp, ite(nonempty(n), subst(c, {t: sub(n, ONE)}), interp.bl(s.init)))
        stc = bnot(eq0(s.n))
        hi, lo = simp(c, stc), simp(c, bnot(stc))
        if not contains(hi, lambda x: x is s.n) and not contains(lo, lambda x: x is s.n):
            if hi is TRUE:       # st or lo(t)
                def f(n):
                    u = fresh()
                    set_range(u, n)
                    return _bl(interp, bor(interp.bl(s.init), mk_exists([u], [n], subst(lo, {t: u}))))
                return f
            if lo is FALSE:      # st and hi(t)
                def f(n):
                    u = fresh()
                    set_range(u, n)
                    return _bl(interp, band(interp.bl(s.init), mk_forall([u], [n], subst(hi, {t: u}))))
                return f
        return None
    if s.kind == 'arr':
        return classify_arr(interp, s, r, t, N, selfdep)
    if s.kind == 'list':
        return classify_list(interp, s, r, t, N, selfdep)
    if s.kind == 'opq':
        if not selfdep:
            def f(n):
                v = subst_val(interp, r, SMap({t: sub(n, ONE)}, {}, {}))
                c = simp(nonempty(n), interp.pc)
                if c is TRUE:
                    return v
                return interp.merge_val(c, v, s.init)
            return f
        # ite(c, v(t), st): last iteration where c holds
        if isinstance(r, PyIte):
            for c, v, st in ((r.c, r.a, r.b), (bnot(r.c), r.b, r.a)):
                if isinstance(st, Op) and st.n is s.n:
                    d = deps_of(interp, (c, v), [s], {})
                    if not d:
                        def f(n, c=c, v=v):
                            u = fresh()
                            set_range(u, n)
                            tt = sub(sub(n, ONE), mk_argmin([u], [n], ite(subst(c, {t: sub(sub(n, ONE), u)}), ZERO, ONE)))
                            w = fresh()
                            set_range(w, n)
                            found = mk_exists([w], [n], subst(c, {t: w}))
                            return interp.merge_val(found, subst_val(interp, v, SMap({t: tt}, {}, {})), s.init)
                        return f
        return None
    return None


def _bl(interp, c):
    return True if c is TRUE else False if c is FALSE else Bl(c)


def msum(g, t, n):
    u = fresh()
    set_range(u, n)
    return mk_sum([(u, n)], subst(g, {t: u}))


def strip_add(r, st):
    """r = ite-tree whose leaves are st + g_i : -> ite-tree of g_i"""
    if r.op == 'ite':
        if contains(r.args[0], lambda x: x is st):
            return None
        a, b = strip_add(r.args[1], st), strip_add(r.args[2], st)
        if a is None or b is None:
            return None
        return ite(mkite(r.args[0], TRUE, FALSE), a, b)
    g = sub(r, st)
    return None if contains(g, lambda x: x is st) else g


def last_write(interp, s, r, t, N, ok):
    if r.op != 'ite':
        return None
    lv = [x for x in leaves(r) if x is not s.n]
    for a in cond_atoms(r):
        if contains(a, lambda x: x is s.n):
            return None
    if any(contains(x, lambda y: y is s.n) for x in lv):
        return None
    c = leafcond(r, s.n)
    v = r

    def f(n):
        u = fresh()
        set_range(u, n)
        tt = sub(sub(n, ONE), mk_argmin([u], [n], ite(subst(c, {t: sub(sub(n, ONE), u)}), ZERO, ONE)))
        w = fresh()
        set_range(w, n)
        found = mk_exists([w], [n], subst(c, {t: w}))
        vv = subst(r, {t: tt, s.n: s.init.n})
        return Sc(ite(found, vv, s.init.n), s.ty)
    return f


def leafcond(r, st):
    """condition under which the ite-tree r does not evaluate to st"""
    if r.op == 'ite':
        return ite(mkite(r.args[0], TRUE, FALSE), leafcond(r.args[1], st), leafcond(r.args[2], st))
    return FALSE if r is st else TRUE


# ---- arrays

def classify_arr(interp, s, r, t, N, selfdep):
    init = init_arr(interp, s)
    st = s.n
    if s.lensym is not None:
        return None
    body = r.body
    if s.dt == 'bool':
        body = ite(body, ONE, ZERO)
    ib = init if s.dt == init.dt or s.dt != 'real' else init
    ibody = lambda ix: (init.el(*ix) if init.dt != 'bool' else ite(init.el(*ix), ONE, ZERO))
    wrapb = (lambda b: b) if s.dt != 'bool' else (lambda b: bnot(eq0(b)))
    if s.step is not None:
        # growing array: rows < len0+t kept, new rows appended
        n_t = s.shape[0]
        i = r.vs[0]
        kept = simp(body, lt(i, n_t))
        own = mk_el(st, r.vs)
        if not equal(kept, own):
            return None
        new = simp(body, bnot(lt(i, n_t)))
        if contains(new, lambda x: x is st):
            return None
        c = s.step
        if not (isnum(c) and val(c) >= 1):
            return None
        one = val(c) == 1

        def f(n):
            sh = (add(s.len0, mul(c, n)),) + tuple(s.shape[1:])
            from .models import fdiv

            def g(i2, *ix):
                off = sub(i2, s.len0)
                tt = off if one else fdiv(off, c)
                b = subst(new, dict(zip(r.vs, (i2,) + ix)))
                return ite(lt(i2, s.len0), ibody((i2,) + ix), subst(b, {t: tt}))
            return mkarr(sh, lambda *ix: wrapb(g(*ix)), s.dt)
        return f
    if not selfdep:
        def f(n):
            c = simp(nonempty(n), interp.pc)
            b = subst(body, {t: sub(n, ONE)})
            sh = [subst(x, {t: sub(n, ONE)}) for x in r.shape]
            if c is TRUE:
                return Arr(sh, r.vs, wrapb(b), s.dt)
            return Arr(sh, r.vs, wrapb(ite(c, b, ibody(r.vs))), s.dt)
        return f
    own = mk_el(st, r.vs)
    isst = lambda x: x is st
    body = own_reads(body, st, r.vs, own)
    g = sub(body, own)
    if not contains(g, isst):
        return lambda n: Arr(s.shape, r.vs, wrapb(add(ibody(r.vs), msum(g, t, n))), s.dt)
    if body.op == 'ite':
        g2 = strip_add(body, own)
        if g2 is not None and not contains(g2, isst):
            return lambda n: Arr(s.shape, r.vs, wrapb(add(ibody(r.vs), msum(g2, t, n))), s.dt)
    if s.dt == 'bool':
        # cells that only ever turn false (all iterations keep them) or only ever turn true
        b1, b0 = (simp(subst(body, {own: x}), TRUE) for x in (ONE, ZERO))
        if not contains(b1, isst) and not contains(b0, isst):
            def acc(n, b, q):
                u = fresh()
                set_range(u, n)
                return q([u], [n], bnot(eq0(subst(b, {t: u}))))
            if b0 is ZERO:
                return lambda n: Arr(s.shape, r.vs, band(wrapb(ibody(r.vs)), acc(n, b1, mk_forall)), s.dt)
            if b1 is ONE:
                return lambda n: Arr(s.shape, r.vs, bor(wrapb(ibody(r.vs)), acc(n, b0, mk_exists)), s.dt)
            body = rejoin(b1, b0, own) or body
    # element stores
    if body.op == 'ite':
        W = leafcond(body, own)
        if contains(W, isst):
            return None
        cands = solve_writes(W, t)
        if cands is None:
            # t-independent location: last write wins / monotone prefix
            return arr_last(interp, s, r, body, W, own, t, N, ibody, wrapb)

        def f(n):
            pieces = []
            for e in cands:
                we = subst(W, {t: e})
                we = band(we, bnot(lt0(e)), lt(e, n))
                ve = subst(body, {t: e})
                pieces.append((we, ve, e))
            out = ibody(r.vs)
            # conflicting candidates must agree
            for x in range(len(pieces)):
                for y in range(x + 1, len(pieces)):
                    both = lin.prune(band(pieces[x][0], pieces[y][0]))
                    if both is FALSE:
                        continue
                    d = simp(sub(pieces[x][1], pieces[y][1]), both)
                    if not is_zero_under(d, both) or contains(pieces[x][1], isst) or contains(pieces[y][1], isst):
                        de = simp(sub(pieces[x][2], pieces[y][2]), both)
                        if is_zero_under(de, both):
                            continue
                        return None
            for we, ve, e in reversed(pieces):
                ve = resolve_reads(ve, we, e, W, cands, own, st, ibody, r.vs, t)
                if ve is None:
                    return None
                out = ite(we, ve, out)
            out = lin.prune(out)
            return Arr(s.shape, r.vs, wrapb(out), s.dt)
        probe = f(N)
        if probe is None:
            return None
        return f
    return None


def rejoin(b1, b0, own):
    """boolean update with values b1 / b0 when the cell was true / false: as a tree with leaves true, false and the cell itself"""
    if b1 is None or b0 is None:
        return None
    for x in (b1, b0):
        if x.op == 'ite':
            c = mkite(x.args[0], TRUE, FALSE)
            hi = rejoin(*(simp(y, c) if y.op == 'ite' else y for y in (b1, b0)), own)
            lo = rejoin(*(simp(y, bnot(c)) if y.op == 'ite' else y for y in (b1, b0)), own)
            return None if hi is None or lo is None else ite(c, hi, lo)
    return own if b1 is ONE and b0 is ZERO else b1 if b1 is b0 else None


def is_zero_under(d, c):
    """d == 0 on every feasible path of c"""
    if d is ZERO:
        return True
    ok = [True]

    def leaf(y, f):
        if y is ZERO or y is FALSE:
            return y
        z = lin.eqsubst(y, f)
        if z is not ZERO and not (z.op != 'ite' and is_zero(z)) and not (z.op == 'ite' and is_zero_leafs(z, f)):
            ok[0] = False
        return y
    r = lin.prune(ite(c, d, ZERO), leaf=leaf)
    return ok[0]


def is_zero_leafs(z, f):
    ok = [True]

    def leaf(y, g):
        if y is not ZERO and not is_zero(lin.eqsubst(y, g)):
            ok[0] = False
        return y
    lin.prune(z, f, leaf=leaf)
    return ok[0]


def own_reads(body, st, vs, own):
    """reads st[e] on paths where e equals the written index are reads of the own cell"""
    if not contains(body, lambda x: x is st):
        return body

    def leaf(y, f):
        if not contains(y, lambda x: x is st):
            return y
        mp = {}
        for u in T.subterms(y):
            if u.op == 'el' and u.args[0] is st and u is not own and len(u.args) == len(vs) + 1:
                if all(a is v or lin_zero(sub(a, v), f) for a, v in zip(u.args[1:], vs)):
                    mp[u] = own
        return subst(y, mp) if mp else y
    return lin.prune(body, leaf=leaf)


def lin_zero(p, f):
    if p is ZERO:
        return True
    if p.op == 'ite':
        return False
    return f.entails_le(p) and f.entails_le(T.neg(p))


def resolve_reads(ve, we, e, W, cands, own, st, ibody, vs, t):
    """values of st read while iteration e writes the cell: cells not written before e hold their initial value"""
    isst = lambda x: x is st
    if not contains(ve, isst):
        return ve
    ve = subst(ve, {own: ibody(vs)})
    bad = []

    def leaf(y, f):
        if not contains(y, isst):
            return y
        mp = {}
        for u in T.subterms(y):
            if u.op == 'el' and u.args[0] is st:
                ix = u.args[1:]
                if any(contains(a, isst) for a in ix):
                    bad.append(u)
                    continue
                early = FALSE
                for c in cands:
                    cu = subst(c, dict(zip(vs, ix)))
                    wu = subst(subst(W, dict(zip(vs, ix))), {t: cu})
                    early = bor(early, band(wu, bnot(lt0(cu)), lt(cu, e)))
                early = lin.prune(early, f)
                if early is FALSE:
                    mp[u] = ibody(ix)
                else:
                    bad.append(u)
        return subst(y, mp) if mp else y
    ve = lin.prune(ite(we, ve, ZERO), leaf=leaf)
    if bad or contains(ve, isst):
        return None
    return ve


def resolve_own(ve, own, st, ibody, vs):
    if not contains(ve, lambda x: x is st):
        return ve
    ve2 = subst(ve, {own: ibody(vs)})
    if contains(ve2, lambda x: x is st):
        return None
    return ve2


def solve_writes(W, t):
    """W(t, idx): all ways to write force t to equal one of the returned expressions; None if not forced"""
    es = []

    def go(c):
        # every path to TRUE must pass a true eq0 atom mentioning t
        if c is FALSE:
            return True
        if c is TRUE:
            return False
        at = c.args[0]
        if at.op == 'eq0' and t in at.fv:
            e = T.solve_for(at.args[0], t)
            if e is not None and t not in e.fv:
                if c.args[1] is not FALSE and e not in es:
                    es.append(e)
                return go(c.args[2])
        return go(c.args[1]) and go(c.args[2])
    if not go(W):
        return None
    return es


def arr_last(interp, s, r, body, W, own, t, N, ibody, wrapb):
    """writes whose location does not determine the iteration: the last write wins"""
    st = s.n
    if contains(subst(body, {own: ZERO}), lambda x: x is st):
        return None
    vals = [x for x in leaves(body) if x is not own]
    if any(contains(x, lambda y: y is st) for x in vals):
        return None
    if any(contains(x, lambda y: y is st) for x in cond_atoms(body)):
        return None
    # the written value is independent of t -> prefix existence suffices
    if all(t not in x.fv for x in vals) and not any(t in a.fv and a not in cond_atoms(W) for a in cond_atoms(body)):
        def f(n):
            u = fresh()
            set_range(u, n)
            ex = mk_exists([u], [n], subst(W, {t: u}))
            vv = body
            if len(vals) != 1:
                return None
            return Arr(s.shape, r.vs, wrapb(ite(ex, vals[0], ibody(r.vs))), s.dt)
        if f(N) is not None:
            return f

    def f(n):
        u = fresh()
        set_range(u, n)
        ex = mk_exists([u], [n], subst(W, {t: u}))
        w = fresh()
        set_range(w, n)
        tt = sub(sub(n, ONE), mk_argmin([w], [n], ite(subst(W, {t: sub(sub(n, ONE), w)}), ZERO, ONE)))
        vv = subst(subst(body, {t: tt}), {own: ibody(r.vs)})
        return Arr(s.shape, r.vs, wrapb(ite(ex, vv, ibody(r.vs))), s.dt)
    return f


# ---- lists

def classify_list(interp, s, r, t, N, selfdep):
    if not selfdep:
        # list rebuilt each iteration
        def f(n):
            c = simp(nonempty(n), interp.pc)
            v = subst_segs(interp, r, SMap({t: sub(n, ONE)}, {}, {}))
            if c is TRUE:
                return tuple(v)
            return interp.merge_segs(c, tuple(v), init_segs(interp, s))
        return f
    if not r or not (r[0][0] == 'opq' and r[0][1] is s.n):
        return None
    tail = r[1:]
    if deps_of(interp, tail, [s], {}):
        return None
    ini = init_segs(interp, s)
    if not tail:
        return lambda n: ini
    if len(tail) == 1 and tail[0][0] == 'item':
        v = tail[0][1]

        def f(n):
            u = fresh()
            set_range(u, n)
            return tuple(ini) + (('map', n, u, subst_val(interp, v, SMap({t: u}, {}, {}))),)
        return f
    if len(tail) == 1 and tail[0][0] == 'ite':
        _, c, a, b = tail[0]
        for cc, x, y in ((c, a, b), (bnot(c), b, a)):
            if len(y) == 0 and len(x) == 1 and x[0][0] == 'item':
                v = x[0][1]

                def f(n, cc=cc, v=v):
                    u = fresh()
                    set_range(u, n)
                    m = subst(cc, {t: u})
                    cnt = mk_count([u], [n], m)
                    L = mk_lam([u], [n], m)
                    q = fresh()
                    set_range(q, cnt)
                    return tuple(ini) + (('map', cnt, q, subst_val(interp, v, SMap({t: mk_nth(L, q)}, {}, {}))),)
                return f
    if all(x[0] == 'item' for x in tail):
        m = len(tail)
        from .models import fdiv, mod_

        def f(n):
            u = fresh()
            tot = mul(n, num(m))
            set_range(u, tot)
            tt = fdiv(u, num(m))
            k = sub(u, mul(tt, num(m)))
            v = subst_val(interp, tail[-1][1], SMap({t: tt}, {}, {}))
            for q in range(m - 2, -1, -1):
                v = interp.merge_val(eq(k, num(q)), subst_val(interp, tail[q][1], SMap({t: tt}, {}, {})), v)
            return tuple(ini) + (('map', tot, u, v),)
        return f
    if len(tail) == 1 and tail[0][0] == 'map' and isnum(tail[0][1]) is False and t not in tail[0][1].fv:
        # nested loop appending m items each time
        _, m, w, v = tail[0]
        from .models import fdiv

        def f(n):
            u = fresh()
            tot = mul(n, m)
            set_range(u, tot)
            tt = fdiv(u, m)
            return tuple(ini) + (('map', tot, u, subst_val(interp, v, SMap({t: tt, w: sub(u, mul(tt, m))}, {}, {}))),)
        return f
    return None


# ---------------------------------------------------------------- minima with companions

def fold_min(s, t):
    m = fold_min1(s, t)
    return m if m is not None else fold_min2(s, t)


def map_leaves(x, f, memo=None):
    memo = {} if memo is None else memo
    if x.op != 'ite':
        return f(x)
    if x not in memo:
        memo[x] = mkite(x.args[0], map_leaves(x.args[1], f, memo), map_leaves(x.args[2], f, memo))
    return memo[x]


def fold_min2(s, t):
    """min/max folds whose candidate is itself a case split: the candidate is what replaces an infinite state"""
    r, st = s.res, s.n
    if r.op != 'ite':
        return None
    for ismin in (True, False):
        w = INF if ismin else neg(INF)
        g = subst(r, {st: w})
        if contains(g, lambda x: x is st):
            continue
        ls = leaves(g)
        if all(x is w for x in ls) or any(x.op == 'nan' for x in ls):
            continue
        for strict in (True, False):
            C = (lt if strict else le)(g, st) if ismin else (lt if strict else le)(st, g)
            if ite(C, g, st) is r:
                F = map_leaves(g, lambda x: FALSE if x is w else TRUE)
                return g, strict, ismin, F, C
    return None


def fold_min1(s, t):
    """recognise scalar min/max folds -> (g, strict, ismin, filter, cond)"""
    r = s.res
    st = s.n
    if r.op != 'ite':
        return None
    at = None
    for a in cond_atoms(r):
        if contains(a, lambda x: x is st):
            if at is not None:
                return None
            at = a
    if at is None or at.op != 'lt0':
        return None
    p = at.args[0]
    e = T.solve_for(p, st)
    if e is None or contains(e, lambda x: x is st):
        # case splits inside g
        return None
    # p = +-(st - e)
    lt_is_g_less = is_zero(sub(p, sub(e, st)))       # p = g - st  -> at: g < st
    if not lt_is_g_less and not is_zero(sub(p, sub(st, e))):
        return None
    A = mkite(at, TRUE, FALSE)
    v1, v0 = cof(r, at, True), cof(r, at, False)
    take = None
    if v0 is st:
        take, keepc = v1, True
    elif v1 is st:
        take, keepc = v0, False
    else:
        return None
    # take = ite(F, g, st)
    F = leafcond(take, st)
    for x in leaves(take):
        if x is not st and not equal(x, e):
            return None
    if contains(F, lambda x: x is st):
        return None
    C = band(A if keepc else bnot(A), F)
    # keepc True: take when at holds
    if lt_is_g_less:
        ismin, strict = (True, True) if keepc else (False, False)      # not (g<st) -> g>=st : max non strict
    else:
        ismin, strict = (False, True) if keepc else (True, False)
    return e, strict, ismin, F, C


def argmins(interp, todo, t, N):
    for s in list(todo):
        if s.kind != 'sc' or s.closed is not None:
            continue
        if deps_of(interp, s.res, todo, {}) - {s}:
            continue
        m = fold_min(s, t)
        if m is None:
            continue
        g, strict, ismin, Fc, C = m
        init = s.init.n
        sg = (lambda x: x) if ismin else neg

        def val_(n, g=g, Fc=Fc, init=init, sg=sg):
            u = fresh()
            set_range(u, n)
            b = ite(subst(Fc, {t: u}), sg(subst(g, {t: u})), INF)
            red = mk_minred([u], [n], b)
            return red

        def closed(n, s=s, init=init, sg=sg, val_=val_):
            red = val_(n)
            i0 = sg(init)
            if n is ZERO:
                return Sc(init, s.ty)
            if i0 is INF:
                c = nonempty(n)
                v = ite(c, red, INF)
            else:
                v = ite(nonempty(n), ite(lt(red, i0), red, i0), i0)
            return Sc(sg(v), s.ty)
        s.closed = closed

        def tstar(n, g=g, Fc=Fc, sg=sg, strict=strict):
            u = fresh()
            set_range(u, n)
            if strict:
                b = ite(subst(Fc, {t: u}), sg(subst(g, {t: u})), INF)
                return mk_argmin([u], [n], b)
            last = sub(n, ONE)
            b = ite(subst(Fc, {t: sub(last, u)}), sg(subst(g, {t: sub(last, u)})), INF)
            return sub(last, mk_argmin([u], [n], b))

        def improved(n, init=init, sg=sg, val_=val_, Fc=Fc, strict=strict):
            i0 = sg(init)
            c = nonempty(n)
            if i0 is INF:
                if Fc is TRUE:
                    return c
                u = fresh()
                set_range(u, n)
                return mk_exists([u], [n], subst(Fc, {t: u}))
            red = val_(n)
            return band(c, lt(red, i0) if strict else le(red, i0))
        alts = [(C, tstar, improved)]
        st = s.n
        for sx in (True, False):
            C2 = band((lt if sx else le)(*((g, st) if ismin else (st, g))), Fc)
            if C2 is not C:
                alts.append((C2, lambda n, sx=sx, f=tstar: f(n, strict=sx), lambda n, sx=sx, f=improved: f(n, strict=sx)))
        for m2 in todo:
            if m2 is s:
                continue
            for cc, ts, im in alts:
                if m2.closed is None:
                    companion(interp, m2, cc, t, ts, im)


def companion(interp, m, C, t, tstar, improved):
    others = None
    if m.kind == 'sc':
        r = m.res
        h = simp(r, C)
        if simp(r, bnot(C)) is not m.n or contains(h, lambda x: x is m.n):
            return
        if contains(h, lambda x: x.op == 'sym' and isinstance(x.args[0], str) and x.args[0].startswith('$st')):
            return

        def f(n):
            c2 = simp(improved(n), interp.pc)
            return Sc(ite(c2, subst(h, {t: tstar(n)}), m.init.n), getattr(m, 'ty1', m.ty) if c2 is TRUE else m.ty)
        m.closed = f
    elif m.kind == 'arr' and m.step is None and m.lensym is None:
        r = m.res
        own = mk_el(m.n, r.vs)
        h = simp(r.body, C)
        if simp(r.body, bnot(C)) is not own or contains(h, lambda x: x is m.n):
            return
        init = init_arr(interp, m)

        def f(n):
            return Arr(m.shape, r.vs, ite(improved(n), subst(h, {t: tstar(n)}), init.el(*r.vs)), m.dt)
        m.closed = f
    elif m.kind == 'opq':
        r = m.res
        if not isinstance(r, PyIte):
            return
        for c, a, b in ((r.c, r.a, r.b), (bnot(r.c), r.b, r.a)):
            if c is C and isinstance(b, Op) and b.n is m.n and not deps_of(interp, a, [m], {}):
                def f(n, a=a):
                    c2 = improved(n)
                    v = subst_val(interp, a, SMap({t: tstar(n)}, {}, {}))
                    c2 = simp(c2, interp.pc)
                    return interp.merge_val(c2, v, m.init)
                m.closed = f
                return


# ---------------------------------------------------------------- filters

def filters(interp, todo, t, N):
    """A := A[keep_t(row)] repeated; companions filtered by the same mask"""
    fs = [s for s in todo if s.kind == 'arr' and s.lensym is not None]
    groups = {}
    for s in fs:
        groups.setdefault(s.lensym, []).append(s)
    for L, g in groups.items():
        masks = []
        ok = True
        for s in g:
            r = s.res
            b = r.body
            nth_ = None
            for x in subterms(b):
                if x.op == 'nth' and x.args[1] is r.vs[0]:
                    nth_ = x
            if nth_ is None:
                ok = False
                break
            w = fresh()
            set_range(w, L)
            exp_ = mk_el(s.n, (nth_,) + tuple(r.vs[1:]))
            if b is not exp_:
                ok = False
                break
            masks.append(nth_.args[0])
        if not ok or len(set(masks)) != 1:
            continue
        M_ = masks[0]
        if M_.args[1][0] is not L:
            continue
        w = fresh()
        set_range(w, L)
        c = lam_apply(M_, (w,))
        # the mask may mention rows only at w
        bad = False
        for s in g:
            for x in subterms(c):
                if x.op == 'el' and x.args[0] is s.n and x.args[1] is not w:
                    bad = True
        dd = deps_of(interp, (c,), [s for s in todo if s not in g], {})
        if bad or dd:
            continue
        ini = {s: init_arr(interp, s) for s in g}
        n0 = ini[g[0]].shape[0]
        if not all(equal(ini[s].shape[0], n0) for s in g):
            continue

        def row_cond(i, u, c=c, w=w, g=g, ini=ini):
            cc = subst(c, {w: i, t: u})
            mp = {s.n: mk_lam(list(ini[s].vs), list(ini[s].shape), ini[s].body) for s in g}
            return subst(cc, mp)

        def mk_closed(s):
            def f(n):
                i, u = fresh(), fresh()
                set_range(i, n0)
                set_range(u, n)
                mask = mk_forall([u], [n], row_cond(i, u))
                lam = mk_lam([i], [n0], mask)
                cnt = mk_count([i], [n0], mask)
                return mkarr((cnt,) + tuple(s.shape[1:]), lambda q, *ix: ini[s].el(mk_nth(lam, q), *ix), s.dt)
            return f
        for s in g:
            s.closed = mk_closed(s)


# ---------------------------------------------------------------- canonical recurrences

def fold_height(nodes):
    h = 0
    m = {}

    def pred(x):
        nonlocal h
        if x.op in ('fs', 'ft', 'fa'):
            h = max(h, x.args[0])
        return False
    for n in nodes:
        contains(n, pred, m)
    return h


def folds(interp, ss, todo, t, N, uid):
    done = [s for s in ss if s.closed is not None]
    upd = {}
    for s in todo:
        upd[s] = apply_closed(interp, s, done, t)
    deps = {s: deps_of(interp, upd[s], todo, {}) for s in todo}

    def closure(s):
        out, stack = [], [s]
        while stack:
            x = stack.pop()
            if x in out:
                continue
            out.append(x)
            stack.extend(sorted(deps[x], key=lambda y: y.k))
        return out

    def initn(s):
        if s.kind == 'arr':
            return rep(interp, s, init_arr(interp, s))
        if s.kind == 'list':
            return interp.enc_segs(init_segs(interp, s))
        if s.kind == 'bool':
            return ite(interp.bl(s.init), ONE, ZERO)
        return interp.enc(s.init)

    def row_of(s):
        """update node; growing containers contribute only their new rows"""
        r = upd[s]
        if s.kind in ('sc', 'bool'):
            return r
        if s.kind == 'arr':
            if s.step is not None:
                i = r.vs[0]
                kept = simp(r.body, lt(i, s.shape[0]))
                if equal(kept, mk_el(s.n, r.vs)):
                    new = simp(r.body, bnot(lt(i, s.shape[0])))
                    z = fresh()
                    set_range(z, s.step)
                    b = subst(new, {i: add(s.shape[0], z)})
                    return node('append', mk_lam([z] + list(r.vs[1:]), [s.step] + list(r.shape[1:]), b))
            return mk_lam(list(r.vs), list(r.shape), r.body if r.dt != 'bool' else ite(r.body, ONE, ZERO))
        if s.kind == 'list':
            if r and r[0][0] == 'opq' and r[0][1] is s.n and all(x[0] == 'item' for x in r[1:]):
                its = [interp.enc(x[1]) for x in r[1:]]
                if len(its) == 1:
                    e = its[0]
                    z = fresh()
                    if e.op == 'lam':
                        vs, b = open_binder(e)
                        return node('append', mk_lam([z] + vs, [ONE] + list(e.args[1]), b))
                    return node('append', mk_lam([z], [ONE], e))
                return node('appendn', *its)
            return interp.enc_segs(r)
        return interp.enc(r)
    rows = {s: row_of(s) for s in todo}
    inits = {s: initn(s) for s in todo}
    for s in todo:
        cl = closure(s)
        order = sorted(cl, key=lambda x: (inits[x].id, cl.index(x)))
        h = 1 + fold_height([rows[x] for x in order])
        mp = {t: node('ft', h)}
        for q, x in enumerate(order):
            base = node('fs', h, q)
            mp[x.n] = base
            if x.lensym is not None:
                mp[x.lensym] = node('fslen', h, q)
        desc = node('folddesc', tuple(inits[x] for x in order), tuple(subst(rows[x], mp) for x in order))
        s.closed = fold_closed(interp, s, desc, order.index(s), None)
    # growing containers: express rows through the scan of the other states
    grow = [s for s in todo if s.kind in ('arr', 'list') and s.step is not None and isnum(s.step) and val(s.step) >= 1]
    raw_closed = {s: s.closed for s in todo}
    for s in grow:
        r = upd[s]
        if s.kind == 'arr':
            i = r.vs[0]
            kept = simp(r.body, lt(i, s.shape[0]))
            if not equal(kept, mk_el(s.n, r.vs)):
                continue
            new = simp(r.body, bnot(lt(i, s.shape[0])))
            if not is1_(s.step):
                continue

            def f(n, s=s, r=r, new=new):
                ini = init_arr(interp, s)

                def g(i2, *ix):
                    tt = sub(i2, s.len0)
                    mpn = {x.n: rep_scan(interp, x, raw_closed[x](tt)) for x in todo if x.kind != 'opq'}
                    for x in todo:
                        if x.kind == 'opq':
                            mpn[x.n] = interp.enc(raw_closed[x](tt))
                        if x.lensym is not None:
                            v = raw_closed[x](tt)
                            mpn[x.lensym] = v.shape[0] if isinstance(v, Arr) else seg_total(interp, v)
                    b = subst(new, {**dict(zip(r.vs, (i2,) + ix)), t: tt})
                    b = subst(b, mpn)
                    return ite(lt(i2, s.len0), ini.el(i2, *ix), b)
                sh = (add(s.len0, n),) + tuple(s.shape[1:])
                return mkarr(sh, g, s.dt)
            FINAL[s] = f
        else:
            if not (r and r[0][0] == 'opq' and r[0][1] is s.n and len(r) == 2 and r[1][0] == 'item'):
                continue
            v = r[1][1]

            def f(n, s=s, v=v):
                u = fresh()
                set_range(u, n)
                mp = scan_map(interp, todo, raw_closed, u)
                mp.nm[t] = u
                return tuple(init_segs(interp, s)) + (('map', n, u, subst_val(interp, v, mp)),)
            FINAL[s] = f


FINAL = {}


def is1_(n):
    return isnum(n) and val(n) == 1


def rep_scan(interp, s, v):
    if s.kind == 'list':
        return list_lam(interp, v) if v else node('emptylist')
    return rep(interp, s, v)


def scan_map(interp, todo, closed, n):
    nm, lm, vm = {}, {}, {}
    for s in todo:
        v = closed[s](n)
        if s.kind in ('sc', 'bool', 'arr'):
            nm[s.n] = rep(interp, s, v)
            if s.lensym is not None:
                nm[s.lensym] = v.shape[0]
        elif s.kind == 'list':
            lm[s.n] = v
            nm[s.n] = list_lam(interp, v)
            if s.lensym is not None:
                nm[s.lensym] = seg_total(interp, v)
        else:
            vm[s.n] = v
            nm[s.n] = interp.enc(v)
    return SMap(nm, lm, vm)


def fold_closed(interp, s, desc, q, _):
    def f(n):
        base = node('scan', desc, num(q), n)
        if s.kind == 'sc':
            return Sc(base, s.ty)
        if s.kind == 'bool':
            return Bl(bnot(eq0(base)))
        if s.kind == 'arr':
            if s.step is not None:
                sh = (add(s.len0, mul(s.step, n)),) + tuple(s.shape[1:])
            elif s.lensym is not None:
                sh = (node('len', base),) + tuple(s.shape[1:])
            else:
                sh = s.shape
            return mkarr(sh, lambda *ix: mk_el(base, ix) if s.dt != 'bool' else bnot(eq0(mk_el(base, ix))), s.dt)
        if s.kind == 'list':
            ln = add(s.len0, mul(s.step, n)) if s.step is not None else node('len', base)
            return (('opq', base, ln, list_itemfn(interp, s, base)),)
        return Op(base, s.ty, s.extra)
    return f


# ---------------------------------------------------------------- final state

def finalize(interp, ss, n, hn, t, nid0):
    for s in ss:
        f = FINAL.pop(s, None) or s.closed
        v = f(n)
        if s.kind in ('arr', 'list') and s.extra == 'ref':
            if s.kind == 'arr':
                v = interp.alloc('arr', ArrCell(v))
            else:
                v = interp.alloc('list', ListCell(v))
            c = simp(nonempty(n), interp.pc)
            if is_unchanged_res(s) or c is FALSE:
                v = s.init
        elif s.extra == 'arr1' and isinstance(v, Sc):
            c = simp(nonempty(n), interp.pc)
            w = v.n
            v = s.init if is_unchanged_res(s) or c is FALSE else interp.merge_val(c, interp.newarr(mkarr([ONE], lambda i: w)), s.init)
        set_loc(interp.heap, s.loc, v)


def is_unchanged_res(s):
    return s.res is None
