"""C17: trees partition the rows, route queries by their splits and average over all trees."""
from .common import *
from .opaque import rows
from sa.npmodels import toarr
from sa.interp import NOTIMPL

LEVEL = 'proof'
TECHNIQUE = TECH + 'structural induction over the recursive calls of tree construction and prediction, each recursive call summarised'
NOTE = ('The two sides of a split are the rows below the split value and all the remaining rows; the recorded split dimension and value give exactly the recorded sides (deterministic and random location, any data) and belong to the candidate of the smallest criterion (sum of the mean squared deviations of both sides); '
        'growing a node keeps the rows of each side (induction step with the recursive call summarised: depth limit, leaf size, degenerate split); a prediction follows the recorded comparison to a leaf and returns the mean and deviation of its responses '
        '(induction step); a forest prediction is the equally weighted mixture over all trees, row by row in the order of the query rows also when they are processed in chunks; every tree is grown from its own bootstrap whose inputs and responses are drawn with the same row numbers.')
UL = 'bayeso.trees.trees_common.'
L = UL + '_split_left_right'
M = UL + 'mse'
SP, GR, PT, UP = UL + '_split', UL + 'split', UL + '_predict_by_tree', UL + 'unit_predict_by_trees'
SUB = UL + 'subsample'


def ms(it, b):
    return Sc(mk_el(node('app', 'mse.nonneg', *argsenc(it, b)), (T.num(0),)), 'float')


def slr(it, b):
    ea = argsenc(it, b)
    return tuple(Op(node('app', 'slr', q, *ea), 'list') for q in (0, 1))


def sp(it, b):
    ea = argsenc(it, b)
    it.note('opq', ('_split', ea))
    return it.newdict({'index': Sc(node('app', 'split.index', *ea), 'int'), 'value': Sc(mk_el(node('app', 'split.value', *ea), (T.num(0),)), 'float'),
                       'left_right': tuple(Op(node('app', 'split.side', q, *ea), 'list') for q in (0, 1))})


def pt(it, b):
    ea = argsenc(it, b)
    r = [mk_el(node('app', q, *ea), (T.num(0),)) for q in ('tree.mean', 'tree.sd')]
    return (Sc(r[0], 'float'), Sc(T.absv(r[1]), 'float'))


class Step:
    """the call under analysis is interpreted, calls it makes to itself are summarised"""

    def __init__(self, h, path, summ):
        f = h.look(path)
        self.n = 1
        while getattr(f, 'wraps', None) is not None:
            f = f.wraps
            self.n += 1
        self.k, self.summ, self.on = self.n, summ, True

    def __call__(self, it, b):
        if self.on and self.k:
            self.k -= 1
            return NOTIMPL
        return self.summ(it, b)


def grown(it, b):
    """growing a node: everything below it is a function of the node and the limits"""
    nd = b['node']
    ea = argsenc(it, b)
    it.note('opq', ('split', ea))
    c = it.cell(nd)
    it.setitem(nd, 'left', Op(node('app', 'grown', 'left', *ea), 'node'))
    it.setitem(nd, 'right', Op(node('app', 'grown', 'right', *ea), 'node'))
    it.delitem(nd, 'left_right')
    return None


def partition(o):
    o.fn('sides', L, 'spec.trees.partition', lambda h: ([h.arr('X', n, d), h.arr('Y', n, 1), Sc(T.sym('j', 'int', 'nonneg'), 'int'), h.fl('v')], {}),
         pre=T.lt(T.sym('j', 'int', 'nonneg'), d))


def recorded(rnd):
    def go(o):
        def run(o, lv):
            h = o.h(lv)
            X, Y = h.arr('X', n, d), h.arr('Y', n, 1)
            F = h.int('F', 1)
            pre = band(T.le(F.n, d), T.lt(T.num(0), n))
            a = h.call(SP, [X, Y, F, rnd], {}, pre)
            if a.dead:
                return o.returns('split', a, pre)
            D = a.val
            p = band(a.pc, pre)
            b = h.call('spec.trees.replay', [X, Y, D], {}, p)
            o.eq('sides are the split at the recorded dimension and value', h.it.enc(h.it.getitem(D, 'left_right')), b.enc, p)
            ix = h.it.getitem(D, 'index')
            o.holds('dimension is one of the columns', band(T.le(T.num(0), ix.n), T.lt(ix.n, d)), p)
        o.tiers([{L: slr, M: ms}, {M: ms}, {}], run)
    return go


def best(rnd):
    def go(o):
        def run(o, lv):
            h = o.h(lv)
            X, Y = h.arr('X', n, d), h.arr('Y', n, 1)
            F = h.int('F', 1)
            pre = band(T.le(F.n, d), T.lt(T.num(0), n))
            a = h.call(SP, [X, Y, F, rnd], {}, pre)
            if not o.returns('split', a, pre):
                return
            b = h.call('spec.trees.chosen', [X, Y, F, rnd], {}, pre)
            p = band(pre, band(a.pc, b.pc))
            for i, q in enumerate(('index', 'value')):
                o.eq(f'{q}: candidate of the smallest total deviation', h.it.enc(h.it.getitem(a.val, q)), h.it.enc(h.it.getitem(b.val, i_(i))), p)
        o.tiers([{L: slr, M: ms}, {}], run)
    return go


def criterion(o):
    for l, r in (('nl', 'nr'), (0, 'nr'), ('nl', 0)):
        o.fn(f'sides of {l} and {r} rows', M, 'spec.trees.score',
             lambda h: ([(pairs(h, 'XL', 'YL', T.dim(l) if l else T.num(0)), pairs(h, 'XR', 'YR', T.dim(r) if r else T.num(0)))], {}))


def pairs(h, a, b, rows):
    X = h.arr(a, rows, d)
    Y = h.arr(b, rows, 1)
    return h.call('spec.trees.pairs', [X, Y]).val


def node_of(h, nl, nr):
    return h.it.newdict({'index': Sc(T.sym('j', 'int', 'nonneg'), 'int'), 'value': h.fl('v'),
                         'left_right': (pairs(h, 'XL', 'YL', nl), pairs(h, 'XR', 'YR', nr))})


def growing(zero):
    """induction step: what a node keeps after growing"""
    def go(o):
        nl, nr = (T.dim('nl'), T.dim('nr')) if zero is None else {'left': (T.num(0), T.dim('nr')), 'right': (T.dim('nl'), T.num(0)), 'both': (T.num(0), T.num(0))}[zero]
        enc = []
        for code in (True, False):
            h = o.h({SP: sp})
            st = Step(h, GR, grown)
            h.it.opaque[GR] = st
            if not code:
                st.k = 0
            nd = node_of(h, nl, nr)
            a = h.call(GR if code else 'spec.trees.grow', [nd, h.int('depth'), h.int('leaf'), h.int('F', 1), h.flag('random'), h.int('cur', 1)], {})
            if a.dead:
                return o.returns('growing', a)
            if code:
                o.returns('growing', a)
            enc.append((h.it.enc(nd), a.pc))
        o.eq('the node keeps exactly the rows of both sides, with the documented stopping rule', enc[0][0], enc[1][0], band(enc[0][1], enc[1][1]))
    return go


def leaf(h, name):
    return pairs(h, 'X' + name, 'Y' + name, T.dim('n' + name))


def tree(h, shape, name='t'):
    """a concrete tree: a leaf is None, an inner node a pair"""
    if shape is None:
        return leaf(h, name)
    j = T.sym('j' + name, 'int', 'nonneg')
    h.pre = band(h.pre, T.lt(j, d))
    return h.it.newdict({'index': Sc(j, 'int'), 'value': h.fl('v' + name), 'left': tree(h, shape[0], name + 'l'), 'right': tree(h, shape[1], name + 'r')})


X2 = (None, None)


def routing(shape):
    def go(o):
        enc = []
        for code in (True, False):
            h = o.h()
            h.pre = TRUE
            st = Step(h, PT, pt)
            h.it.opaque[PT] = st
            if not code:
                st.k = 0
            t = tree(h, shape)
            a = h.call(PT if code else 'spec.trees.descend', [h.arr('x', d), t], {}, h.pre)
            if a.dead or code:
                o.returns('routing', a, h.pre)
                if a.dead:
                    return
            enc.append((a.enc, band(a.pc, h.pre)))
        o.eq('the query follows the comparison of the split; a leaf answers with the mean and deviation of its responses', enc[0][0], enc[1][0], band(enc[0][1], enc[1][1]))
    return go


def averaged(many, trees):
    """public prediction over a list of trees"""
    def go(o):
        def run(o, lv):
            h = o.h(lv)
            h.pre = TRUE
            if trees == 'any':
                ts = h.call('spec.trees.same', [Op(node('tree'), 'dict'), h.int('K', 1)]) if False else h.it.newlist([('opq', node('trees'), T.dim('K'), lambda t: Op(node('tree', t), 'dict'))])
                h.it.cell(ts).segs = (('opq', node('trees'), T.dim('K'), lambda t: Op(node('tree', t), 'dict')),)
            else:
                h.it.unroll = {PT: 9}
                ts = h.it.newlist([tree(h, s, f't{i}') for i, s in enumerate(trees)])
            X = h.arr('Q', m, d)
            p = band(h.pre, T.lt(T.num(many), m) if many else T.le(m, T.num(100)))
            a = h.call(UL + 'predict_by_trees', [X, ts], {}, p)
            if not o.returns('prediction', a, p):
                return
            b = h.call('spec.trees.forest' if trees == 'any' else 'spec.trees.forest_full', [X, ts], {}, p)
            p = band(p, band(a.pc, b.pc))
            for q, w in enumerate(('mean', 'deviation')):
                o.eq(f'{w} of the mixture over all trees, row by row', h.it.enc(h.it.getitem(a.val, i_(q))), h.it.enc(h.it.getitem(b.val, i_(q))), p)
        if trees == 'any':
            run(o, {PT: pt})
        else:
            run(o, {})
    return go


def bootstraps(o):
    for rep in (True, False):
        pre = band(T.lt(T.num(0), T.sym('ratio', 'real', 'pos')), TRUE if rep else T.le(T.sym('ratio', 'real', 'pos'), T.num(1)))
        o.fn(f'inputs and responses of the same drawn rows, replacement {rep}', SUB, 'spec.trees.bootstrap', lambda h: ([h.arr('X', n, d), h.arr('Y', n, 1), h.fl('ratio', 'pos'), rep], {}), pre=pre)


def forests(kind):
    def go(o):
        def run(o, lv):
            enc = []
            for code in (True, False):
                h = o.h(lv)
                args = [h.arr('X', n, d), h.arr('Y', n, 1), h.int('num', 1), h.int('depth'), h.int('leaf'), h.int('F', 1)]
                f = 'bayeso.trees.trees_random_forest.get_random_forest' if code else 'spec.trees.random_forest'
                pre = TRUE
                if kind != 'rf':
                    rep, rnd = kind
                    f = 'bayeso.trees.trees_generic_trees.get_generic_trees' if code else 'spec.trees.trees'
                    args = args[:5] + [h.fl('ratio', 'pos'), rep, args[5], rnd]
                    pre = band(T.lt(T.num(0), T.sym('ratio', 'real', 'pos')), TRUE if rep else T.le(T.sym('ratio', 'real', 'pos'), T.num(1)))
                a = h.call(f, args, {}, pre)
                if code:
                    o.returns('forest', a, pre)
                if a.dead:
                    return
                enc.append((a.enc, band(a.pc, pre), h))
            o.eq('every tree is grown from its own bootstrap with the given limits', enc[0][0], enc[1][0], band(enc[0][1], enc[1][1]))
            o.eq('number of trees', node('len', enc[0][2].it.list_len(enc[0][2].it.cell(a.val))), node('len', T.dim('num'))) if False else None
        run(o, {SP: sp, GR: grown})
    return go


def build(c):
    c.add('partition', 'bayeso/trees/trees_common.py:_split_left_right', partition)
    for rnd in (False, True):
        c.add(f'recorded.{rnd}', 'bayeso/trees/trees_common.py:_split', recorded(rnd))
    for rnd in (False, True):
        c.add(f'best.{rnd}', 'bayeso/trees/trees_common.py:_split', best(rnd))
    c.add('criterion', 'bayeso/trees/trees_common.py:mse', criterion)
    for z in (None, 'left', 'right', 'both'):
        c.add(f'growing.{z}', 'bayeso/trees/trees_common.py:split', growing(z))
    for i, s in enumerate(((None, None), (X2, None), (None, X2), (X2, X2))):
        c.add(f'routing.{i}', 'bayeso/trees/trees_common.py:_predict_by_tree', routing(s))
    for many in (0, 100):
        c.add(f'mixture.any.{many}', 'bayeso/trees/trees_common.py:predict_by_trees', averaged(many, 'any'))
        for i, ts in enumerate(((X2,), (X2, X2), ((X2, None), X2), ((X2, X2),))):
            c.add(f'mixture.{i}.{many}', 'bayeso/trees/trees_common.py:predict_by_trees', averaged(many, ts))
    c.add('bootstrap', 'bayeso/trees/trees_common.py:subsample', bootstraps)
    c.add('forest.rf', 'bayeso/trees/trees_random_forest.py:get_random_forest', forests('rf'))
    for rep in (True, False):
        for rnd in (True, False):
            c.add(f'forest.{rep}.{rnd}', 'bayeso/trees/trees_generic_trees.py:get_generic_trees', forests((rep, rnd)))
