"""C22: what plotting functions draw, and the files they write."""
from .common import *
from sa.check import walk
from sa.interp import mkarr
from sa.prove import has_unk
from .c07 import watch
from sa.npmodels import toarr

LEVEL = 'proof'
TECHNIQUE = TECH + 'drawing and file effects of every plotting function (with the plotting package present as an abstract object that records calls): conditions of file writes, path terms, and the drawn series matched as sets with reference series'
NOTE = ('Every plotting function for any number of points, samples, rounds and iterations (two and three experiments; initial observations fewer than or equal to all, or not given), with and without directory and name, symbolic flags otherwise: no file write without both; '
        'with both, every file lies directly in the directory and its name ends with the given name; the series and bands drawn are those of the data and no others; arguments unchanged. '
        'Colours, fonts and axis decoration are not covered; matplotlib itself is trusted to draw what it is given.')

P = 'bayeso.utils.utils_plotting.'
F = 'bayeso/utils/utils_plotting.py:'
IMP = {'matplotlib': True, 'pylab': True, 'scipydirect': True, 'cma': True}
t, r, ni, b = T.dim('t'), T.dim('r'), T.dim('ni'), T.dim('b')
DATA = {'X': None, 'Y': None}


def sym(nm):
    return Op(node('symstr', nm), 'str')


PATH, POST = sym('path'), sym('post')
COMMON = dict(use_tex='tex', draw_zero_axis='dz', pause_figure='pause')


class Ser:
    def __init__(self, xs, pc=TRUE, label=None, loop=None, at=None, ax=None, band=False):
        self.xs, self.pc, self.label, self.loop, self.at, self.ax, self.band = xs, pc, label, loop, at, ax, band

    def __repr__(self):
        return ('band' if self.band else 'line') + '(' + ', '.join(T.show(x)[:60] for x in self.xs) + ')'


DRAW = {'plot', 'scatter', 'step', 'semilogy', 'semilogx', 'loglog', 'fill_between', 'errorbar', 'bar', 'hist', 'imshow', 'axhline', 'axvline', 'stem', 'hlines', 'vlines',
        'contour', 'contourf', 'fill', 'stackplot', 'barh', 'fill_betweenx', 'plot_date', 'axhspan', 'axvspan', 'axline', 'eventplot', 'pcolormesh'}


def drawn(o, a):
    """(series, bands, understood): what the call draws"""
    out, ok = [], True
    for e, loops in walk(a.events):
        if e.kind != 'mpl' or e.data[0] not in DRAW:
            continue
        name, args, kw, recv = e.data
        pc = e.pc
        for l in loops:
            pc = T.band(pc, l.pc)
        if pc is FALSE:
            continue
        if len(loops) > 1 or any(l.data.get('exits') for l in loops):
            ok = False
            continue
        lp = (loops[0].data['t'], loops[0].data['N']) if loops else None
        kws = dict(kw)
        lab = kws.get('label')
        if name in ('plot', 'step', 'scatter'):
            xs = [x for x in args]
            for q in ('x', 'y'):
                if q in kws:
                    xs.append(kws[q])
            i = 0
            while i < len(xs):
                if i + 1 < len(xs) and isv(xs[i]) and isv(xs[i + 1]):
                    out.append(Ser([xs[i], xs[i + 1]], pc, lab, lp, e.loc, recv))
                    i += 2
                    if i < len(xs) and xs[i].op in ('str', 'strcat', 'symstr'):
                        i += 1
                    elif i < len(xs) and name == 'scatter':
                        break
                else:
                    ok = False
                    break
        elif name == 'fill_between':
            xs = list(args) + [kws[q] for q in ('x', 'y1', 'y2') if q in kws]
            if len(xs) == 3 and all(isv(x) for x in xs) and 'where' not in kws:
                out.append(Ser(xs, pc, lab, lp, e.loc, recv, True))
            else:
                ok = False
        else:
            ok = False
    return out, ok


def isv(x):
    if x.op == 'ite':
        return isv(x.args[1]) and isv(x.args[2])
    return x.op == 'vec'


def cmp(q, s, pre):
    """the data of the drawn q is that of the required s (whenever q is drawn): True / False / None"""
    if q.band != s.band or (q.loop is None) != (s.loop is None):
        return None if (q.loop is None) != (s.loop is None) else False
    sub = {}
    if q.loop:
        if same(q.loop[1], s.loop[1], pre).status != 'proved':
            return None         # loops are compared as sets only for concrete numbers of rounds
        sub = {q.loop[0]: s.loop[0]}
    f = (lambda x: T.subst(x, sub)) if sub else (lambda x: x)
    q.cond = f(q.pc)
    p2 = T.band(T.band(pre, q.cond), s.pc)
    res = []
    for od in ((0, 1, 2), (0, 2, 1)) if s.band else ((0, 1),):
        rs = [same(f(q.xs[i]), s.xs[j], p2).status for i, j in enumerate(od)]
        if s.label is not None:
            rs.append(same(f(q.label) if q.label is not None else node('none'), s.label, p2).status)
        if all(x == 'proved' for x in rs):
            return True
        res.append('differs' in rs)
    return False if all(res) and not q.loop else None


def nonempty(q):
    def ln(x):
        if x.op == 'ite':
            return T.mkite(x.args[0], ln(x.args[1]), ln(x.args[2]))
        x = x.args[0]
        if x.op == 'ite':
            return T.mkite(x.args[0], ln(node("vec", x.args[1])), ln(node("vec", x.args[2])))
        return lamlen(x)
    try:
        return T.lt(T.ZERO, ln(q.xs[0]))
    except (AttributeError, IndexError, TypeError):
        return TRUE


def lamlen(x):
    return x.args[1][0]


def series(o, what, a, req, pre):
    got, ok = drawn(o, a)
    pre = T.band(pre, a.pc)
    for q in got:
        q.pc = T.band(q.pc, nonempty(q))        # an empty series draws nothing
    got = [q for q in got if T.simp(q.pc, pre) is not FALSE and same(q.pc, FALSE, pre).status != 'proved']
    M = [[cmp(q, s, pre) for s in req] for q in got]
    for j, s in enumerate(req):
        hits = [q for i, q in enumerate(got) if M[i][j]]
        s.hit = hits[0] if hits else None
        c = FALSE
        for q in hits:
            c = T.bor(c, q.cond)
        p2 = T.band(pre, nonempty(s))
        res = same(T.band(c, p2), T.band(s.pc, p2), p2)
        if res.status == 'proved':
            o.rec(f'{what}: series {j} drawn', 'proved', repr(s)[:150])
        elif ok and res.status == 'differs' and not any(M[i][j] is None for i in range(len(got))):
            rest = [q for i, q in enumerate(got) if not any(M[i])]
            o.rec(f'{what}: series {j} drawn', 'violated', (f'drawn only when {T.show(c)[:300]}' if hits else f'nothing drawn is {s!r}') + '; left over: ' + '; '.join(map(repr, rest))[:500],
                  str((hits or rest)[0].at) if hits or rest else None)
        else:
            o.rec(f'{what}: series {j} drawn', 'undecided', repr(s)[:200])
    for i, q in enumerate(got):
        if any(M[i]):
            continue
        if all(v is False for v in M[i]) and same(q.pc, FALSE, pre).status == 'differs':
            o.rec(f'{what}: nothing else drawn', 'violated', f'{q!r} at {q.at} is none of the series', str(q.at))
        else:
            o.rec(f'{what}: nothing else drawn', 'undecided', repr(q)[:200])
    if ok and all(any(x) for x in M):
        o.rec(f'{what}: nothing else drawn', 'proved', f'{len(got)} series')
    elif not ok:
        o.rec(f'{what}: nothing else drawn', 'undecided', 'a drawing call is not understood')


WRITES = ('fswrite',)
SAVERS = {'savefig', 'imsave', 'print_figure', 'print_pdf', 'print_png', 'savetxt'}


def saves(a):
    for e, loops in walk(a.events):
        if e.kind == 'fswrite' or (e.kind == 'mpl' and e.data[0] in SAVERS):
            pc = e.pc
            for l in loops:
                pc = T.band(pc, l.pc)
            if pc is not FALSE:
                yield e, pc


def files(o, what, a, pre, path, post):
    """writes only with both a directory and a name, there and under that name"""
    pre = T.band(pre, a.pc)
    names = []
    for e, pc in saves(a):
        if T.band(pc, pre) is FALSE or same(pc, FALSE, pre).status == 'proved':
            continue
        real = same(pc, FALSE, pre).status == 'differs'
        if path is None or post is None:
            o.rec(f'{what}: no file is written', 'violated' if real else 'undecided', f'{e.data[0]} {str(e.data[1])[:200]} when {T.show(pc)[:200]}', str(e.loc))
            continue
        kws = dict(e.data[2]) if e.kind == 'mpl' else {}
        f = e.data[1][0] if e.data[1] else kws.get('fname')
        if e.kind == 'fswrite' and e.data[0] in ('os.makedirs', 'os.mkdir'):
            o.rec(f'{what}: directory', 'proved' if f is PATH.n else 'undecided', str(f)[:100], str(e.loc))
            continue
        v = inside(f)
        if f is not None and (path.n not in T.subterms(f) or post.n not in T.subterms(f)):
            v = False               # depends on no directory or no name
        elif f is not None and has_unk(f):
            v = None
        if v is None:
            o.rec(f'{what}: file path', 'undecided', T.show(f)[:200] if f is not None else '', str(e.loc))
        elif v is False:
            o.rec(f'{what}: file path', 'violated' if real else 'undecided', f'{T.show(f)[:300]} is not a file of the given name in the given directory', str(e.loc))
        else:
            names.append((v, pc))
            o.rec(f'{what}: file path', 'proved', T.show(f)[:100], str(e.loc))
    if path is None or post is None:
        o.rec(f'{what}: no file is written', 'proved', '')
    elif names:
        # the requested figure is written on every returning path
        g = FALSE
        for v, pc in names:
            if not v.startswith('legend'):
                g = T.bor(g, pc)
        o.holds(f'{what}: the figure is written', g, pre)
        for i, (v, pc) in enumerate(names):
            for w, pd in names[:i]:
                if v == w and same(T.band(pc, pd), FALSE, pre).status == 'differs':
                    o.rec(f'{what}: two files of one name', 'violated', v)
    else:
        o.rec(f'{what}: the figure is written', 'violated' if not any(True for _ in saves(a)) else 'undecided', 'no file is written although a directory and a name are given')


def inside(f):
    """prefix of the file name if f is PATH/<prefix>POST<.suffix>; False: another place or name; None: unknown"""
    if f is None:
        return None
    if f.op == 'ite':
        a, b_ = inside(f.args[1]), inside(f.args[2])
        return None if None in (a, b_) else False if False in (a, b_) else a
    if f.op == 'pathjoin':
        parts = list(f.args)
    elif f.op == 'strcat' and len(f.args) >= 3 and f.args[0] is PATH.n:
        x = f.args[1]
        x = x.args[0] if isinstance(x, T.N) and x.op == 'str' else x
        if not (isinstance(x, str) and x.startswith('/')):
            return False
        parts = [PATH.n, node('strcat', x[1:], *f.args[2:])]
    elif f.op in ('str', 'symstr', 'strcat'):
        return False
    else:
        return None
    if len(parts) != 2 or parts[0] is not PATH.n:
        return None if len(parts) > 2 and parts[0] is PATH.n else False
    nm = parts[1]
    if nm is POST.n:
        return ''
    if nm.op not in ('strcat', 'str', 'symstr'):
        return None
    q = [x.args[0] if isinstance(x, T.N) and x.op == 'str' else x for x in nm.args] if nm.op == 'strcat' else [nm]
    k_ = [i for i, x in enumerate(q) if x is POST.n]
    if not k_:
        return False
    if len(k_) != 1 or any(not isinstance(x, str) for i, x in enumerate(q) if i != k_[0]):
        return None
    pre = ''.join(q[:k_[0]])
    suf = ''.join(q[k_[0] + 1:])
    if '/' in pre or '/' in suf or not suf.startswith('.') and suf:
        return False
    return pre + ':' + suf


# ---------------------------------------------------------------- vectors
def vec(h, nm, N, off=T.ZERO, sign='', f=None):
    base = node('arr', nm, sign)
    return node('vec', h.it.enc(h.it.newarr(mkarr((N,), f or (lambda i: mk_el(base, (T.add(i, off), T.ZERO)))))))


def bandof(h, N, sh):
    mu, sd = node('arr', 'mu', ''), node('arr', 'sd', 'nonneg')
    e = lambda s: vec(h, '', N, f=lambda i: T.add(mk_el(mu, (i, T.ZERO)), T.mul(T.mul(T.num(s), sh), mk_el(sd, (i, T.ZERO)))))
    return e(-1), e(1)


def run(ob, f, mk, req, extra=(), opts=True, ax=None):
    h = ob.h({}, dict(IMP))
    args, kw, pre = mk(h)
    flags = {k_: h.flag(v) for k_, v in COMMON.items() if k_ in opts}
    sh = T.sym('shade', 'real', 'pos')
    for path, post in ((PATH, POST), (None, None), (PATH, None), (None, POST)):
        what = f'{f}[{"dir" if path else "-"} {"name" if post else "-"}]'
        kws = dict(kw, **flags)
        if path is not None:
            kws['path_save'] = path
        if post is not None:
            kws['str_postfix'] = post
        if 'range_shade' in opts:
            kws['range_shade'] = Sc(sh, 'float')
        seen = watch(ob, h, args, kws)
        a = h.call(P + f, args, kws, pre)
        if a.dead:
            ob.rec(what + ': completes', 'undecided', 'no path returns')
            continue
        files(ob, what, a, pre, path, post)
        if path is not None and post is None or path is None and post is not None:
            continue
        R = req(h, sh)
        series(ob, what, a, R, pre)
        seen(what, a, pre)
        if ax:
            ax(ob, what, R)
        if path is None and 'range_shade' in opts:       # default width
            kws.pop('range_shade')
            a = h.call(P + f, args, kws, pre)
            series(ob, what + ' default band', a, req(h, h.it.enc(h.it.lookup_path('bayeso.constants.RANGE_SHADE'))), pre)


def sample(k_):
    def go(o):
        return samples(o, k_)
    return go


def samples(o, k_):
    def req(h, sh):
        if k_:
            Y = node('arr', 'Ys', '')
            return [Ser([vec(h, 'X', n), vec(h, '', n, f=lambda i, q=q: mk_el(Y, (T.num(q), i)))]) for q in range(k_)]
        q = T.fresh()
        T.set_range(q, m)
        Ys = node('arr', 'Ys', '')
        return [Ser([vec(h, 'X', n), vec(h, '', n, f=lambda i: mk_el(Ys, (q, i)))], loop=(q, m))]
    run(o, 'plot_gp_via_sample', lambda h: ([h.arr('X', n, 1), h.arr('Ys', k_ or m, n)], {}, TRUE), req, opts=('use_tex', 'draw_zero_axis', 'pause_figure'))


def distribution(truth):
    def go(o):
        def mk(h):
            kw = {'Y_test': h.arr('Yt', m, 1)} if truth else {}
            return [h.arr('X', n, 1), h.arr('Y', n, 1), h.arr('Xt', m, 1), h.arr('mu', m, 1), h.arr('sd', m, 1, sign='nonneg')], kw, TRUE

        def req(h, sh):
            x = vec(h, 'Xt', m)
            R = [Ser([x, vec(h, 'mu', m)]), Ser([x, *bandof(h, m, sh)], band=True), Ser([vec(h, 'X', n), vec(h, 'Y', n)])]
            return R + ([Ser([x, vec(h, 'Yt', m)])] if truth else [])
        run(o, 'plot_gp_via_distribution', mk, req, opts=('use_tex', 'draw_zero_axis', 'pause_figure', 'range_shade'))
    return go


def step(f, init):
    def go(o):
        acq = 'acq' in f

        def mk(h):
            args = [h.arr('X', n, 1), h.arr('Y', n, 1), h.arr('Xt', m, 1), h.arr('Yt', m, 1), h.arr('mu', m, 1), h.arr('sd', m, 1, sign='nonneg')]
            if acq:
                args.append(h.arr('aq', m, 1))
            kw, pre = {}, TRUE
            if init == 'less':
                kw, pre = {'num_init': h.dimv(ni)}, T.lt(ni, n)
            elif init == 'all':
                kw = {'num_init': h.dimv(n)}
            elif init == 'zero':
                kw = {'num_init': h.dimv(T.ZERO)}
            return args, kw, pre

        def req(h, sh):
            x = vec(h, 'Xt', m)
            R = [Ser([x, vec(h, 'Yt', m)]), Ser([x, vec(h, 'mu', m)]), Ser([x, *bandof(h, m, sh)], band=True)]
            pt = lambda lo, N: Ser([vec(h, 'X', N, lo), vec(h, 'Y', N, lo)])
            last = T.sub(n, T.ONE)
            if init == 'all':
                R += [pt(T.ZERO, n)]
            elif init == 'less':
                R += [pt(T.ZERO, ni), pt(ni, T.sub(last, ni)), pt(last, T.ONE)]
            elif init == 'zero':
                R += [pt(T.ZERO, T.ZERO), pt(T.ZERO, last), pt(last, T.ONE)]
            else:
                R += [pt(T.ZERO, last), pt(last, T.ONE)]
            return R + ([Ser([x, vec(h, 'aq', m)])] if acq else [])

        def ax(o, what, R):
            hits = [getattr(s, 'hit', None) for s in R]
            if None in hits or any(has_unk(q.ax) for q in hits):
                return
            o.true(what + ': the acquisition function has its own axes', all(q.ax is not hits[-1].ax for q in hits[:-1]), str(hits[-1].at))
            o.true(what + ': the other series share axes', len({q.ax for q in hits[:-1]}) == 1, str(hits[0].at))
        run(o, f, mk, req, opts=('use_tex', 'draw_zero_axis', 'pause_figure', 'range_shade'), ax=ax if acq else None)
    return go


def minimum(f, k_, std, incl, init):
    def go(o):
        nn = ni if init is None else T.num(init)
        N = T.add(nn, t)

        def mk(h):
            labels = h.it.newlist([sym(f'label{i}') for i in range(k_)])
            args = [h.arr('M', k_, r, N), labels, h.dimv(nn), std]
            if 'time' in f:
                args = [h.arr('T', k_, r, N if incl else t)] + args
            return args, {'include_marker': h.flag('marker'), 'include_legend': h.flag('legend')}, T.lt(T.ONE, r)

        def req(h, sh):
            R = []
            for e in range(k_):
                B = node('arr', 'M', '')
                s = h.call('spec.misc.best_so_far', [h.it.newarr(mkarr((r, N), lambda i, j: mk_el(B, (T.num(e), i, j)))), h.dimv(nn)], {}, T.lt(T.ONE, r))
                mean, sd = (toarr(h.it, h.it.getitem(s.val, i_(q))) for q in (1, 2))
                L = mean.shape[0]
                if 'time' in f:
                    TB = node('arr', 'T', '')
                    tm = h.call('spec.misc.times', [h.it.newarr(mkarr((r, N if incl else t), lambda i, j: mk_el(TB, (T.num(e), i, j)))), h.dimv(nn), incl])
                    x = node('vec', tm.enc)
                else:
                    x = vec(h, '', L, f=lambda i: i)
                lab = node('symstr', f'label{e}')
                R.append(Ser([x, vec(h, '', L, f=lambda i: mean.el(i))], label=lab))
                if std:
                    g = lambda sg: vec(h, '', L, f=lambda i: T.add(mean.el(i), T.mul(T.mul(T.num(sg), sh), sd.el(i))))
                    R.append(Ser([x, g(-1), g(1)], band=True))
            return R
        run(o, f, mk, req, opts=('use_tex', 'pause_figure', 'range_shade'))
    return go


def names(o):
    """figures of different kinds saved under the same name do not overwrite each other"""
    got = {}
    h = o.h({}, dict(IMP))
    V = [h.arr('X', n, 1), h.arr('Y', n, 1), h.arr('Xt', m, 1), h.arr('Yt', m, 1), h.arr('mu', m, 1), h.arr('sd', m, 1)]
    L = h.it.newlist(['a'])
    M_ = h.arr('M', 1, r, T.add(ni, t))
    for f, args in (('plot_gp_via_sample', [V[0], h.arr('Ys', m, n)]), ('plot_gp_via_distribution', [V[0], V[1], V[2], V[4], V[5]]), ('plot_bo_step', V),
                    ('plot_bo_step_with_acq', V + [h.arr('aq', m, 1)]), ('plot_minimum_vs_iter', [M_, L, h.dimv(ni), True]), ('plot_minimum_vs_iter', [M_, L, h.dimv(ni), False]),
                    ('plot_minimum_vs_time', [h.arr('T', 1, r, t), M_, L, h.dimv(ni), True]), ('plot_minimum_vs_time', [h.arr('T', 1, r, t), M_, L, h.dimv(ni), False])):
        a = h.call(P + f, args, {'path_save': PATH, 'str_postfix': POST})
        for e, pc in saves(a):
            x = e.data[1][0] if e.data[1] else None
            v = inside(x)
            if v is None:
                o.rec('file names', 'undecided', f)
            elif v and v.split(':')[0].startswith('legend'):
                continue
            elif v in got and got[v] != (f, args[-1]):
                o.rec(f'{f}: own file name', 'violated', f'{T.show(x)} is also written by {got[v][0]}', str(e.loc))
            else:
                got[v] = (f, args[-1])
                o.rec(f'{f}: own file name', 'proved', str(v))


def build(c):
    for k_ in (None, 1, 2, 3):
        c.add(f'sample.{k_}', F + 'plot_gp_via_sample', sample(k_))
    for tr in (True, False):
        c.add(f'distribution.{tr}', F + 'plot_gp_via_distribution', distribution(tr))
    for f in ('plot_bo_step', 'plot_bo_step_with_acq'):
        for init in (None, 'less', 'all', 'zero'):
            c.add(f'{f}.{init}', F + f, step(f, init))
    for std in (True, False):
        for k_ in (1, 2) + ((3,) if c.thorough else ()):
            for init in (None, 1):
                c.add(f'iter.{std}.{k_}.{init}', F + 'plot_minimum_vs_iter', minimum('plot_minimum_vs_iter', k_, std, None, init))
                for incl in (True, False):
                    c.add(f'time.{std}.{k_}.{incl}.{init}', F + 'plot_minimum_vs_time', minimum('plot_minimum_vs_time', k_, std, incl, init))
    c.add('names', F + '_save_figure', names)
