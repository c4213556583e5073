"""C21: without the optional packages."""
import itertools
from .runlib import *
from .common import hn
from .c22 import PATH, POST, DRAW, saves
from sa.check import walk

LEVEL = 'proof'
TECHNIQUE = TECH + 'availability of each optional package as a symbolic or enumerated condition of its import statement; value graphs with a package missing compared with those of the bounded local optimiser; effects of plotting functions without their package'
NOTE = ('Every module of the library for an arbitrary subset of missing packages (scipydirect, cma, matplotlib, pylab): import completes. Model and class APIs of both process surrogates, every optimiser and every subset of missing optimiser packages, one and more dimensions: '
        'proposal and everything else computed equal those of the L-BFGS-B configuration and a warning is logged; with the package present the requested optimiser is used. Plotting functions with either plotting package missing: no drawing, no file, no error. '
        'A missing package is one whose import statement raises ImportError.')
OPTIONAL = ('scipydirect', 'cma', 'matplotlib', 'pylab')
P = 'bayeso.utils.utils_plotting.'
UB = 'bayeso.utils.utils_bo.'


def avail(which, bits):
    return dict(zip(which, bits))


def modules():
    return sorted(q for q in hn.repo().trees if not q.startswith('spec'))


def imports(mod):
    def go(o):
        for miss in (None,) + tuple(itertools.product((True, False), repeat=len(OPTIONAL))):
            h = o.h({}, None if miss is None else avail(OPTIONAL, miss))
            it = h.it
            what = f'import {mod}' + (' with any packages missing' if miss is None else ' without ' + ', '.join(q for q, v in zip(OPTIONAL, miss) if not v) if not all(miss) else ' with all packages')
            try:
                h.reset()
                it.module(mod)
                dead = not it.alive
            except hn.DeadPath:
                dead = True
            if dead or it.pc is FALSE:
                ev = [e for e in it.events if e.kind in ('raise', 'mayraise')]
                o.rec(what, 'violated', 'the import fails: ' + '; '.join(f'{e.data} at {e.loc}' for e in ev[-3:]), str(ev[-1].loc) if ev else None)
                continue
            o.holds(what, it.pc)
    return go


def nested(o):
    """imports inside functions: only of packages that are always there, or guarded"""
    import ast
    count = 0
    for mod in modules():
        tree = hn.repo().trees[mod]

        def visit(node_, guarded, infn):
            nonlocal count
            if isinstance(node_, ast.Try) and node_.handlers and any(h.type is None or {getattr(x, 'id', getattr(x, 'attr', '')) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
                                                                      & {'ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException'} for h in node_.handlers):
                for q in node_.body:
                    visit(q, True, infn)
                for q in node_.handlers + node_.orelse + node_.finalbody:
                    visit(q, guarded, infn)
                return
            if isinstance(node_, (ast.Import, ast.ImportFrom)):
                nms = [a.name for a in node_.names] if isinstance(node_, ast.Import) else [node_.module or ''] if not node_.level else []
                for q in nms:
                    count += 1
                    top = q.split('.')[0]
                    if top in OPTIONAL and infn and not guarded:
                        o.rec(f'{mod}: import of {q}', 'undecided', f'line {node_.lineno}: an import inside a function, outside a handler')
            for q in ast.iter_child_nodes(node_):
                visit(q, guarded, infn or isinstance(node_, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)))
        visit(tree, False, False)
    o.rec('import statements', 'proved', f'{count} import statements in {len(modules())} modules')


def warned(o, what, events, want, pre=TRUE):
    lg = []
    for e, loops in walk(events):
        if e.kind == 'log' and e.data[0] in ('warning', 'warn', 'error', 'critical') and not loops:
            lg.append(e.pc)
        elif e.kind == 'extcall' and str(e.data[0]).startswith('warnings.'):
            lg.append(e.pc)
    c = FALSE
    for q in lg:
        c = T.bor(c, q)
    if want:
        o.holds(what + ': a warning is given', c, pre)


def choice(nm):
    def go(o):
        for direct, cma in itertools.product((True, False), repeat=2):
            for one in (True, False):
                h = o.h(None, {'scipydirect': direct, 'cma': cma})
                b = h.call(UB + 'check_optimizer_method_bo', [nm, Sc(T.num(1), 'int') if one else h.dimv(T.add(d, T.num(1))), h.flag('debug')])
                what = f'{nm}, scipydirect {"present" if direct else "missing"}, cma {"present" if cma else "missing"}, {"one dimension" if one else "more dimensions"}'
                if not o.returns(what, b) and b.dead:
                    continue
                gone = (nm == 'DIRECT' and not direct) or (nm == 'CMA-ES' and not cma)
                want = 'L-BFGS-B' if gone or (nm == 'CMA-ES' and one) else nm
                o.eq(f'{what}: {want}', b.enc, h.it.enc(want), b.pc)
                warned(o, what, b.events, gone)
    return go


D1 = T.add(d, T.num(1))


def same_run(o, what, h, a, g, r):
    """two runs compute the same; minimisers are called alike"""
    if a.dead or r.dead:
        if r.dead:
            o.rec(what, 'undecided', 'the reference does not return')
        else:
            o.rec(what + ': completes', 'violated', 'no path returns; ' + '; '.join(str(e.data)[:80] for e in a.events if e.kind in ('raise', 'attrerror', 'attrnone'))[:400])
        return
    pre = band(a.pc, r.pc)
    o.eq(what + ': completes as L-BFGS-B does', a.pc, r.pc)
    it, jt = h.it, g.it
    o.eq(what + ': proposal', it.enc(a.val[0]), jt.enc(r.val[0]), pre)
    for q in KEYS:
        o.eq(f'{what}: {q}', it.enc(it.getitem(a.val[1], q)), jt.enc(jt.getitem(r.val[1], q)), pre)


def optimises(cf, api):
    """proposals with the package missing are those of the bounded local optimiser"""
    def go(o):
        def run(o, lv):
            for direct, cma in ((False, False), (False, True)) if cf.opt == 'DIRECT' else ((False, False), (True, False)) if cf.opt == 'CMA-ES' else ((False, False),):
                what = f'{cf.opt} without ' + ', '.join(q for q, v in (('scipydirect', direct), ('cma', cma)) if not v)
                outs = []
                for opt, im in ((cf.opt, {'scipydirect': direct, 'cma': cma, 'matplotlib': False, 'pylab': False}), ('L-BFGS-B', {q: True for q in OPTIONAL})):
                    h = o.h(lv, im)
                    c2 = Cfg(**{**cf.__dict__, 'opt': opt})
                    if api == 'model':
                        M = c2.model(h)
                    else:
                        from .c06 import opts
                        c2.seed = None
                        M = h.new(WC, [bounds(h, dd=cf.dim), h.user('f'), h.int('K', 1)], opts(c2, h))
                    if M is None:
                        o.rec(what + ': model', 'violated' if im['matplotlib'] is False else 'undecided', 'construction fails')
                        return
                    a = c2.run(h, M) if api == 'model' else h.call(h.meth(M, 'optimize_single_iteration'), list(c2.data(h)))
                    outs.append((h, a))
                (h, a), (g, r) = outs
                same_run(o, what, h, a, g, r)
        o.tiers([LEVELS, LEVELS2], run)
    return go


def warns(sur, opt, api):
    """creating a model that asks for a missing optimiser logs a warning"""
    def go(o):
        h = o.h({}, {q: False for q in OPTIONAL})
        e0 = len(h.it.events)
        cf = Cfg(sur, opt=opt, dim=D1)
        if api == 'model':
            M = cf.model(h)
        else:
            from .c06 import opts
            M = h.new(WC, [bounds(h, dd=D1), h.user('f'), h.int('K', 1)], opts(cf, h))
        if M is None:
            o.rec('construction', 'violated', 'the model cannot be created')
            return
        o.eq('optimiser of the model', h.it.enc(h.it.getattr(M, 'str_optimizer_method_bo')), h.it.enc('L-BFGS-B'))
        warned(o, f'{sur} model asking for {opt}', h.it.events[e0:], True, okbox(h, D1))
    return go


def plots(f, mk):
    def go(o):
        for mpl, pyl in ((False, False), (False, True), (True, False)):
            h = o.h({}, {'matplotlib': mpl, 'pylab': pyl, 'scipydirect': True, 'cma': True})
            r = mk(h)
            args, kw, pre = (r + (TRUE,))[:3] if isinstance(r, tuple) else (r, {}, TRUE)
            for saved in (True, False):
                what = f'{f} without ' + ', '.join(q for q, v in (('matplotlib', mpl), ('pylab', pyl)) if not v) + (', to be saved' if saved else '')
                kw2 = dict(kw, use_tex=h.flag('tex'), pause_figure=h.flag('pause'), **({'path_save': PATH, 'str_postfix': POST} if saved else {}))
                a = h.call(P + f, args, kw2, pre)
                if a.dead:
                    o.rec(what + ': returns', 'violated', 'no path returns: ' + '; '.join(f'{e.kind} {e.data}'[:100] for e in a.events if e.kind in ('raise', 'attrnone', 'attrerror'))[:300])
                    continue
                o.returns(what, a, pre)
                bad = False
                for e, loops in walk(a.events):
                    if e.kind in ('mpl', 'fswrite', 'attrnone', 'attrerror') and T.simp(e.pc, T.band(pre, a.pc)) is not FALSE and same(e.pc, FALSE, pre).status == 'differs':
                        o.rec(f'{what}: draws and writes nothing', 'violated', f'{e.kind} {str(e.data)[:200]}', str(e.loc))
                        bad = True
                        break
                if not bad:
                    o.rec(f'{what}: draws and writes nothing', 'proved', '')
                if a.enc is not node('none'):
                    o.eq(what + ': result', a.enc, node('none'), a.pc)
    return go


def build(c):
    from .c07 import PLOTS
    for mod in modules():
        c.add('import.' + mod, mod.replace('.', '/'), imports(mod))
    c.add('imports in functions', 'bayeso', nested)
    for nm in ('L-BFGS-B', 'DIRECT', 'CMA-ES', 'random_search'):
        c.add('choice.' + nm, 'bayeso/utils/utils_bo.py:check_optimizer_method_bo', choice(nm))
    for sur in ('gp', 'tp'):
        for opt in ('DIRECT', 'CMA-ES'):
            for api in ('model', 'class'):
                c.add(f'warns.{sur}.{opt}.{api}', 'bayeso/bo/base_bo.py', warns(sur, opt, api))
        for opt in ('L-BFGS-B', 'DIRECT', 'CMA-ES'):
            for acq in (('ei', 'ucb') if not c.thorough else ACQ):
                for api in ('model', 'class'):
                    cf = Cfg(sur, acq=acq, opt=opt, dim=D1 if opt == 'CMA-ES' else d)
                    c.add(f'optimise.{cf}.{api}', f'bayeso/bo/bo_w_{sur}.py:optimize', optimises(cf, api))
    for f, mk in sorted(PLOTS.items()):
        c.add('plot.' + f, 'bayeso/utils/utils_plotting.py:' + f, plots(f, mk))
