"""C08: seeds and global generator state."""
import ast
import itertools
from .runlib import *
from sa.check import walk

LEVEL = 'proof'
TECHNIQUE = TECH + 'every random number is a term naming its generator, seed and position; plus a call-site rule against reseeding the shared generators'
NOTE = ('get_samples / get_initials of the three model classes, every method, symbolic seed (including 0) and without seed: the result equals the reference draw from the generator seeded with that seed (or a fresh one), also after other calls on the same model, with the same or another seed; '
        'optimize of the three models: starts / candidates come from that seed; both wrapper APIs: initial points come from the seed given. None of these draws from numpy\'s or Python\'s global generator. '
        'Call-site rule over every module: nothing seeds or restores a global generator. Fits and forests are summarised (trees legitimately draw from the global generator).')
SUR = ('gp', 'tp', 'rf')
GLOBALS = ('global', 'pyglobal')


def isglobal(e):
    if e.kind in ('reseed', 'rngstate'):
        t = e.data[0]
        return isinstance(t, T.N) and t.op == 'rng' and t.args and t.args[0] in GLOBALS
    if e.kind == 'draw':
        t = e.data[1]
        return isinstance(t, T.N) and t.op == 'rng' and t.args and t.args[0] in GLOBALS
    return e.kind == 'pyrandom'


def quiet(o, what, a, pre=TRUE):
    """no use of a global generator"""
    bad = None
    for e, _ in walk(a.events):
        if e.kind in ('reseed', 'rngstate', 'draw', 'pyrandom') and isglobal(e) and T.simp(e.pc, pre) is not FALSE:
            bad = e
            break
    if bad is None:
        o.rec(what + ': no global generator is read, advanced or seeded', 'proved', f'{len(list(walk(a.events)))} events')
        return
    r = same(bad.pc, FALSE, pre)
    o.rec(what + ': no global generator is read, advanced or seeded', 'proved' if r.status == 'proved' else 'violated' if r.status == 'differs' else 'undecided', f'{bad.kind} {str(bad.data)[:200]} when {T.show(bad.pc)[:200]}',
          at=str(getattr(bad, 'loc', '')) or None)


def sampled(sur, nm):
    def go(o):
        for entry, seed in itertools.product(('get_samples', 'get_initials'), (True, False)):
            if entry == 'get_initials' and nm == 'grid':
                continue
            dd = T.num(2) if nm == 'grid' else d
            h = o.h()
            M = h.new('bayeso.bo.' + {'gp': 'BOwGP', 'tp': 'BOwTP', 'rf': 'BOwTrees'}[sur], [bounds(h, dd=dd)])
            sd = lambda: h.int('seed') if seed else None
            f = lambda s: h.call(h.meth(M, entry), [nm, h.int('N', 1)], {'seed': s})
            a = f(sd())
            if a.dead:
                o.returns(entry, a)
                continue
            r = h.call('spec.bo.sample', [bounds(h, dd=dd), nm, h.int('N', 1), sd()])
            t = f'{entry}({nm}, {"seed" if seed else "no seed"})'
            o.eq(t + ' is drawn from the generator of the seed' if seed else t + ' is drawn from a fresh generator', a.enc, r.enc, band(a.pc, r.pc))
            quiet(o, t, a)
            if seed:
                h.keep = True
                a = f(sd())
                for other in ('uniform', nm):
                    x = h.call(h.meth(M, 'get_samples'), [other, h.int('N2', 1)], {'seed': None if other == 'uniform' else h.int('seed2')}) if not (nm == 'grid' and other == 'grid') else None
                b = f(sd())
                o.eq(t + ': the same again after other calls on the model', b.enc, a.enc, band(a.pc, b.pc))
                h.keep = False
                M = h.new('bayeso.bo.' + {'gp': 'BOwGP', 'tp': 'BOwTP', 'rf': 'BOwTrees'}[sur], [bounds(h, dd=dd)])
                h.keep = True
                x = f(h.int('seed2'))
                b = f(sd())
                o.eq(t + ': not that of an earlier call with another seed', b.enc, r.enc, band(band(r.pc, x.pc), b.pc))
    return go


def optimised(cf):
    from . import c06

    def go(o):
        def run(o, lv):
            h = o.h(lv, c06.I)
            M = cf.model(h)
            a = cf.run(h, M)
            if a.dead:
                o.returns('optimize', a)
                return
            r = cf.ref(h)
            pre = band(a.pc, r.pc)
            o.eq('candidates come from the seed given', h.it.enc(h.it.getitem(a.val[1], 'next_points')), h.it.enc(h.it.getitem(r.val[1], 'next_points')), pre)
            quiet(o, 'optimize', a)
        o.tiers([LEVELS, LEVELS2], run)
    return go


def run(api, sur, init, seed):
    """initial points of a whole run are those of the seed"""
    def go(o):
        h = o.h(OPTS)
        it = h.it
        f = target(h, False)
        sd = h.int('seed') if seed else None
        NI, K = h.int('ni', 1), h.int('K', 1)
        if api == 'class':
            kw = {'str_initial_method_bo': init, 'str_surrogate': sur}
            if sur == 'rf':
                kw['str_optimizer_method_bo'] = 'random_search'
            a = h.call(h.meth(h.new(WC, [bounds(h), f, K], kw), 'optimize'), [NI], {'seed': sd})
        else:
            a = h.call(WF + 'run_single_round', [bare(h, sur), f, NI, K], dict(str_initial_method_bo=init, seed=sd))
        if a.dead:
            o.returns('run', a)
            return
        s = h.call('spec.bo.sample', [bounds(h), init, NI, sd])
        X, S = toarr(it, a.val[0]), toarr(it, s.val)
        i, j = T.fresh(), T.fresh()
        T.set_range(i, NI.n)
        T.set_range(j, d)
        o.eq('initial points of the run are drawn from ' + ('the seed given' if seed else 'a fresh generator'), T.simp(X.el(i, j), band(a.pc, s.pc)), S.el(i, j), band(a.pc, s.pc))
        quiet(o, 'run', a)
    return go


def thompson(o):
    h = o.h({TSI: tsi})
    a = h.call('bayeso.thompson_sampling.thompson_sampling_gp', [bounds(h), target(h, False), h.int('ni', 1), h.int('K', 1)])
    if a.dead:
        o.returns('thompson_sampling_gp', a)
        return
    quiet(o, 'thompson_sampling_gp', a)


BAD = {'seed', 'set_state', 'setstate'}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and b + '.' + e.attr
    return None


def sites(mod):
    """no call site of the module reseeds or restores a global generator"""
    def go(o):
        tree = hn.repo().trees[mod]
        alias = {}
        for s in ast.walk(tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(s, ast.ImportFrom) and s.module and not s.level:
                for a in s.names:
                    alias[a.asname or a.name] = s.module + '.' + a.name
        for s in ast.walk(tree):            # module objects bound to variables
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                q = dotted(s.value)
                if q and q.split('.')[0] in alias:
                    full = '.'.join([alias[q.split('.')[0]]] + q.split('.')[1:])
                    if full in ('numpy.random', 'random') or full.startswith('numpy.random.') and full.rsplit('.', 1)[1] in BAD:
                        alias[s.targets[0].id] = full
        k = 0
        for fn in ast.walk(tree):
            if not isinstance(fn, ast.Call):
                continue
            k += 1
            q = dotted(fn.func)
            if not q:
                continue
            full = '.'.join([alias.get(q.split('.')[0], '?')] + q.split('.')[1:])
            if (full.startswith('numpy.random.') or full.startswith('random.')) and full.rsplit('.', 1)[1] in BAD:
                o.rec('no call site seeds a global generator', 'violated', f'{mod.replace(".", "/")}.py:{fn.lineno}: {ast.unparse(fn)[:120]}', at=f'{mod.replace(".", "/")}.py:{fn.lineno}')
        o.rec('no call site seeds a global generator', 'proved', f'{k} call sites')
    return go


def build(c):
    for sur in SUR:
        for nm in SAMPLING + ('grid',):
            c.add(f'samples.{sur}.{nm}', 'bayeso/bo/base_bo.py:get_samples', sampled(sur, nm))
        for nm in SAMPLING:
            for seed in ('seed', None):
                c.add(f'optimize.{sur}.{nm}.{seed}', f'bayeso/bo/bo_w_{dict(gp="gp", tp="tp", rf="trees")[sur]}.py:optimize', optimised(Cfg(sur, samp=nm, seed=seed, N=T.dim('N'))))
        if sur != 'rf':
            c.add(f'optimize.{sur}.CMA', f'bayeso/bo/bo_w_{sur}.py:_optimize', optimised(Cfg(sur, opt='CMA-ES', samp='uniform', N=T.dim('N'), dim=T.add(d, T.num(1)))))
    for init in SAMPLING:
        for seed in (True, False):
            c.add(f'run.fun.{init}.{seed}', 'bayeso/wrappers/wrappers_bo_function.py:run_single_round', run('fun', 'gp', init, seed))
            for sur in SUR:
                c.add(f'run.class.{sur}.{init}.{seed}', 'bayeso/wrappers/wrappers_bo_class.py:optimize', run('class', sur, init, seed))
    c.add('thompson', 'bayeso/thompson_sampling.py:thompson_sampling_gp', thompson)
    for mod in sorted(hn.repo().trees):
        if mod == 'bayeso' or mod.startswith('bayeso.'):
            c.add('sites.' + mod, mod.replace('.', '/') + '.py', sites(mod))
