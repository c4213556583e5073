"""C23: loggers and rendering."""
from .common import *
from sa.check import walk
from . import opaque as Q

LEVEL = 'proof'
TECHNIQUE = TECH + 'logger and handler-list effects of get_logger from an arbitrary handler state; strings as concatenation terms over formatted elements compared with reference renderings'
NOTE = ('get_logger with a symbolic name: from an empty handler list it leaves exactly one handler, from a list of one it adds none, it configures no other logger and returns the logger of that very name; '
        'by induction any number of requests leaves one handler. Logger names of models distinguish experiments. Renderings equal reference strings for symbolic sizes, element by element. '
        'Elements are double precision (or integers); the logging module itself is trusted.')

F = 'bayeso/utils/utils_logger.py'
UL = 'bayeso.utils.utils_logger.'


def sym(nm):
    return Op(node('symstr', nm), 'str')


def logger(ob, state):
    h = ob.h()
    nm = sym('name')
    key = h.it.enc(nm)
    items = [Op(node('loghandler', 'old'), 'handler')] if state == 'one' else []
    l = h.it.newlist(items)
    h.it.handlers[key] = l
    o = h.call(UL + 'get_logger', [nm])
    ob.returns(f'get_logger[{state}]', o)
    if o.dead:
        return
    ob.eq(f'get_logger[{state}]: returned logger', o.enc, node('logger', key))
    ob.eq(f'get_logger[{state}]: number of handlers', h.it.enc(Sc(h.it.list_len(h.it.cell(l)), 'int')), T.num(1), o.pc)
    if state == 'one':
        ob.eq('get_logger[one]: handler kept', h.it.enc(h.it.getitem(l, i_(0))), node('loghandler', 'old'), o.pc)
    lev = None
    for e, _ in walk(o.events):
        if e.kind in ('logcfg', 'log') and e.data[1].op == 'logger' and e.data[1] is not node('logger', key):
            ob.rec(f'get_logger[{state}]: other logger {e.data[0]}', 'violated', 'configures another logger', e.loc)
        if e.kind == 'logcfg' and e.data[0] == 'setLevel':
            v = e.data[2][0] if e.data[2] else None
            if v is not None and T.isnum(v) and T.val(v) > 10:
                ob.rec(f'get_logger[{state}]: level', 'violated', f'level {T.val(v)} suppresses debug messages', e.loc)
            elif e.data[1] is node('logger', key):
                lev = v
        if e.kind == 'log':
            ob.rec(f'get_logger[{state}]: emits a message', 'violated', 'requesting a logger logs', e.loc)
    ob.noevents(f'get_logger[{state}]: global logging configuration', o, ('globalstate',))
    if state == 'none' and lev is None:
        ob.rec('get_logger[none]: level set', 'violated', 'a new logger keeps the level of its ancestors (warning by default)', F)
    else:
        ob.rec(f'get_logger[{state}]: level', 'proved', '', F)


def twice(ob):
    """two requests in a row from nothing"""
    h = ob.h()
    nm = sym('name')
    key = h.it.enc(nm)
    l = h.it.newlist([])
    h.it.handlers[key] = l
    a = h.call(UL + 'get_logger', [nm])
    b = h.call(UL + 'get_logger', [nm])
    ob.eq('same name, same logger', a.enc, b.enc)
    ob.eq('handlers after two requests', h.it.enc(Sc(h.it.list_len(h.it.cell(l)), 'int')), T.num(1), b.pc)
    c = h.call(UL + 'get_logger', [sym('other')])
    ob.eq('other name: its own logger', c.enc, node('logger', h.it.enc(sym('other'))))


def names(ob, sur, cls):
    h = ob.h(opaque=Q.LEAVES if hasattr(Q, 'LEAVES') else None)
    e1, e2 = sym('exp1'), sym('exp2')
    got = []
    for e in (e1, e2, None):
        kw = {'str_exp': e} if e is not None else {}
        M = h.new(cls, [h.arr('R', d, 2)], kw)
        if M is None:
            ob.rec(f'{sur}: construction', 'undecided', '', F)
            return
        got.append(h.it.enc(h.it.getattr(M, 'logger')))
    for g, e in zip(got, (e1, e2, None)):
        if e is None:
            continue
        if g.op != 'logger':
            ob.rec(f'{sur}: logger name', 'undecided', '', F)
            return
    def mentions(g, e):
        return any(u is e.n for u in T.subterms(g))
    for k, e in ((0, e1), (1, e2)):
        res = mentions(got[k], e)
        ob.rec(f'{sur}: the logger name contains the experiment name ({k})', 'proved' if res else 'violated', '' if res else 'experiments share a logger', 'bayeso/bo/base_bo.py')
    if got[2] is got[0] or got[2] is got[1]:
        ob.rec(f'{sur}: named and unnamed experiments', 'violated', 'named and unnamed experiments share a logger', 'bayeso/bo/base_bo.py')
    return got


def messages(ob):
    """different surrogates with the same experiment name have separate loggers"""
    h = ob.h()
    got = {}
    for sur, cls in CL:
        M = h.new(cls, [h.arr('R', d, 2)], {'str_exp': sym('exp')})
        if M is not None:
            got[sur] = h.it.enc(h.it.getattr(M, 'logger'))
    for a in got:
        for b in got:
            if a < b:
                ob.rec(f'{a} and {b}: separate loggers', 'violated' if got[a] is got[b] else 'proved', '', 'bayeso/bo/base_bo.py')


CL = (('gp', 'bayeso.bo.bo_w_gp.BOwGP'), ('tp', 'bayeso.bo.bo_w_tp.BOwTP'), ('rf', 'bayeso.bo.bo_w_trees.BOwTrees'))


def arrs(h, nd, dt):
    sh = (n, m, k)[:nd]
    if dt == 'int':
        b = node('arr', 'Z', '')
        return h.carr('Z', sh, lambda *ix: node('toint', mk_el(b, ix)), 'int')
    return h.arr('Z', *sh)


def render(ob, code, nd, dt):
    sp = f'spec.log.array{nd}' + ('_int' if dt == 'int' else '')
    ob.fn(f'{code}[{nd}d,{dt}]', UL + code, sp, lambda h: ([arrs(h, nd, dt)], {}))


def hyps(ob, ard, extra):
    h = ob.h()
    ex = {'dof': h.fl('dof', 'pos')} if extra == 'tp' else {'nl': h.int('q', 1)} if extra == 'int' else {}
    D = h.hyps(ard, **ex)
    o = h.call(UL + 'get_str_hyps', [D])
    ob.returns('get_str_hyps', o)
    if o.dead:
        return
    parts = ['{']
    for i, q in enumerate(['signal', 'lengthscales', 'noise'] + list(ex)):
        parts.append((', ' if i else '') + "'" + q + "': ")
        v = h.it.getitem(D, q)
        if isinstance(v, Ref):
            parts.append(h.it.enc(h.call('spec.log.array1', [v]).val))
        else:
            parts.append(node('fmt', h.it.enc(v), '' if v.ty == 'int' else '.3f', -1))
    parts.append('}')
    ob.eq(f'get_str_hyps[ard={ard},{extra}]', o.enc, h.it.models.mkstr(parts), o.pc)


def bad(ob, code, nd):
    h = ob.h()
    if nd == 4:
        z = h.arr('Z', n, m, k, d)
    else:
        z = h.arr('Z', *(n, m, k)[:nd])
    ob.rejects(f'{code} of rank {nd}', h.call(UL + code, [z]))


def build(c):
    for st in ('none', 'one'):
        c.add(f'get_logger[{st}]', F, lambda ob, st=st: logger(ob, st))
    c.add('get_logger:twice', F, twice)
    for s, cl in CL:
        c.add(f'names[{s}]', 'bayeso/bo/base_bo.py', lambda ob, s=s, cl=cl: names(ob, s, cl))
    c.add('names[surrogates]', 'bayeso/bo/base_bo.py', messages)
    for nd in (1, 2, 3):
        for dt in ('real', 'int'):
            for code in (f'get_str_array_{nd}d', 'get_str_array'):
                c.add(f'{code}[{nd},{dt}]', F, lambda ob, code=code, nd=nd, dt=dt: render(ob, code, nd, dt))
    for ard in (True, False):
        for ex in ('gp', 'tp', 'int'):
            c.add(f'get_str_hyps[{ard},{ex}]', F, lambda ob, ard=ard, ex=ex: hyps(ob, ard, ex))
    c.add('get_str_array[4]', F, lambda ob: bad(ob, 'get_str_array', 4))
