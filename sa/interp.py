"""Abstract interpreter: builds gated value graphs from the repository's AST.

No repository code is executed.  Control-flow joins merge states (no path
enumeration); loops over symbolic ranges are summarised (sums, maps, minima,
array fills, or fold recurrences).
"""
import ast
import os
import sys
from .terms import *
from . import terms as T
from .values import *

sys.setrecursionlimit(20000)


class DeadPath(Exception):
    pass


class Unsupported(Exception):
    pass


EXC_PARENTS = {
    'AssertionError': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception', 'KeyError': 'LookupError',
    'IndexError': 'LookupError', 'LookupError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'RuntimeError': 'Exception', 'numpy.linalg.LinAlgError': 'ValueError', 'ImportError': 'Exception',
    'ModuleNotFoundError': 'ImportError', 'Exception': 'BaseException', 'AttributeError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'FloatingPointError': 'ArithmeticError',
    'OSError': 'Exception', 'KeyboardInterrupt': 'BaseException', 'StopIteration': 'Exception',
    'BaseException': None,
}
EXC_ALIAS = {'scipy.linalg.LinAlgError': 'numpy.linalg.LinAlgError', 'np.linalg.LinAlgError': 'numpy.linalg.LinAlgError',
             'numpy.linalg.linalg.LinAlgError': 'numpy.linalg.LinAlgError', 'scipy.linalg._misc.LinAlgError': 'numpy.linalg.LinAlgError',
             'IOError': 'OSError'}


def exc_is(e, h):
    if e == 'UserError':  # whatever the caller's function raises
        return True
    e = EXC_ALIAS.get(e, e)
    h = EXC_ALIAS.get(h, h)
    while e is not None:
        if e == h:
            return True
        e = EXC_PARENTS.get(e, 'Exception' if e != 'Exception' and e != 'BaseException' else EXC_PARENTS.get(e))
    return False


class Ev:
    __slots__ = ('kind', 'data', 'pc', 'loc', 'sub')

    def __init__(self, kind, data, pc, loc, sub=None):
        self.kind, self.data, self.pc, self.loc, self.sub = kind, data, pc, loc, sub

    def __repr__(self):
        return f'Ev({self.kind},{self.data},{show(self.pc)},{self.loc},{self.sub})'


class Ctx:
    pass


class Repo:
    """parsed repository (shared between interpreters)"""

    def __init__(self, root, package='bayeso', extra=None):
        self.root = root
        self.package = package
        self.trees = {}
        self.files = {}
        self.errors = []
        self.nfunc = 0
        roots = [(root, package)]
        if extra:
            roots.append(extra)
        for r, p in roots:
            base = os.path.join(r, p)
            for dp, dn, fnm in os.walk(base):
                dn.sort()
                for f in sorted(fnm):
                    if f.endswith('.py'):
                        full = os.path.join(dp, f)
                        rel = os.path.relpath(full, r)
                        m = rel[:-3].replace(os.sep, '.')
                        if m.endswith('.__init__'):
                            m = m[:-9]
                        try:
                            src = open(full, encoding='utf-8').read()
                            self.trees[m] = ast.parse(src, full)
                            self.files[m] = full
                        except SyntaxError as e:
                            self.errors.append((full, str(e)))
        for t in self.trees.values():
            self.nfunc += sum(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(t))


class Interp:
    unroll = {}         # recursive functions that may be followed further (on concrete structures)

    def __init__(self, repo, opaque=None, imports=None, max_depth=60):
        self.repo = repo
        self.opaque = dict(opaque or {})      # qualname -> summary(interp, bound args dict) or None
        self.imports = dict(imports or {})    # optional package -> True/False
        self.heap = {}
        self.nid = 0
        self.pc = TRUE
        self.alive = True
        self.events = []
        self.tries = []
        self.loops = []
        self.funs = []
        self.modules = {}
        self.loc = None
        self.depth = 0
        self.max_depth = max_depth
        self.visited = set()       # functions visited
        self.calls = 0
        self.captured = set()
        self.scope = [dict()]
        self.loopvars = []
        self.rec = {}
        self.recname = {}
        self.shape_issues = []
        self.lib = None
        self.visited_stmts = 0
        self.rngkeys = {}
        self.handlers = {}      # logger name -> list of its handlers (only where a check models it)
        self.muts = []
        from . import models
        self.models = models
        self.callstack = []

    # ------------------------------------------------------------ heap
    def alloc(self, kind, cell):
        self.nid += 1
        self.heap[self.nid] = cell
        return Ref(self.nid, kind)

    def cell(self, r):
        return self.heap[r.id]

    def newlist(self, items, origin=None):
        return self.alloc('list', ListCell([('item', v) for v in items], origin))

    def newdict(self, d=None, origin=None, base=None):
        return self.alloc('dict', DictCell(dict(d or {}), origin, base))

    def newarr(self, a, view=None, origin=None):
        if a.ndim == 0:
            return self.scalar(a)
        return self.alloc('arr', ArrCell(a, view, origin))

    def scalar(self, a):
        if a.dt == 'bool':
            return self.mkbool(a.body)
        if a.dt == 'obj':
            return Op(a.body)
        return Sc(a.body, 'int' if a.dt == 'int' else 'float')

    def mkbool(self, c):
        c = simp(c, self.pc)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return Bl(c)

    def note(self, kind, data, sub=None):
        self.events.append(Ev(kind, data, self.pc, self.loc, sub))

    # ------------------------------------------------------------ origins / mutation
    def origins(self, r, seen=None):
        """origin labels reachable as the backing store of r"""
        seen = seen or set()
        if r.id in seen:
            return set()
        seen.add(r.id)
        c = self.heap.get(r.id)
        out = set()
        if c is None:
            return out
        o = getattr(c, 'origin', None)
        if o:
            out.add(o)
        if isinstance(c, ArrCell) and c.view:
            for p, k in c.view:
                out |= self.origins(p, seen)
        return out

    def mutate(self, r, how, change=None):
        for o in self.origins(r):
            self.muts.append((o, how, self.loc, self.pc, tuple(self.callstack), change))
            self.note('mut', (o, how))

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name not in self.repo.trees:
            return None
        fid = self.alloc('frame', Frame({}, None, name))
        self.modules[name] = fid
        saved = (self.loc, self.pc, self.alive, self.tries, self.loops, self.funs)
        self.pc, self.alive, self.tries, self.loops, self.funs = TRUE, True, [], [], []
        self.funs = [Ctx()]
        self.funs[-1].returns = []
        self.heap[fid.id] = Frame({'__name__': name}, None, name)
        self.captured.add(fid.id)
        tree = self.repo.trees[name]
        self.exec_block(tree.body, fid)
        # module-level data is shared state: label for mutation tracking
        fr = self.heap[fid.id]
        for k, v in fr.vars.items():
            self.label(v, f'module:{name}.{k}')
        self.loc, self.pc, self.alive, self.tries, self.loops, self.funs = saved
        return fid

    def label(self, v, origin, depth=0):
        if depth > 6:
            return
        if isinstance(v, Ref) and v.id in self.heap:
            c = self.heap[v.id]
            if isinstance(c, (ArrCell, ListCell, DictCell)) and not c.origin:
                c.origin = origin
                if isinstance(c, ListCell):
                    for s in c.segs:
                        if s[0] == 'item':
                            self.label(s[1], origin, depth + 1)
                        elif s[0] == 'map':
                            self.label(s[3], origin, depth + 1)
                elif isinstance(c, DictCell):
                    for x in c.d.values():
                        self.label(x, origin, depth + 1)
        elif isinstance(v, tuple):
            for x in v:
                self.label(x, origin, depth + 1)

    def getglobal(self, mod, name):
        fid = self.module(mod)
        if fid is None:
            return None
        return self.heap[fid.id].vars.get(name)

    def lookup_path(self, dotted):
        """'bayeso.gp.gp.predict_with_cov' or 'bayeso.bo.bo_w_gp.BOwGP.optimize' -> value or None"""
        parts = dotted.split('.')
        for k in range(len(parts), 0, -1):
            m = '.'.join(parts[:k])
            if m in self.repo.trees:
                fid = self.module(m)
                v = Mod(m)
                for p in parts[k:]:
                    try:
                        v = self.getattr(v, p)
                    except Exception:
                        return None
                    if v is None or (isinstance(v, Op) and v.n.unk):
                        return None
                return v
        return None

    # ------------------------------------------------------------ names
    def lookup(self, fid, name):
        f = fid
        while f is not None:
            fr = self.heap[f.id]
            if name in fr.vars:
                v = fr.vars[name]
                if v is UNDEF:
                    break
                return self.res(v)
            f = fr.parent
        b = self.models.builtin(name)
        if b is not None:
            return b
        return unkop('name', name)

    def setvar(self, fid, name, v):
        fr = self.heap[fid.id]
        g = fr.vars.get('$global')
        if g and name in g:
            mfid = self.module(fr.mod)
            fid = mfid
            fr = self.heap[fid.id]
        nl = fr.vars.get('$nonlocal')
        if nl and name in nl:
            p = fr.parent
            while p is not None and name not in self.heap[p.id].vars:
                p = self.heap[p.id].parent
            if p is not None:
                fid = p
                fr = self.heap[p.id]
        nv = dict(fr.vars)
        nv[name] = v
        self.heap[fid.id] = Frame(nv, fr.parent, fr.mod)

    def res(self, v):
        """resolve case splits decided by the current path condition"""
        while isinstance(v, PyIte):
            c = simp(v.c, self.pc)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            else:
                if v.a is UNDEF:
                    v = v.b
                    continue
                if v.b is UNDEF:
                    v = v.a
                    continue
                return v
        if isinstance(v, Sc) and v.n.op == 'ite' and self.pc is not TRUE:
            n = simp(v.n, self.pc)
            if n is not v.n:
                return Sc(n, v.ty)
        if isinstance(v, Bl):
            return self.mkbool(v.c)
        return v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fid):
        for s in stmts:
            if not self.alive:
                return
            self.exec_stmt(s, fid)

    def setloc(self, s, fid):
        mod = self.heap[fid.id].mod
        fn_ = self.callstack[-1] if self.callstack else '<module>'
        self.loc = (mod, getattr(s, 'lineno', 0), fn_)
        T._loc[0] = self.loc

    def exec_stmt(self, s, fid):
        self.setloc(s, fid)
        self.visited_stmts += 1
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} at {self.loc}')
        try:
            m(s, fid)
        except DeadPath:
            self.alive = False

    def st_Pass(self, s, fid):
        pass

    def st_Expr(self, s, fid):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fid)

    def st_Import(self, s, fid):
        for a in s.names:
            v = self.do_import(a.name)
            if a.asname:
                self.setvar(fid, a.asname, self.import_value(a.name))
            else:
                top = a.name.split('.')[0]
                self.setvar(fid, top, self.import_value(top))

    OPTIONAL = {'scipydirect', 'cma', 'matplotlib', 'pylab'}

    def do_import(self, name):
        top = name.split('.')[0]
        if top in self.OPTIONAL or (name not in self.repo.trees and top not in STDLIKE and top != self.repo.package):
            av = self.imports.get(top)
            if av is None:
                self.may_raise(cond_atom('import_fails', top), 'ModuleNotFoundError')
            elif av is False:
                self.raise_('ModuleNotFoundError', None)
                raise DeadPath()
        return None

    def import_value(self, name):
        if name in self.repo.trees:
            self.module(name)
            return Mod(name)
        if name == 'spec' or name.startswith('spec.'):
            return Mod(name)
        return Ext(name)

    def st_ImportFrom(self, s, fid):
        base = s.module or ''
        if s.level:
            cur = self.heap[fid.id].mod.split('.')
            isp = self.repo.files.get(self.heap[fid.id].mod, '').endswith('__init__.py')
            drop = s.level - (1 if isp else 0)
            cur = cur[:len(cur) - drop] if drop else cur
            base = '.'.join(cur + ([s.module] if s.module else []))
        self.do_import(base)
        for a in s.names:
            if a.name == '*':
                mf = self.module(base)
                if mf is not None:
                    for k, v in self.heap[mf.id].vars.items():
                        if not k.startswith('_'):
                            self.setvar(fid, k, v)
                continue
            full = f'{base}.{a.name}'
            if base in self.repo.trees and self.module(base) is not None and a.name in self.heap[self.module(base).id].vars:
                v = self.heap[self.module(base).id].vars[a.name]
            elif full in self.repo.trees:
                self.module(full)
                v = Mod(full)
            elif base in self.repo.trees:
                v = unkop('import', full)
            else:
                v = Ext(full)
            self.setvar(fid, a.asname or a.name, v)

    def st_Assign(self, s, fid):
        v = self.ev(s.value, fid)
        for t in s.targets:
            self.assign(t, v, fid)

    def st_AnnAssign(self, s, fid):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fid), fid)

    def assign(self, t, v, fid):
        if isinstance(t, ast.Name):
            self.setvar(fid, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, t.elts)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fid)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fid)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fid)
            k = self.ev_index(t.slice, fid)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fid)
        else:
            raise Unsupported(f'assign target {type(t).__name__}')

    def unpack(self, v, elts):
        v = self.res(v)
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, PyIte):
            a = self.unpack(v.a, elts)
            b = self.unpack(v.b, elts)
            return [self.merge_val(v.c, x, y) for x, y in zip(a, b)]
        items = self.concrete_items(v)
        if items is None:
            if isinstance(v, Ref) and v.kind == 'list':
                # zip(*results) style: list with map segments but fixed len unknown
                return [self.getitem(v, i_(k)) for k in range(n)]
            if isinstance(v, (Op, Iter)) or (isinstance(v, Ref) and v.kind == 'arr'):
                return [self.getitem(v, i_(k)) for k in range(n)]
            return [unkop('unpack') for _ in range(n)]
        if star:
            k = star[0]
            tail = n - k - 1
            mid = items[k:len(items) - tail]
            return items[:k] + [self.newlist(mid)] + items[len(items) - tail:]
        if len(items) != n:
            self.raise_('ValueError', None)
            raise DeadPath()
        return items

    def st_AugAssign(self, s, fid):
        tgt = s.target
        op = type(s.op).__name__
        if isinstance(tgt, ast.Name):
            cur = self.lookup(fid, tgt.id)
            v = self.ev(s.value, fid)
            nv = self.inplace(op, cur, v)
            self.setvar(fid, tgt.id, nv)
        elif isinstance(tgt, ast.Attribute):
            o = self.ev(tgt.value, fid)
            cur = self.getattr(o, tgt.attr)
            v = self.ev(s.value, fid)
            self.setattr(o, tgt.attr, self.inplace(op, cur, v))
        elif isinstance(tgt, ast.Subscript):
            o = self.ev(tgt.value, fid)
            k = self.ev_index(tgt.slice, fid)
            cur = self.getitem(o, k)
            v = self.ev(s.value, fid)
            if isinstance(cur, Ref) and cur.kind == 'arr':
                nv = self.binop(op, cur, v)
            else:
                nv = self.inplace(op, cur, v)
            self.setitem(o, k, nv)

    def inplace(self, op, cur, v):
        cur = self.res(cur)
        if isinstance(cur, PyIte):
            if isinstance(cur.a, Ref) and cur.a.kind in ('arr', 'list') or isinstance(cur.b, Ref) and cur.b.kind in ('arr', 'list'):
                for x in (cur.a, cur.b):
                    if isinstance(x, Ref):
                        self.mutate(x, 'augmented assignment')
        if isinstance(cur, Ref) and cur.kind == 'arr':
            c = self.cell(cur)
            r = self.binop(op, cur, v)
            if isinstance(r, Ref) and r.kind == 'arr':
                na = self.cell(r).val
                if len(na.shape) == len(c.val.shape):
                    self.write_arr(cur, Arr(c.val.shape, na.vs, na.body, c.val.dt if c.val.dt != 'int' else na.dt), 'augmented assignment')
                    return cur
            return r
        if isinstance(cur, Ref) and cur.kind == 'list' and op == 'Add':
            self.mutate(cur, '+= on list')
            self.list_extend(cur, v)
            return cur
        if isinstance(cur, Ref) and cur.kind in ('dict', 'set'):
            self.mutate(cur, 'augmented assignment')
        return self.binop(op, cur, v)

    def write_arr(self, ref, newval, how):
        """replace content of array cell; propagate through views"""
        c = self.cell(ref)
        self.mutate(ref, how, (c.val, newval))
        self.heap[ref.id] = ArrCell(newval, c.view, c.origin)
        if c.view:
            for parent, key in c.view:
                if key is not None and len(c.view) == 1:
                    pc_ = self.heap.get(parent.id)
                    if pc_ is not None:
                        nv = self.models.setitem_arr(self, pc_.val, key, newval)
                        c2 = self.heap[parent.id]
                        if nv is None:
                            nv = mkarr(c2.val.shape, lambda *i: node('unk', 'viewwrite', *i), c2.val.dt)
                        self.write_arr_noview(parent, nv, how)
                else:
                    c2 = self.heap.get(parent.id)
                    if c2 is not None:
                        u = fresh()
                        nv = mkarr(c2.val.shape, lambda *i: node('unk', 'viewwrite', u, *i), c2.val.dt)
                        self.write_arr_noview(parent, nv, how)

    def write_arr_noview(self, ref, nv, how):
        c = self.cell(ref)
        self.heap[ref.id] = ArrCell(nv, c.view, c.origin)
        if c.view:
            self.write_arr(ref, nv, how)

    def st_Return(self, s, fid):
        v = self.ev(s.value, fid) if s.value is not None else None
        if not self.alive:
            return
        ctx = self.funs[-1]
        ctx.returns.append((self.pc, dict(self.heap), v))
        self.alive = False

    def st_If(self, s, fid):
        c = self.truth(self.ev(s.test, fid))
        self.branch(c, lambda: self.exec_block(s.body, fid), lambda: self.exec_block(s.orelse, fid))

    def branch(self, c, f, g):
        c = simp(c, self.pc)
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        h0, pc0 = dict(self.heap), self.pc
        self.pc = band(pc0, c)
        f()
        h1, a1, pc1 = self.heap, self.alive, self.pc
        self.heap, self.pc, self.alive = dict(h0), band(pc0, bnot(c)), True
        g()
        h2, a2, pc2 = self.heap, self.alive, self.pc
        if a1 and a2:
            self.heap = self.merge_heaps(c, h1, h2)
            self.pc = bor(pc1, pc2)
            self.alive = True
        elif a1:
            self.heap, self.pc, self.alive = h1, pc1, True
        elif a2:
            self.heap, self.pc, self.alive = h2, pc2, True
        else:
            self.alive = False

    # ------------------------------------------------------------ merging
    def merge_heaps(self, c, a, b):
        out = {}
        self._mergeheaps = (a, b)
        # values merged below may refer to cells of either heap
        saved = self.heap
        self.heap = out
        pend = []
        for k, x in a.items():
            y = b.get(k)
            if y is None or x is y:
                out[k] = x
            else:
                pend.append((k, x, y))
                out[k] = x
        for k, y in b.items():
            if k not in a:
                out[k] = y
        for k, x, y in pend:
            out[k] = self.merge_cell(c, x, y, a, b)
        self.heap = saved
        self._mergeheaps = None
        return out

    def merge_cell(self, c, x, y, a, b):
        if isinstance(x, Frame):
            vs = {}
            for k in list(x.vars) + [k for k in y.vars if k not in x.vars]:
                vs[k] = self.merge_val(c, x.vars.get(k, UNDEF), y.vars.get(k, UNDEF))
            return Frame(vs, x.parent, x.mod)
        if isinstance(x, ArrCell):
            return ArrCell(self.merge_arr(c, x.val, y.val), x.view, x.origin)
        if isinstance(x, ListCell):
            return ListCell(self.merge_segs(c, x.segs, y.segs), x.origin)
        if isinstance(x, DictCell):
            d = {}
            for k in list(x.d) + [k for k in y.d if k not in x.d]:
                d[k] = self.merge_val(c, x.d.get(k, UNDEF), y.d.get(k, UNDEF))
            return DictCell(d, x.origin, x.base)
        if isinstance(x, ObjCell):
            d = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                d[k] = self.merge_val(c, x.attrs.get(k, UNDEF), y.attrs.get(k, UNDEF))
            return ObjCell(x.cls, d, x.origin, x.base)
        return x

    def merge_segs(self, c, s1, s2):
        if s1 == s2:
            return s1
        k = 0
        while k < len(s1) and k < len(s2) and (s1[k] is s2[k] or s1[k] == s2[k]):
            k += 1
        r1, r2 = s1[k:], s2[k:]
        if len(r1) == len(r2) and all(p[0] == 'item' and q[0] == 'item' for p, q in zip(r1, r2)):
            return tuple(s1[:k]) + tuple(('item', self.merge_val(c, p[1], q[1])) for p, q in zip(r1, r2))
        return tuple(s1[:k]) + (('ite', c, tuple(r1), tuple(r2)),)

    def merge_arr(self, c, a, b):
        if a is b:
            return a
        if a.ndim == b.ndim and all(equal(p, q) for p, q in zip(a.shape, b.shape)):
            return Arr(a.shape, a.vs, ite(c, a.body, b.el(*a.vs)) if a.dt != 'obj' else ite(c, a.body, b.el(*a.vs)), a.dt if a.dt == b.dt else 'real')
        if a.ndim == b.ndim:
            sh = tuple(ite(c, p, q) for p, q in zip(a.shape, b.shape))
            return Arr(sh, a.vs, ite(c, a.body, b.el(*a.vs)), a.dt)
        return mkarr(a.shape, lambda *i: node('unk', 'merge', *i), a.dt)

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is UNDEF or b is UNDEF:
            return PyIte(c, a, b)
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.n is b.n and a.ty == b.ty:
                return a
            return Sc(ite(c, a.n, b.n), a.ty if a.ty == b.ty else 'float')
        ab = isinstance(a, (bool, Bl))
        bb = isinstance(b, (bool, Bl))
        if ab and bb:
            x = self.bl(a)
            y = self.bl(b)
            r = ite(c, x, y)
            return True if r is TRUE else False if r is FALSE else Bl(r)
        if isinstance(a, (str, type(None))) and isinstance(b, (str, type(None))) and a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return a
            if a.kind == 'arr' and b.kind == 'arr':
                ca, cb = self.heap.get(a.id), self.heap.get(b.id)
                if ca is None or cb is None:
                    ha, hb = self._mergeheaps or (self.heap, self.heap)
                    ca = ha.get(a.id) or hb.get(a.id)
                    cb = hb.get(b.id) or ha.get(b.id)
                if ca is not None and cb is not None and ca.val.ndim == cb.val.ndim:
                    m = self.merge_arr(c, ca.val, cb.val)
                    self.nid += 1
                    self.heap[self.nid] = ArrCell(m, ((a, None), (b, None)), None)
                    return Ref(self.nid, 'arr')
        if isinstance(a, Op) and isinstance(b, Op) and a.n is b.n:
            return a
        if isinstance(a, Op) and isinstance(b, Op) and a.ty == b.ty and a.ty:
            return PyIte(c, a, b)
        if isinstance(a, (Ext, Mod)) and isinstance(b, (Ext, Mod)) and repr(a) == repr(b):
            return a
        if isinstance(a, Method) and isinstance(b, Method) and a.fun is b.fun and a.self == b.self:
            return a
        return PyIte(c, a, b)

    _mergeheaps = None

    def bl(self, v):
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        return v.c

    def merge_outcomes(self, outs, pc_entry):
        """outs: list of (pc, heap, value). returns (pc, heap, value)"""
        pc, h, v = outs[-1]
        for p2, h2, v2 in reversed(outs[:-1]):
            sel = simp(p2, bor(p2, pc))
            sel = simp(sel, pc_entry) if pc_entry is not TRUE else sel
            nh = self.merge_heaps(sel, h2, h)
            self.heap = nh
            v = self.merge_val(sel, v2, v)
            h = self.heap
            pc = bor(p2, pc)
        return pc, h, v

    # ------------------------------------------------------------ exceptions
    def st_Raise(self, s, fid):
        name = 'Exception'
        if s.exc is None:
            name = getattr(self, 'cur_exc', None) or 'Exception'
        else:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    try:
                        self.ev(a, fid)
                    except Unsupported:
                        pass
                e = e.func
            v = self.ev(e, fid)
            name = self.excname(v)
        self.raise_(name, None)
        self.alive = False

    def excname(self, v):
        if isinstance(v, Ext):
            p = v.path
            if p.startswith('builtins.'):
                p = p[9:]
            return EXC_ALIAS.get(p, p)
        if isinstance(v, Op) and v.ty and str(v.ty).startswith('exc:'):
            return v.ty[4:]
        if isinstance(v, Cls):
            for b in v.bases:
                EXC_PARENTS.setdefault(v.qual, self.excname(b))
            return v.qual
        return 'Exception'

    def raise_(self, name, pc=None):
        """record an exception on the current path (caller marks the path dead)"""
        p = self.pc if pc is None else pc
        for tctx in reversed(self.tries):
            for k, hs in enumerate(tctx.handlers):
                if any(exc_is(name, h) for h in hs):
                    tctx.caught.append((p, dict(self.heap), k, name))
                    return
            # may be a subclass of the raised (imprecise) class: ignored
        self.events.append(Ev('raise', name, p, self.loc))

    def may_raise(self, c, name):
        """external operation raises `name` exactly when condition c holds"""
        c = simp(c, self.pc)
        if c is FALSE:
            return
        for tctx in reversed(self.tries):
            for k, hs in enumerate(tctx.handlers):
                if any(exc_is(name, h) for h in hs):
                    tctx.caught.append((band(self.pc, c), dict(self.heap), k, name))
                    self.pc = band(self.pc, bnot(c))
                    return
        self.events.append(Ev('mayraise', (name, c), self.pc, self.loc))

    def st_Assert(self, s, fid):
        c = self.truth(self.ev(s.test, fid))
        self.setloc(s, fid)
        self.do_assert(c)

    def do_assert(self, c):
        c = simp(c, self.pc)
        if c is TRUE:
            self.note('assert', c)
            return
        fail = band(self.pc, bnot(c))
        self.note('assert', c)
        if self.tries:
            saved = self.pc
            self.raise_('AssertionError', fail)
        if c is FALSE:
            self.alive = False
            if not self.tries:
                self.events.append(Ev('raise', 'AssertionError', self.pc, self.loc))
            return
        self.pc = band(self.pc, c)

    def st_Try(self, s, fid):
        ctx = Ctx()
        ctx.caught = []
        ctx.handlers = []
        for h in s.handlers:
            if h.type is None:
                ctx.handlers.append(['BaseException'])
            else:
                v = self.ev(h.type, fid)
                vs = v if isinstance(v, tuple) else (v,)
                ctx.handlers.append([self.excname(x) for x in vs])
        ctx.swallow = any(not any(isinstance(x, ast.Raise) for x in h.body) for h in s.handlers)
        pc0 = self.pc
        self.tries.append(ctx)
        n_ret = len(self.funs[-1].returns)
        self.exec_block(s.body, fid)
        self.tries.pop()
        if self.alive and s.orelse:
            self.exec_block(s.orelse, fid)
        outs = []
        if self.alive:
            outs.append((self.pc, self.heap, None))
        for (p, h, k, name) in ctx.caught:
            self.pc, self.heap, self.alive = p, dict(h), True
            saved = getattr(self, 'cur_exc', None)
            self.cur_exc = name
            if s.handlers[k].name:
                self.setvar(fid, s.handlers[k].name, Op(node('exc', name), f'exc:{name}'))
            self.exec_block(s.handlers[k].body, fid)
            self.cur_exc = saved
            if self.alive:
                outs.append((self.pc, self.heap, None))
        if outs:
            self.pc, self.heap, _ = self.merge_outcomes(outs, pc0)
            self.alive = True
        else:
            self.alive = False
        if s.finalbody:
            al = self.alive
            if al:
                self.exec_block(s.finalbody, fid)
            # effects of finally on returning/raising paths are not modelled beyond this point

    def st_With(self, s, fid):
        for it in s.items:
            v = self.ev(it.context_expr, fid)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.models.enter(self, v), fid)
        self.exec_block(s.body, fid)

    def st_Delete(self, s, fid):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(fid, t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fid)
                k = self.ev_index(t.slice, fid)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fid)
                self.setattr(o, t.attr, UNDEF)

    def delitem(self, o, k):
        o = self.res(o)
        if isinstance(o, Ref) and o.kind == 'dict':
            self.mutate(o, 'del item')
            c = self.cell(o)
            d = dict(c.d)
            if isinstance(k, str):
                d[k] = UNDEF
            self.heap[o.id] = DictCell(d, c.origin, c.base)
            return
        if isinstance(o, Ref):
            self.mutate(o, 'del item')
        if isinstance(o, Ref) and o.kind == 'list':
            c = self.cell(o)
            kk = self.cint(k)
            if kk is not None and all(x[0] == 'item' for x in c.segs):
                segs = list(c.segs)
                del segs[kk]
                self.heap[o.id] = ListCell(segs, c.origin)
                return
            self.heap[o.id] = ListCell((('opq', node('unk', 'delitem'), node('unk', 'len')),), c.origin)

    def st_Global(self, s, fid):
        fr = self.heap[fid.id]
        nv = dict(fr.vars)
        nv['$global'] = frozenset(s.names) | (nv.get('$global') or frozenset())
        self.heap[fid.id] = Frame(nv, fr.parent, fr.mod)

    def st_Nonlocal(self, s, fid):
        fr = self.heap[fid.id]
        nv = dict(fr.vars)
        nv['$nonlocal'] = frozenset(s.names) | (nv.get('$nonlocal') or frozenset())
        self.heap[fid.id] = Frame(nv, fr.parent, fr.mod)

    def st_FunctionDef(self, s, fid):
        f = self.make_fun(s, fid)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fid)
            v = self.call(dv, [v], {})
        self.setvar(fid, s.name, v)

    def make_fun(self, s, fid, cls=None):
        mod = self.heap[fid.id].mod
        self.captured.add(fid.id)
        a = s.args
        pos = a.posonlyargs + a.args
        defaults = {}
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            dv = self.ev(d, fid)
            self.label(dv, f'default:{mod}.{getattr(s, "name", "<lambda>")}.{arg.arg}')
            defaults[arg.arg] = dv
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dv = self.ev(d, fid)
                self.label(dv, f'default:{mod}.{getattr(s, "name", "<lambda>")}.{arg.arg}')
                defaults[arg.arg] = dv
        name = getattr(s, 'name', '<lambda>')
        q = f'{mod}.{name}' if cls is None else f'{mod}.{cls}.{name}'
        if self.callstack and fid.id not in [m.id for m in self.modules.values()] and cls is None:
            q = f'{self.callstack[-1]}.<locals>.{name}'
        return Fun(s, fid, mod, q, defaults, {}, cls, name)

    def st_ClassDef(self, s, fid):
        bases = [self.ev(b, fid) for b in s.bases]
        mod = self.heap[fid.id].mod
        cf = self.alloc('frame', Frame({}, fid, mod))
        cls = Cls(s.name, mod, bases, {})
        self.captured.add(cf.id)
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                f = self.make_fun(st, fid, s.name)
                f.cls = cls
                v = f
                for d in reversed(st.decorator_list):
                    dv = self.ev(d, fid)
                    if isinstance(dv, Ext) and dv.path in ('builtins.staticmethod', 'builtins.classmethod', 'builtins.property'):
                        f.attrs['kind'] = dv.path[9:]
                    elif isinstance(dv, Ext) and dv.path.startswith('abc.'):
                        f.attrs['abstract'] = True
                    else:
                        v = self.call(dv, [v], {})
                        if isinstance(v, Fun):
                            v.attrs.update(f.attrs)
                cls.ns[st.name] = v
                self.setvar(cf, st.name, v)
            else:
                self.exec_stmt(st, cf)
                for k, v in self.heap[cf.id].vars.items():
                    cls.ns.setdefault(k, v)
        v = cls
        for d in reversed(s.decorator_list):
            self.ev(d, fid)
        self.setvar(fid, s.name, v)

    # ------------------------------------------------------------ loops
    def st_For(self, s, fid):
        it = self.ev(s.iter, fid)
        self.run_for(it, lambda v: self.assign(s.target, v, fid), s.body, s.orelse, fid)

    def st_While(self, s, fid):
        # bounded concrete loops only
        pc0 = self.pc
        lctx = Ctx()
        lctx.breaks = []
        lctx.conts = []
        exits = []
        self.loops.append(lctx)
        for _ in range(64):
            c = simp(self.truth(self.ev(s.test, fid)), self.pc)
            if c is FALSE:
                exits.append((self.pc, self.heap, None))
                self.alive = False
                break
            if c is not TRUE:
                self.loops.pop()
                self.havoc_while(s, fid)
                return
            self.exec_block(s.body, fid)
            outs = lctx.conts
            lctx.conts = []
            if self.alive:
                outs.append((self.pc, self.heap, None))
            if not outs:
                self.alive = False
                break
            self.pc, self.heap, _ = self.merge_outcomes(outs, pc0)
            self.alive = True
        else:
            self.loops.pop()
            self.havoc_while(s, fid)
            return
        self.loops.pop()
        if s.orelse and exits:
            self.pc, self.heap, _ = exits[0]
            self.alive = True
            self.exec_block(s.orelse, fid)
            exits = [(self.pc, self.heap, None)] if self.alive else []
        outs = exits + lctx.breaks
        if outs:
            self.pc, self.heap, _ = self.merge_outcomes(outs, pc0)
            self.alive = True
        else:
            self.alive = False

    def havoc_while(self, s, fid):
        """symbolic while: everything assigned inside becomes unknown (analysis is undecided for it)"""
        self.note('unk', 'while')
        u = fresh()
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                self.setvar(fid, x.id, Op(node('unk', 'while', u, x.id)))
            elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                try:
                    o = self.ev(x.value, fid)
                    self.havoc(o)
                except (DeadPath, Unsupported):
                    pass
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                try:
                    o = self.lookup(fid, x.func.value.id)
                    if isinstance(o, Ref) and o.kind in ('list', 'dict'):
                        self.havoc(o)
                except (DeadPath, Unsupported):
                    pass
            elif isinstance(x, ast.Return):
                self.funs[-1].returns.append((self.pc, dict(self.heap), Op(node('unk', 'while-return', u))))
        self.alive = True

    def havoc(self, o):
        o = self.res(o)
        if not isinstance(o, Ref) or o.id not in self.heap:
            return
        c = self.heap[o.id]
        u = fresh()
        if isinstance(c, ArrCell):
            self.heap[o.id] = ArrCell(mkarr(c.val.shape, lambda *i: node('unk', 'havoc', u, *i), c.val.dt), c.view, c.origin)
        elif isinstance(c, ListCell):
            self.heap[o.id] = ListCell((('opq', node('unk', 'havoc', u), node('unk', 'len', u)),), c.origin)
        elif isinstance(c, DictCell):
            self.heap[o.id] = DictCell({k: Op(node('unk', 'havoc', u)) for k in c.d}, c.origin, node('unk', 'havoc', u))
        elif isinstance(c, ObjCell):
            self.heap[o.id] = ObjCell(c.cls, {k: Op(node('unk', 'havoc', u)) for k in c.attrs}, c.origin, c.base)

    def st_Break(self, s, fid):
        self.loops[-1].breaks.append((self.pc, dict(self.heap), None))
        self.alive = False

    def st_Continue(self, s, fid):
        self.loops[-1].conts.append((self.pc, dict(self.heap), None))
        self.alive = False

    UNROLL = 24

    def run_for(self, it, bind, body, orelse, fid, sink=None):
        it = self.res(it)
        if isinstance(it, PyIte):
            it0 = it
            c = it.c
            self.branch(c, lambda: self.run_for(it0.a, bind, body, orelse, fid, sink),
                        lambda: self.run_for(it0.b, bind, body, orelse, fid, sink))
            return
        items = self.concrete_items(it)
        if items is not None and len(items) <= self.UNROLL:
            pc0 = self.pc
            lctx = Ctx()
            lctx.breaks = []
            lctx.conts = []
            self.loops.append(lctx)
            # random positions are (label, loop indices), as in a symbolic loop
            rng0, rng1 = dict(self.rngkeys), dict(self.rngkeys)
            for ix, v in enumerate(items):
                self.rngkeys = dict(rng0)
                self.loopvars.append(T.num(ix))
                try:
                    bind(v)
                    self.exec_block(body, fid)
                finally:
                    self.loopvars.pop()
                for q, z in self.rngkeys.items():
                    rng1[q] = max(rng1.get(q, 0), z)
                self.rngkeys = dict(rng1)
                outs = lctx.conts
                lctx.conts = []
                if self.alive:
                    outs.append((self.pc, self.heap, None))
                if not outs:
                    self.alive = False
                    break
                self.pc, self.heap, _ = self.merge_outcomes(outs, pc0)
                self.alive = True
            self.loops.pop()
            if self.alive and orelse:
                self.exec_block(orelse, fid)
            outs = []
            if sink is None:
                outs += lctx.breaks
            else:
                sink += lctx.breaks
            if self.alive:
                outs.append((self.pc, self.heap, None))
            if outs:
                self.pc, self.heap, _ = self.merge_outcomes(outs, pc0)
                self.alive = True
            else:
                self.alive = False
            return
        from . import loops
        segs = self.iter_segments(it)
        if segs is None:
            self.note('unk', 'iteration')
            self.havoc_for(bind, body, fid)
            return
        # what follows a break (further segments, the else clause) runs only on the paths without one
        pc0 = self.pc
        own = sink
        if orelse or len(segs) > 1:
            own = []
        for seg in segs:
            if not self.alive:
                break
            if seg[0] == 'item':
                self.run_for((seg[1],), bind, body, [], fid, own)
            else:
                loops.sym_loop(self, seg[1], seg[2], bind, body, fid, own)
        if self.alive and orelse:
            self.exec_block(orelse, fid)
        if own is not sink and own:
            if sink is not None:
                sink += own
                return
            outs = own + ([(self.pc, self.heap, None)] if self.alive else [])
            self.pc, self.heap, _ = self.merge_outcomes(outs, pc0)
            self.alive = True

    def havoc_for(self, bind, body, fid):
        fake = ast.While(test=ast.Constant(value=True), body=body, orelse=[])
        bind(unkop('iter'))
        self.havoc_while(fake, fid)

    def iter_segments(self, it):
        """-> list of ('item', v) | ('sym', N, f(t)) or None"""
        if isinstance(it, Iter):
            return [('sym', it.n, it.item)]
        if isinstance(it, Ref) and it.kind == 'arr':
            a = self.cell(it).val
            ref = it
            if isnum(a.shape[0]):
                return [('item', self.getitem(ref, i_(k))) for k in range(int(val(a.shape[0])))]
            return [('sym', a.shape[0], lambda t, ref=ref: self.getitem(ref, Sc(t, 'int')))]
        if isinstance(it, Ref) and it.kind == 'list':
            out = []
            for sg in self.cell(it).segs:
                if sg[0] == 'item':
                    out.append(sg)
                elif sg[0] == 'map':
                    out.append(('sym', sg[1], lambda t, sg=sg: self.psubst(sg[3], {sg[2]: t})))
                elif sg[0] == 'opq':
                    out.append(('sym', sg[2], lambda t, sg=sg: self.opq_item(sg, t)))
                else:
                    return None
            return out
        if isinstance(it, Ref) and it.kind == 'dict':
            return None
        if isinstance(it, Op) and isinstance(it.extra, dict) and 'iter' in it.extra:
            n, f = it.extra['iter']
            return [('sym', n, f)]
        return None

    def opq_item(self, sg, t):
        if len(sg) > 3 and sg[3] is not None:
            return sg[3](t)
        return Op(mk_el(sg[1], (t,)))

    def concrete_items(self, v):
        """list of items when the number of items is statically fixed"""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell):
                if all(s[0] == 'item' for s in c.segs):
                    return [s[1] for s in c.segs]
                return None
            if isinstance(c, DictCell):
                if c.base is not None or any(isinstance(x, PyIte) for x in c.d.values()):
                    if c.base is not None:
                        return None
                return [k for k, x in c.d.items() if x is not UNDEF]
            if isinstance(c, ArrCell) and isnum(c.val.shape[0]):
                n = int(val(c.val.shape[0]))
                if n <= self.UNROLL:
                    return [self.getitem(v, i_(k)) for k in range(n)]
        if isinstance(v, Iter) and isnum(v.n) and val(v.n) <= self.UNROLL:
            return [v.item(num(k)) for k in range(int(val(v.n)))]
        return None

    # ------------------------------------------------------------ python-level substitution
    def psubst(self, v, mp, memo=None):
        memo = {} if memo is None else memo
        if isinstance(v, Sc):
            n = subst(v.n, mp)
            return v if n is v.n else Sc(n, v.ty)
        if isinstance(v, Bl):
            c = subst(v.c, mp)
            return True if c is TRUE else False if c is FALSE else (v if c is v.c else Bl(c))
        if isinstance(v, tuple):
            r = tuple(self.psubst(x, mp, memo) for x in v)
            return v if all(p is q for p, q in zip(r, v)) else r
        if isinstance(v, Op):
            n = subst(v.n, mp)
            return v if n is v.n else Op(n, v.ty, v.extra)
        if isinstance(v, PyIte):
            c = subst(v.c, mp)
            a, b = self.psubst(v.a, mp, memo), self.psubst(v.b, mp, memo)
            if c is TRUE:
                return a
            if c is FALSE:
                return b
            return PyIte(c, a, b)
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            c = self.heap.get(v.id)
            if isinstance(c, ArrCell):
                sh = tuple(subst(x, mp) for x in c.val.shape)
                b = subst(c.val.body, mp)
                if b is c.val.body and all(p is q for p, q in zip(sh, c.val.shape)):
                    return v
                r = self.alloc('arr', ArrCell(Arr(sh, c.val.vs, b, c.val.dt), ((v, None),) if c.view or c.origin else None, None))
                memo[v.id] = r
                return r
            if isinstance(c, ListCell):
                segs = tuple(self.subst_seg(s, mp, memo) for s in c.segs)
                if all(p is q for p, q in zip(segs, c.segs)):
                    return v
                r = self.alloc('list', ListCell(segs))
                memo[v.id] = r
                return r
            if isinstance(c, DictCell):
                d = {k: self.psubst(x, mp, memo) for k, x in c.d.items()}
                b = subst(c.base, mp) if c.base is not None else None
                if b is c.base and all(d[k] is c.d[k] for k in d):
                    return v
                r = self.alloc('dict', DictCell(d, None, b))
                memo[v.id] = r
                return r
            if isinstance(c, ObjCell):
                memo[v.id] = v
                d = {k: self.psubst(x, mp, memo) for k, x in c.attrs.items()}
                b = subst(c.base, mp) if c.base is not None else None
                if b is c.base and all(d[k] is c.attrs[k] for k in d):
                    return v
                r = self.alloc('obj', ObjCell(c.cls, d, None, b))
                memo[v.id] = r
                return r
            return v
        if isinstance(v, Fun):
            fr = self.heap.get(v.frame.id)
            if fr is None or v.frame.id in [m.id for m in self.modules.values()]:
                return v
            if v.frame.id in memo:
                nf = memo[v.frame.id]
            else:
                ch = {}
                changed = False
                memo[v.frame.id] = v.frame
                for k, x in fr.vars.items():
                    y = self.psubst(x, mp, memo) if not isinstance(x, frozenset) else x
                    ch[k] = y
                    changed |= y is not x
                nf = v.frame
                if changed:
                    nf = self.alloc('frame', Frame(ch, fr.parent, fr.mod))
                    self.captured.add(nf.id)
                memo[v.frame.id] = nf
            if nf is v.frame or nf == v.frame:
                return v
            g = Fun(v.node, nf, v.mod, v.qual, v.defaults, v.kwdefaults, v.cls, v.name)
            g.wraps, g.attrs = v.wraps, v.attrs
            return g
        if isinstance(v, Method):
            s = self.psubst(v.self, mp, memo)
            return v if s is v.self else Method(v.fun, s)
        if isinstance(v, Partial):
            return Partial(self.psubst(v.fun, mp, memo), [self.psubst(x, mp, memo) for x in v.args],
                           {k: self.psubst(x, mp, memo) for k, x in v.kw.items()})
        return v

    def subst_seg(self, s, mp, memo):
        if s[0] == 'item':
            x = self.psubst(s[1], mp, memo)
            return s if x is s[1] else ('item', x)
        if s[0] == 'map':
            n = subst(s[1], mp)
            x = self.psubst(s[3], {k: v for k, v in mp.items() if k is not s[2]}, memo)
            return s if n is s[1] and x is s[3] else ('map', n, s[2], x)
        if s[0] == 'ite':
            c = subst(s[1], mp)
            a = tuple(self.subst_seg(x, mp, memo) for x in s[2])
            b = tuple(self.subst_seg(x, mp, memo) for x in s[3])
            return ('ite', c, a, b)
        n, l = subst(s[1], mp), subst(s[2], mp)
        return s if n is s[1] and l is s[2] else ('opq', n, l) + tuple(s[3:])

    # ------------------------------------------------------------ truth
    def truth(self, v):
        v = self.res(v)
        if v is True:
            return TRUE
        if v is False or v is None:
            return FALSE
        if isinstance(v, Bl):
            return v.c
        if isinstance(v, Sc):
            return bnot(eq0(v.n))
        if isinstance(v, str):
            return TRUE if v else FALSE
        if isinstance(v, tuple):
            return TRUE if v else FALSE
        if isinstance(v, PyIte):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell):
                return bnot(eq0(self.list_len(c)))
            if isinstance(c, DictCell):
                return TRUE if any(x is not UNDEF for x in c.d.values()) else (FALSE if c.base is None else cond_atom('truth', c.base))
            if isinstance(c, ArrCell):
                a = c.val
                if all(isnum(s) and val(s) == 1 for s in a.shape):
                    b = a.el(*[ZERO] * a.ndim)
                    return b if a.dt == 'bool' else bnot(eq0(b))
                return cond_atom('unktruth', node('unk', 'arraytruth'))
            return TRUE
        if isinstance(v, Op):
            if v.ty in ('obj', 'callable', 'module'):
                return TRUE
            return cond_atom('truth', v.n)
        return TRUE

    # ------------------------------------------------------------ expressions
    def ev(self, e, fid):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return self.res(m(e, fid))

    def ex_Constant(self, e, fid):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, int):
            return Sc(num(v), 'int')
        if isinstance(v, float):
            return Sc(num(v), 'float')
        if v is Ellipsis:
            return ELLIPSIS
        return Op(node('const', repr(v)))

    def ex_Name(self, e, fid):
        return self.lookup(fid, e.id)

    def ex_Attribute(self, e, fid):
        return self.getattr(self.ev(e.value, fid), e.attr)

    def ex_Tuple(self, e, fid):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.concrete_items(self.ev(x.value, fid))
                if it is None:
                    return unkop('star')
                out += it
            else:
                out.append(self.ev(x, fid))
        return tuple(out)

    def ex_List(self, e, fid):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += list(self.segs_of(self.ev(x.value, fid)))
            else:
                segs.append(('item', self.ev(x, fid)))
        return self.alloc('list', ListCell(segs))

    def ex_Set(self, e, fid):
        return tuple(self.ev(x, fid) for x in e.elts)

    def ex_Dict(self, e, fid):
        d = {}
        base = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fid)
                if isinstance(o, Ref) and o.kind == 'dict':
                    d.update(self.cell(o).d)
                    base = self.cell(o).base or base
                else:
                    base = node('unk', 'dict**')
                continue
            kv = self.dkey(self.ev(k, fid))
            vv = self.ev(v, fid)
            if kv is None:
                base = node('unk', 'dictkey')
            else:
                d[kv] = vv
        return self.newdict(d, None, base)

    def dkey(self, k):
        if isinstance(k, (str, bool)) or k is None:
            return ('None',) if k is None else k
        if isinstance(k, Sc) and isnum(k.n):
            return ('num', val(k.n))
        if isinstance(k, tuple):
            ks = tuple(self.dkey(x) for x in k)
            return None if any(x is None for x in ks) else ('tup',) + ks
        if isinstance(k, (Ext, Mod)):
            return ('ref', repr(k))
        if isinstance(k, Cls):
            return ('ref', k.qual)
        return None

    def ex_Subscript(self, e, fid):
        o = self.ev(e.value, fid)
        k = self.ev_index(e.slice, fid)
        return self.getitem(o, k)

    def ev_index(self, e, fid):
        if isinstance(e, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, fid)
            return Slice(g(e.lower), g(e.upper), g(e.step))
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_index(x, fid) for x in e.elts)
        return self.ev(e, fid)

    def ex_Slice(self, e, fid):
        return self.ev_index(e, fid)

    def ex_Starred(self, e, fid):
        raise Unsupported('starred')

    def ex_IfExp(self, e, fid):
        c = self.truth(self.ev(e.test, fid))
        return self.cond_eval(c, lambda: self.ev(e.body, fid), lambda: self.ev(e.orelse, fid))

    def cond_eval(self, c, f, g):
        c = simp(c, self.pc)
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        box = {}

        def run(k, h):
            try:
                box[k] = h()
            except DeadPath:
                self.alive = False
        self.branch(c, lambda: run('a', f), lambda: run('b', g))
        if not self.alive:
            raise DeadPath()
        if 'a' not in box:
            return box['b']
        if 'b' not in box:
            return box['a']
        return self.merge_val(c, box['a'], box['b'])

    def ex_BoolOp(self, e, fid):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], fid)
        for x in e.values[1:]:
            c = simp(self.truth(v), self.pc)
            if isand:
                if c is FALSE:
                    return v
                v0 = v
                v = self.cond_eval(c, lambda: self.ev(x, fid), lambda: v0)
            else:
                if c is TRUE:
                    return v
                v0 = v
                v = self.cond_eval(c, lambda: v0, lambda: self.ev(x, fid))
        return v

    def ex_UnaryOp(self, e, fid):
        v = self.ev(e.operand, fid)
        if isinstance(e.op, ast.Not):
            return self.mkbool(bnot(self.truth(v)))
        if isinstance(e.op, ast.USub):
            return self.models.unary(self, neg, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.models.invert(self, v)
        raise Unsupported('unary')

    def ex_BinOp(self, e, fid):
        a = self.ev(e.left, fid)
        b = self.ev(e.right, fid)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.models.binop(self, op, self.res(a), self.res(b))

    def ex_Compare(self, e, fid):
        left = self.ev(e.left, fid)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fid)
            v = self.models.compare(self, type(op).__name__, left, right)
            if acc is None:
                acc = v
            else:
                c = self.truth(acc)
                acc = self.mkbool(band(c, self.truth(v)))
            left = right
        return acc

    def ex_Call(self, e, fid):
        f = self.ev(e.func, fid) if not (isinstance(e.func, ast.Name) and e.func.id == 'super') else None
        if f is None:
            return self.do_super(fid, e)
        args = []
        kw = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value, fid)
                it = self.concrete_items(sv)
                if it is None:
                    args.append(('*', sv))
                else:
                    args += it
            else:
                args.append(self.ev(a, fid))
        for k in e.keywords:
            if k.arg is None:
                o = self.ev(k.value, fid)
                if isinstance(o, Ref) and o.kind == 'dict' and self.cell(o).base is None:
                    for kk, vv in self.cell(o).d.items():
                        if vv is not UNDEF:
                            kw[kk] = vv
                elif isinstance(o, PyIte):
                    kw['**'] = o
                else:
                    kw['**'] = o
            else:
                kw[k.arg] = self.ev(k.value, fid)
        self.setloc(e, fid)
        return self.call(f, args, kw)

    def do_super(self, fid, e):
        # super().__init__ : find enclosing method's class and self
        fr = self.heap[fid.id]
        cls = fr.vars.get('$cls')
        slf = fr.vars.get('$self')
        f = fid
        while cls is None and f is not None:
            fr = self.heap[f.id]
            cls = fr.vars.get('$cls')
            slf = fr.vars.get('$self')
            f = fr.parent
        return ('$super', cls, slf) if cls is not None else unkop('super')

    def ex_Lambda(self, e, fid):
        return self.make_fun(e, fid)

    def ex_JoinedStr(self, e, fid):
        parts = []
        conc = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fid)
                spec = ''
                if v.format_spec is not None:
                    sv = self.ex_JoinedStr(v.format_spec, fid)
                    spec = sv if isinstance(sv, str) else '?'
                if isinstance(x, str) and not spec and v.conversion in (-1, 115):
                    parts.append(x)
                elif isinstance(x, Op) and x.ty == 'str' and not spec and v.conversion in (-1, 115):
                    conc = False
                    parts.append(x.n)
                elif isinstance(x, str) and not spec and v.conversion == 114:
                    parts.append(repr(x))
                else:
                    conc = False
                    parts.append(node('fmt', self.enc(x), spec, v.conversion))
        if conc:
            return ''.join(parts)
        return Op(self.models.mkstr(parts), 'str')

    def ex_FormattedValue(self, e, fid):
        return self.ex_JoinedStr(ast.JoinedStr(values=[e]), fid)

    def ex_NamedExpr(self, e, fid):
        v = self.ev(e.value, fid)
        self.assign(e.target, v, fid)
        return v

    def ex_ListComp(self, e, fid):
        return self.comp(e.generators, e.elt, fid)

    def ex_GeneratorExp(self, e, fid):
        return self.comp(e.generators, e.elt, fid)

    def ex_SetComp(self, e, fid):
        return self.comp(e.generators, e.elt, fid)

    def ex_DictComp(self, e, fid):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        l = self.comp(e.generators, pair, fid)
        items = self.concrete_items(l)
        if items is None:
            return self.newdict({}, None, node('unk', 'dictcomp'))
        d = {}
        for k, v in items:
            d[self.dkey(k)] = v
        return self.newdict(d)

    def comp(self, gens, elt, fid):
        """comprehension as a desugared accumulation loop in a fresh frame"""
        nf = self.alloc('frame', Frame({}, fid, self.heap[fid.id].mod))
        out = self.newlist([])
        self.setvar(nf, '$out', out)
        app = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id='$out', ctx=ast.Load()), attr='append', ctx=ast.Load()),
                                      args=[elt], keywords=[]))
        body = [app]
        for g in reversed(gens):
            if g.ifs:
                test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
                body = [ast.If(test=test, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        for b in body:
            ast.copy_location(b, elt)
            for x in ast.walk(b):
                if not hasattr(x, 'lineno'):
                    x.lineno = getattr(elt, 'lineno', 0)
                    x.col_offset = 0
        self.exec_block(body, nf)
        if not self.alive:
            raise DeadPath()
        r = self.heap[nf.id].vars['$out']
        return r

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.res(f)
        self.calls += 1
        if isinstance(f, PyIte):
            a, b, c = f.a, f.b, f.c
            return self.cond_eval(c, lambda: self.call(a, args, kw), lambda: self.call(b, args, kw))
        if isinstance(f, Fun):
            return self.call_fun(f, args, kw)
        if isinstance(f, Method):
            return self.call(f.fun, [f.self] + list(args), kw)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.fun, list(f.args) + list(args), k2)
        if isinstance(f, Cls):
            return self.construct(f, args, kw)
        if isinstance(f, Ext):
            return self.models.call_ext(self, f.path, args, kw)
        if isinstance(f, ExtMethod):
            return self.models.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, Ref) and f.kind == 'obj':
            m = self.getattr(f, '__call__')
            if m is not None and not isinstance(m, Op):
                return self.call(m, args, kw)
        if isinstance(f, Op):
            return self.models.call_op(self, f, args, kw)
        return unkop('call', str(f))

    def fun_qual(self, f):
        while f.wraps is not None:
            f = f.wraps
        return f.qual

    def underlying(self, f):
        while f.wraps is not None:
            f = f.wraps
        return f

    def bind(self, f, args, kw):
        """bind to signature -> ordered dict name->value (defaults filled) ; None on mismatch"""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        rest = []
        if any(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] == '*' for x in args):
            return None
        for i, v in enumerate(args):
            if i < len(pos):
                out[pos[i]] = v
            else:
                rest.append(v)
        kwrest = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k == '**':
                kwrest['**'] = v
            elif k in names:
                if k in out:
                    return None
                out[k] = v
            else:
                kwrest[k] = v
        if rest and a.vararg is None:
            return None
        if kwrest and a.kwarg is None:
            return None
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                if n in f.defaults:
                    out[n] = f.defaults[n]
                else:
                    return None
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(rest)
        if a.kwarg is not None:
            out[a.kwarg.arg] = kwrest
        return out

    def call_fun(self, f, args, kw):
        q = self.fun_qual(f)
        if q in self.opaque:
            u = self.underlying(f)
            b = self.bind(u, args, kw)
            if b is None:
                self.raise_('TypeError', None)
                raise DeadPath()
            summ = self.opaque[q]
            r = summ(self, b)
            if not self.alive:
                raise DeadPath()
            if r is not NOTIMPL:
                return r
        b = self.bind(f, args, kw)
        if b is None:
            if any(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] == '*' for x in args):
                return unkop('starcall', q)
            self.note('typeerror', q)
            self.raise_('TypeError', None)
            raise DeadPath()
        if f.node.args.kwarg is not None:
            k = f.node.args.kwarg.arg
            kwd = b[k]
            base = None
            if '**' in kwd:
                base = node('unk', '**')
                kwd = {x: y for x, y in kwd.items() if x != '**'}
            b[k] = self.newdict(kwd, None, base)
        # recursion guard
        if self.callstack.count(q) >= self.unroll.get(q, 2) and isinstance(f.node, ast.FunctionDef):
            return self.recursive_call(f, q, b)
        if self.depth > self.max_depth:
            return unkop('depth', q)
        if isinstance(f.node, ast.FunctionDef):
            self.visited.add(q)
        nf = self.alloc('frame', Frame(dict(b), f.frame, f.mod))
        if f.cls is not None and isinstance(f.cls, Cls) and args:
            fr = self.heap[nf.id]
            fr.vars['$cls'] = f.cls
            first = (f.node.args.posonlyargs + f.node.args.args)
            fr.vars['$self'] = b[first[0].arg] if first else None
        ctx = Ctx()
        ctx.returns = []
        pc0 = self.pc
        self.funs.append(ctx)
        saved_loops = self.loops
        self.loops = []
        loc0 = self.loc
        self.depth += 1
        if isinstance(f.node, ast.Lambda):
            self.callstack.append(q)
            try:
                v = self.ev(f.node.body, nf)
                ctx.returns.append((self.pc, self.heap, v))
            except DeadPath:
                pass
            self.alive = False
        else:
            self.callstack.append(q)
            if _is_generator(f.node):
                self.callstack.pop()
                self.depth -= 1
                self.funs.pop()
                self.loops = saved_loops
                return self.generator_call(f, nf)
            self.exec_block(f.node.body, nf)
            if self.alive:
                ctx.returns.append((self.pc, self.heap, None))
        self.callstack.pop()
        self.depth -= 1
        self.funs.pop()
        self.loops = saved_loops
        self.loc = loc0
        T._loc[0] = loc0
        if not ctx.returns:
            self.alive = True
            raise DeadPath()
        self.pc, self.heap, v = self.merge_outcomes(ctx.returns, pc0)
        self.alive = True
        if nf.id not in self.captured:
            self.heap.pop(nf.id, None)
        return self.res(v)

    def generator_call(self, f, nf):
        """generator function: treat as the list of yielded values"""
        out = self.newlist([])
        self.setvar(nf, '$yield', out)
        ctx = Ctx()
        ctx.returns = []
        pc0 = self.pc
        self.funs.append(ctx)
        saved = self.loops
        self.loops = []
        self.depth += 1
        self.callstack.append(f.qual)
        self.exec_block(f.node.body, nf)
        if self.alive:
            ctx.returns.append((self.pc, self.heap, None))
        self.callstack.pop()
        self.depth -= 1
        self.funs.pop()
        self.loops = saved
        if not ctx.returns:
            self.alive = True
            raise DeadPath()
        self.pc, self.heap, _ = self.merge_outcomes(ctx.returns, pc0)
        self.alive = True
        return out

    def ex_Yield(self, e, fid):
        v = self.ev(e.value, fid) if e.value is not None else None
        out = self.lookup(fid, '$yield')
        self.models.call_method(self, out, 'append', [v], {})
        return None

    def recursive_call(self, f, q, b):
        if self.rec.get('hook') is not None:
            return self.rec['hook'](self, f, q, b)
        name = self.recname.get(q, q)
        return Op(node('rec', name, *[self.enc(v) for v in b.values()]))

    def construct(self, cls, args, kw):
        if cls.qual in self.opaque:
            init, _ = cls.lookup('__init__')
            r = self.opaque[cls.qual](self, self.bind(self.underlying(init), [None] + list(args), kw))
            if r is not NOTIMPL:
                return r
        o = self.alloc('obj', ObjCell(cls, {}))
        init, _ = cls.lookup('__init__')
        if init is not None:
            self.call(Method(init, o), args, kw)
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        o = self.res(o)
        if isinstance(o, tuple) and len(o) == 3 and isinstance(o[0], str) and o[0] == '$super':
            _, cls, slf = o
            inst = self.cell(slf).cls if isinstance(slf, Ref) else cls
            mro = inst.mro()
            k = mro.index(cls) if cls in mro else -1
            for c in mro[k + 1:]:
                if name in c.ns:
                    return Method(c.ns[name], slf)
            return Ext(f'builtins.object.{name}')
        if isinstance(o, PyIte):
            a, b = self.try_getattr(o.a, name), self.try_getattr(o.b, name)
            return self.merge_val(o.c, a, b)
        if isinstance(o, Mod):
            fid = self.module(o.name)
            if fid is not None:
                vars_ = self.heap[fid.id].vars
                if name in vars_:
                    return self.res(vars_[name])
            sub = f'{o.name}.{name}'
            if sub in self.repo.trees:
                self.module(sub)
                return Mod(sub)
            return unkop('modattr', sub)
        if isinstance(o, Ext):
            return self.models.ext_attr(self, o, name)
        if isinstance(o, Ref) and o.kind == 'obj':
            c = self.cell(o)
            if name in c.attrs and c.attrs[name] is not UNDEF:
                return self.res(c.attrs[name])
            if isinstance(c.cls, Cls):
                v, owner = c.cls.lookup(name)
                if v is not None:
                    if isinstance(v, Fun):
                        k = v.attrs.get('kind')
                        if k == 'staticmethod':
                            return v
                        if k == 'classmethod':
                            return Method(v, c.cls)
                        if k == 'property':
                            return self.call(v, [o], {})
                        return Method(v, o)
                    return v
            if c.base is not None:
                return self.models.base_attr(self, o, c, name)
            if name == '__class__':
                return c.cls
            self.note('attrerror', name)
            return unkop('attr', name)
        if isinstance(o, Cls):
            v, owner = o.lookup(name)
            if v is not None:
                if isinstance(v, Fun) and v.attrs.get('kind') == 'classmethod':
                    return Method(v, o)
                return v
            if name == '__name__':
                return o.name
            return unkop('clsattr', name)
        if isinstance(o, Fun):
            return self.models.fun_attr(self, o, name)
        return self.models.value_attr(self, o, name)

    def try_getattr(self, o, name):
        if o is None or o is UNDEF:
            return UNDEF
        return self.getattr(o, name)

    def setattr(self, o, name, v):
        o = self.res(o)
        if isinstance(o, Ref) and o.kind == 'obj':
            c = self.cell(o)
            d = dict(c.attrs)
            d[name] = v
            if c.origin:
                self.note('setattr', (c.origin, name, v))
            self.heap[o.id] = ObjCell(c.cls, d, c.origin, c.base)
            return
        if isinstance(o, Mod):
            fid = self.module(o.name)
            self.muts.append((f'module:{o.name}.{name}', 'attribute assignment', self.loc, self.pc, tuple(self.callstack), None))
            self.note('mut', (f'module:{o.name}.{name}', 'attribute assignment'))
            self.setvar(fid, name, v)
            return
        if isinstance(o, PyIte):
            for x in (o.a, o.b):
                if isinstance(x, Ref) and x.kind == 'obj':
                    old = self.cell(x).attrs.get(name, UNDEF)
                    self.setattr(x, name, self.merge_val(o.c if x is o.a else bnot(o.c), v, old))
            return
        if isinstance(o, Fun):
            o.attrs[name] = v
            return
        if isinstance(o, Ref) and o.kind == 'arr' and name in ('shape', 'flat'):
            self.mutate(o, f'.{name} assignment')
            self.havoc(o)
            return
        if isinstance(o, (Op, Ext)):
            self.note('extset', (repr(o), name))
            return
        self.note('unkset', name)

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        return self.res(self.models.getitem(self, self.res(o), k))

    def setitem(self, o, k, v):
        self.models.setitem(self, self.res(o), k, v)

    # ------------------------------------------------------------ lists
    def segs_of(self, v):
        v = self.res(v)
        if isinstance(v, Ref) and v.kind == 'list':
            return self.cell(v).segs
        items = self.concrete_items(v)
        if items is not None:
            return tuple(('item', x) for x in items)
        ss = self.iter_segments(v)
        if ss is None:
            if isinstance(v, PyIte):
                return (('ite', v.c, self.segs_of(v.a), self.segs_of(v.b)),)
            return (('opq', node('unk', 'segs'), node('unk', 'len')),)
        out = []
        for s in ss:
            if s[0] == 'item':
                out.append(s)
            else:
                t = fresh()
                set_range(t, s[1])
                out.append(('map', s[1], t, s[2](t)))
        return tuple(out)

    def list_extend(self, ref, v):
        c = self.cell(ref)
        self.heap[ref.id] = ListCell(tuple(c.segs) + tuple(self.segs_of(v)), c.origin)

    def seglen(self, s):
        if s[0] == 'item':
            return ONE
        if s[0] == 'map':
            return s[1]
        if s[0] == 'opq':
            return s[2]
        return ite(s[1], add(*[self.seglen(x) for x in s[2]]) if s[2] else ZERO,
                   add(*[self.seglen(x) for x in s[3]]) if s[3] else ZERO)

    def list_len(self, c):
        r = ZERO
        for s in c.segs:
            r = add(r, self.seglen(s))
        return r

    def cint(self, v):
        v = self.res(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Sc) and isnum(v.n) and val(v.n).denominator == 1:
            return int(val(v.n))
        return None

    # ------------------------------------------------------------ encoding to nodes
    def enc(self, v, depth=0):
        v = self.res(v)
        if isinstance(v, Sc):
            return v.n
        if isinstance(v, Bl):
            return ite(v.c, node('pytrue'), node('pyfalse'))
        if v is True:
            return node('pytrue')
        if v is False:
            return node('pyfalse')
        if v is None:
            return node('none')
        if v is UNDEF:
            return node('undef')
        if isinstance(v, str):
            return node('str', v)
        if isinstance(v, Op):
            return v.n
        if isinstance(v, tuple):
            if v and isinstance(v[0], str) and v[0] == '$super':
                return node('super')
            return self.lift_tup('tup', [self.enc(x, depth + 1) for x in v])
        if isinstance(v, PyIte):
            a = self.enc(v.a, depth + 1)
            b = self.enc(v.b, depth + 1)
            return ite(v.c, a, b)
        if isinstance(v, Ref):
            c = self.heap.get(v.id)
            if isinstance(c, ArrCell):
                return enc_arr(c.val)
            if isinstance(c, ListCell):
                return self.enc_segs(c.segs)
            if isinstance(c, DictCell):
                ks = sorted((k for k in c.d if c.d[k] is not UNDEF), key=str)
                return self.lift_tup('dict', [node('kv', str(k), self.enc(c.d[k], depth + 1)) for k in ks] + ([c.base] if c.base is not None else []))
            if isinstance(c, ObjCell):
                if c.base is not None:
                    return c.base
                if depth > 5:
                    return node('obj', c.cls.qual if isinstance(c.cls, Cls) else str(c.cls), v.id)
                return node('obj', c.cls.qual if isinstance(c.cls, Cls) else str(c.cls),
                            *[node('kv', k, self.enc(x, depth + 2)) for k, x in sorted(c.attrs.items())])
            return node('ref', v.kind, v.id)
        if isinstance(v, Fun):
            q = self.fun_qual(v)
            if '<' not in q:
                return node('repofn', q)
            return node('closure', q)
        if isinstance(v, Method):
            return node('method', self.fun_qual(v.fun), self.enc(v.self, depth + 1))
        if isinstance(v, Cls):
            return node('cls', v.qual)
        if isinstance(v, (Ext, Mod)):
            return node('ext', v.path if isinstance(v, Ext) else v.name)
        if isinstance(v, Iter):
            t = fresh()
            set_range(t, v.n)
            return mk_lam([t], [v.n], self.enc(v.item(t), depth + 1))
        if isinstance(v, Slice):
            return node('slice', *[self.enc(x) for x in (v.lo, v.hi, v.step)])
        if isinstance(v, ExtMethod):
            return node('extmethod', self.enc(v.obj, depth + 1), v.name)
        if isinstance(v, Partial):
            return node('partial', self.enc(v.fun), *[self.enc(x) for x in v.args])
        return node('py', repr(v))

    def enc_segs(self, segs):
        out = []
        for s in segs:
            if s[0] == 'item':
                out.append(self.enc(s[1]))
            elif s[0] == 'map':
                out.append(lam_lift([s[2]], [s[1]], self.enc(s[3]), 'segmap'))
            elif s[0] == 'opq':
                out.append(node('segopq', s[1], s[2]))
            else:
                out.append(ite(s[1], node('segs', *[x for x in [self.enc_segs(s[2])]]), node('segs', *[x for x in [self.enc_segs(s[3])]])))
        return self.lift_tup('list', out)

    def lift_tup(self, op, xs):
        return node(op, *xs)


def lam_lift(vs, ranges, body, op='lam'):
    if isnum(ranges[0]) and len(vs) == 1 and op == 'lam' and False:
        pass
    ats = [a for a in cond_atoms(body) if not (a.fv & set(vs))] if body.op == 'ite' else []
    if ats:
        at = min(ats, key=lambda a: a.id)
        return mkite_any(at, lam_lift(vs, ranges, cof(body, at, True), op), lam_lift(vs, ranges, cof(body, at, False), op))
    l = mk_lam(vs, ranges, body)
    if op == 'lam':
        # eta: lam i. el(base, i) over the full base is the base itself is not collapsed (shape information)
        return l
    return node(op, l)


def mkite_any(at, a, b):
    return ite(node('ite', at, TRUE, FALSE), a, b)


def enc_arr(a):
    body = a.body
    sh = a.shape
    # lift conditions that do not depend on the index variables
    ats = set()
    for x in list(sh) + [body]:
        if x.op == 'ite':
            ats |= {q for q in cond_atoms(x) if not (q.fv & set(a.vs))}
    if ats:
        at = min(ats, key=lambda q: q.id)
        t = Arr([cof(s, at, True) for s in sh], a.vs, cof(body, at, True), a.dt)
        e = Arr([cof(s, at, False) for s in sh], a.vs, cof(body, at, False), a.dt)
        return mkite_any(at, enc_arr(t), enc_arr(e))
    return mk_lam(list(a.vs), list(sh), body)


def _is_generator(n):
    for x in ast.walk(n):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            # nested function yields do not count
            return _own_yield(n.body)
    return False


def _own_yield(body):
    st = list(body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


STDLIKE = set(sys.stdlib_module_names) | {'numpy', 'scipy', 'tqdm', 'time', 'os', 'sys', 'abc', 'logging', 'functools', 'itertools', 'multiprocessing', 'typing',
           'math', 'warnings', 'copy', 'collections', 'random', 'operator', 'dataclasses', 'contextlib', 're', 'inspect', 'spec',
           'concurrent', 'string', 'enum', 'types', 'numbers', 'datetime', 'pathlib', 'json', 'traceback', 'statistics', '__future__'}
