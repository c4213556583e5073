"""Python-level abstract values."""
from .terms import *
from . import terms as T


class Sc:
    """scalar number (ty: int / float)"""
    __slots__ = ('n', 'ty')

    def __init__(self, n, ty):
        self.n = n
        self.ty = ty

    def __repr__(self):
        return f'Sc<{self.ty}>({show(self.n)})'


class Bl:
    """symbolic boolean"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return f'Bl({show(self.c)})'


class Ref:
    """reference to a heap cell; kind: list dict arr obj frame set"""
    __slots__ = ('id', 'kind')

    def __init__(self, id, kind):
        self.id = id
        self.kind = kind

    def __repr__(self):
        return f'Ref<{self.kind}:{self.id}>'

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))


class Arr:
    """immutable array content: shape (tuple of N), index vars, element body; dt real/int/bool/obj"""
    __slots__ = ('shape', 'vs', 'body', 'dt')

    def __init__(self, shape, vs, body, dt='real'):
        self.shape = tuple(shape)
        self.vs = tuple(vs)
        self.body = body
        self.dt = dt

    def el(self, *idx):
        return subst(self.body, dict(zip(self.vs, idx)))

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f'Arr{show(self.shape)}[{",".join(show(v) for v in self.vs)}]={show(self.body)}'


def mkarr(shape, f, dt='real'):
    vs = []
    for s in shape:
        v = fresh()
        set_range(v, s)
        vs.append(v)
    return Arr(shape, vs, f(*vs), dt)


class ArrCell:
    __slots__ = ('val', 'view', 'origin')

    def __init__(self, val, view=None, origin=None):
        self.val = val
        self.view = view          # (parent Ref, setter key or None)
        self.origin = origin


class ListCell:
    """segs: ('item', v) | ('map', N, var, v) | ('opq', node, N)"""
    __slots__ = ('segs', 'origin')

    def __init__(self, segs, origin=None):
        self.segs = tuple(segs)
        self.origin = origin


class DictCell:
    __slots__ = ('d', 'origin', 'base')

    def __init__(self, d, origin=None, base=None):
        self.d = d               # key (python hashable) -> value
        self.origin = origin
        self.base = base         # N: opaque dict for unknown keys


class ObjCell:
    __slots__ = ('cls', 'attrs', 'origin', 'base')

    def __init__(self, cls, attrs, origin=None, base=None):
        self.cls = cls
        self.attrs = attrs
        self.origin = origin
        self.base = base


class Frame:
    __slots__ = ('vars', 'parent', 'mod')

    def __init__(self, vars, parent, mod):
        self.vars = vars
        self.parent = parent      # frame id or None
        self.mod = mod


class Fun:
    """function closure"""
    __slots__ = ('node', 'frame', 'mod', 'qual', 'defaults', 'kwdefaults', 'cls', 'wraps', 'name', 'attrs')

    def __init__(self, node, frame, mod, qual, defaults, kwdefaults, cls=None, name=None):
        self.node = node
        self.frame = frame
        self.mod = mod
        self.qual = qual
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.wraps = None
        self.name = name
        self.attrs = {}

    def __repr__(self):
        return f'Fun({self.qual})'


class Method:
    __slots__ = ('fun', 'self')

    def __init__(self, fun, self_):
        self.fun = fun
        self.self = self_


class Partial:
    __slots__ = ('fun', 'args', 'kw')

    def __init__(self, fun, args, kw):
        self.fun, self.args, self.kw = fun, args, kw


class ExtMethod:
    """method of an abstract builtin/external value"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class Cls:
    __slots__ = ('name', 'mod', 'bases', 'ns', 'qual')

    def __init__(self, name, mod, bases, ns):
        self.name = name
        self.mod = mod
        self.bases = bases
        self.ns = ns
        self.qual = f'{mod}.{name}'

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None


class Mod:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'Mod({self.name})'


class Ext:
    """external (non repository) function/module/class by dotted path"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f'Ext({self.path})'

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(('ext', self.path))


class Op:
    """opaque value described by a node; ty: declared python type name or None"""
    __slots__ = ('n', 'ty', 'extra')

    def __init__(self, n, ty=None, extra=None):
        self.n = n
        self.ty = ty
        self.extra = extra

    def __repr__(self):
        return f'Op({show(self.n)})'


class PyIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f'PyIte({show(self.c)}, {self.a}, {self.b})'


class Iter:
    """abstract iterable with N items, item(t)"""
    __slots__ = ('n', 'item', 'src')

    def __init__(self, n, item, src=None):
        self.n = n
        self.item = item
        self.src = src


class Slice:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class _Sentinel:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


UNDEF = _Sentinel('UNDEF')
ELLIPSIS = _Sentinel('Ellipsis')
NOTIMPL = _Sentinel('NotImplemented')


def unkop(*why):
    return Op(node('unk', *[w if isinstance(w, N) else str(w) for w in why]))


def i_(k):
    return Sc(num(k), 'int')


def f_(k):
    return Sc(num(k), 'float')
