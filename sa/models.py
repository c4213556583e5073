"""Abstract models of Python builtins and operators (numpy & co live in npmodels)."""
from .terms import *
from . import terms as T
from .values import *

# ---------------------------------------------------------------- symmetric inverses

def _sym_hook(base, idx):
    if base.op == 'inv' and len(idx) == 2 and base.args[1] == 'sym' and idx[0].id > idx[1].id:
        return node('el', base, idx[1], idx[0])
    if base.op == 'app' and len(idx) >= 2 and isinstance(base.args[0], str) and base.args[0][-1:] == '~' and idx[0].id > idx[1].id:
        return node('el', base, idx[1], idx[0], *idx[2:])
    return None


T.EL_HOOKS.append(_sym_hook)

# ---------------------------------------------------------------- builtins

BUILTINS = {'len', 'range', 'enumerate', 'zip', 'isinstance', 'int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'min', 'max',
            'sum', 'abs', 'print', 'callable', 'type', 'sorted', 'reversed', 'map', 'filter', 'any', 'all', 'hasattr', 'getattr',
            'setattr', 'round', 'repr', 'object', 'super', 'staticmethod', 'classmethod', 'property', 'iter', 'next', 'open', 'frozenset',
            'issubclass', 'id', 'hash', 'format', 'slice', 'divmod', 'pow', 'vars', 'globals', 'locals', 'input', 'ord', 'chr', 'exec', 'eval',
            '__import__', 'complex', 'bytes', 'NotImplemented', 'delattr', 'dir', 'memoryview', 'bytearray'}
EXCS = {'Exception', 'ValueError', 'TypeError', 'AssertionError', 'NotImplementedError', 'KeyError', 'IndexError', 'RuntimeError',
        'ImportError', 'ModuleNotFoundError', 'AttributeError', 'ZeroDivisionError', 'ArithmeticError', 'OSError', 'IOError', 'LookupError',
        'StopIteration', 'BaseException', 'KeyboardInterrupt', 'FloatingPointError', 'OverflowError', 'Warning', 'UserWarning',
        'DeprecationWarning', 'FutureWarning', 'RuntimeWarning', 'NameError', 'UnboundLocalError', 'FileNotFoundError', 'PermissionError',
        'TimeoutError', 'SystemExit', 'MemoryError', 'RecursionError', 'EOFError'}


def builtin(name):
    if name in BUILTINS or name in EXCS:
        return Ext('builtins.' + name)
    if name == 'Ellipsis':
        return ELLIPSIS
    if name == '__name__':
        return 'module'
    return None


def npm():
    from . import npmodels
    return npmodels


# ---------------------------------------------------------------- helpers

def lift_ite(interp, v, f):
    """apply f over a PyIte value, with the branch condition assumed"""
    return interp.cond_eval(v.c, lambda: f(interp.res(v.a)), lambda: f(interp.res(v.b)))


def is_arr(v):
    return isinstance(v, Ref) and v.kind == 'arr'


def is_list(v):
    return isinstance(v, Ref) and v.kind == 'list'


def is_dict(v):
    return isinstance(v, Ref) and v.kind == 'dict'


def is_num(v):
    return isinstance(v, (Sc, Bl, bool))


def tosc(interp, v):
    if isinstance(v, Sc):
        return v
    if v is True:
        return i_(1)
    if v is False:
        return i_(0)
    if isinstance(v, Bl):
        return Sc(ite(v.c, ONE, ZERO), 'int')
    if is_arr(v):
        a = interp.cell(v).val
        if all(isnum(s) and val(s) == 1 for s in a.shape):
            return interp.scalar(Arr((), (), a.el(*[ZERO] * a.ndim), a.dt))
    return None


def fdiv(a, b):
    if isnum(a) and isnum(b) and val(b) != 0:
        q = val(a) / val(b)
        return num(q.numerator // q.denominator)
    if isnum(b) and val(b) == 1 and isint(a):
        return a
    if isnum(b) and val(b) != 0:
        q = div(a, b)
        if isint(q):
            return q
    if a is ZERO:
        return ZERO
    if a.op == 'ite' or b.op == 'ite':
        return lift(fdiv, a, b)
    q = div(a, b)
    if q.op in ('iv', 'bv', 'sym', 'num') and isint(q):
        return q
    # split multiples of b
    d = poly(a)
    whole, rest = ZERO, ZERO
    for m, c in d.items():
        t = mk({m: c})
        qq = div(t, b)
        if isint(qq) and c.denominator == 1:
            whole = add(whole, qq)
        else:
            rest = add(rest, t)
    if whole is not ZERO:
        return add(whole, fdiv(rest, b))
    if bounds(a)[0] is not None and bounds(a)[0] >= 0 and lt(a, b) is TRUE:
        return ZERO
    return node('floor', div(a, b))


def floor_(a):
    if a.op == 'ite':
        return lift(floor_, a)
    if isnum(a):
        return num(val(a).numerator // val(a).denominator)
    if isint(a):
        return a
    return node('floor', a)


def ceil_(a):
    if a.op == 'ite':
        return lift(ceil_, a)
    if isnum(a):
        return num(-((-val(a).numerator) // val(a).denominator))
    if isint(a):
        return a
    return neg(node('floor', neg(a)))


def mod_(a, b):
    return sub(a, mul(b, fdiv(a, b)))


def trunc_(a):
    if a.op == 'ite':
        return lift(trunc_, a)
    if isint(a):
        return a
    if isnum(a):
        return num(int(val(a)))
    if nonneg(a):
        return floor_(a)
    return node('toint', a)


def min2(a, b):
    """min(a, b)"""
    return ite(lt(b, a), b, a)


def max2(a, b):
    return ite(lt(a, b), b, a)


SCAL = {
    'Add': add, 'Sub': sub, 'Mult': mul, 'Div': div, 'FloorDiv': fdiv, 'Mod': mod_,
    'Pow': lambda a, b: power(a, b),
}


def binop(interp, op, a, b):
    if isinstance(a, PyIte):
        return lift_ite(interp, a, lambda x: binop(interp, op, x, b))
    if isinstance(b, PyIte):
        return lift_ite(interp, b, lambda x: binop(interp, op, a, x))
    # strings
    if op == 'Add' and (isinstance(a, str) or isinstance(b, str) or (isinstance(a, Op) and a.ty == 'str')):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if (isinstance(a, (str, Op)) and isinstance(b, (str, Op))):
            return Op(mkstr([a if isinstance(a, str) else a.n, b if isinstance(b, str) else b.n]), 'str')
    if op == 'Mod' and isinstance(a, str):
        ps = strmod(interp, a, b)
        if ps is not None:
            return ''.join(ps) if all(isinstance(q, str) for q in ps) else Op(mkstr(ps), 'str')
        return Op(node('strmod', a, interp.enc(b)), 'str')
    if op == 'Mult' and isinstance(a, str) and interp.cint(b) is not None:
        return a * interp.cint(b)
    if op == 'Mult' and isinstance(b, str) and interp.cint(a) is not None:
        return b * interp.cint(a)
    # sequences
    if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if op == 'Add' and is_list(a) and is_list(b):
        return interp.alloc('list', ListCell(tuple(interp.cell(a).segs) + tuple(interp.cell(b).segs)))
    if op == 'Mult' and (is_list(a) or isinstance(a, tuple)) and is_num(b):
        return seq_repeat(interp, a, b)
    if op == 'Mult' and (is_list(b) or isinstance(b, tuple)) and is_num(a):
        return seq_repeat(interp, b, a)
    # matrices
    if op == 'MatMult':
        return npm().dot(interp, a, b, matmul=True)
    # boolean algebra
    if op in ('BitAnd', 'BitOr', 'BitXor') and isinstance(a, (Bl, bool)) and isinstance(b, (Bl, bool)):
        x, y = interp.bl(a), interp.bl(b)
        r = band(x, y) if op == 'BitAnd' else bor(x, y) if op == 'BitOr' else ite(x, bnot(y), y)
        return interp.mkbool(r)
    if is_num(a) and is_num(b):
        x, y = tosc(interp, a), tosc(interp, b)
        f = SCAL.get(op)
        if f is None:
            return Sc(fn('bit' + op, x.n, y.n), 'int')
        n = f(x.n, y.n)
        ty = 'float' if 'float' in (x.ty, y.ty) or op == 'Div' else ('npint' if 'npint' in (x.ty, y.ty) else 'int')
        if op == 'Pow' and ty != 'float' and not isint(n):
            ty = 'float'
        return Sc(n, ty)
    if is_arr(a) or is_arr(b):
        return npm().arr_binop(interp, op, a, b)
    if isinstance(a, Op) or isinstance(b, Op):
        return op_binop(interp, op, a, b)
    if op == 'BitOr' and is_dict(a) and is_dict(b):
        d = dict(interp.cell(a).d)
        d.update(interp.cell(b).d)
        return interp.newdict(d, None, interp.cell(a).base or interp.cell(b).base)
    return unkop('binop', op)


def op_binop(interp, op, a, b):
    """arithmetic on an opaque scalar-like value"""
    def sc(v):
        if isinstance(v, Op) and v.ty in ('float', 'int', 'real', 'number'):
            return v.n
        s = tosc(interp, v)
        return s.n if s is not None else None
    x, y = sc(a), sc(b)
    f = SCAL.get(op)
    if x is not None and y is not None and f is not None:
        return Sc(f(x, y), 'float')
    return Op(node('unk', 'opbin', op, interp.enc(a), interp.enc(b)))


def seq_repeat(interp, s, k):
    k = tosc(interp, k)
    segs = interp.segs_of(s)
    if isnum(k.n) and val(k.n) <= 64:
        kk = int(val(k.n))
        if isinstance(s, tuple):
            return s * kk
        return interp.alloc('list', ListCell(tuple(segs) * max(kk, 0)))
    if len(segs) == 1 and segs[0][0] == 'item':
        t = fresh()
        set_range(t, k.n)
        return interp.alloc('list', ListCell((('map', k.n, t, segs[0][1]),)))
    return unkop('repeat')


def unary(interp, f, v):
    v = interp.res(v)
    if isinstance(v, PyIte):
        return lift_ite(interp, v, lambda x: unary(interp, f, x))
    if is_num(v):
        s = tosc(interp, v)
        return Sc(f(s.n), s.ty)
    if is_arr(v):
        a = interp.cell(v).val
        return interp.newarr(Arr(a.shape, a.vs, f(a.body), a.dt if a.dt != 'bool' else 'int'))
    if isinstance(v, Op) and v.ty in ('float', 'int', 'real', 'number'):
        return Sc(f(v.n), 'float')
    return unkop('unary')


def invert(interp, v):
    if isinstance(v, (Bl, bool)):
        return interp.mkbool(bnot(interp.bl(v)))
    if is_arr(v):
        a = interp.cell(v).val
        if a.dt == 'bool':
            return interp.newarr(Arr(a.shape, a.vs, bnot(a.body), 'bool'))
    return unkop('invert')


CMP = {'Lt': lt, 'LtE': le, 'Gt': lambda a, b: lt(b, a), 'GtE': lambda a, b: le(b, a), 'Eq': eq, 'NotEq': lambda a, b: bnot(eq(a, b))}


def compare(interp, op, a, b):
    a, b = interp.res(a), interp.res(b)
    if op == 'NotIn':
        return interp.mkbool(bnot(interp.truth(compare(interp, 'In', a, b))))
    if op == 'IsNot':
        return interp.mkbool(bnot(interp.truth(compare(interp, 'Is', a, b))))
    if isinstance(a, PyIte):
        return lift_ite(interp, a, lambda x: compare(interp, op, x, b))
    if isinstance(b, PyIte) and op != 'In':
        return lift_ite(interp, b, lambda x: compare(interp, op, a, x))
    if op == 'In':
        return contains_op(interp, a, b)
    if op == 'Is':
        return is_op(interp, a, b)
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        if op in ('Eq', 'NotEq'):
            r = str_eq(interp, a, b)
            return interp.mkbool(r if op == 'Eq' else bnot(r))
    if isinstance(a, (Bl, bool)) and isinstance(b, (Bl, bool)) and op in ('Eq', 'NotEq'):
        x, y = interp.bl(a), interp.bl(b)
        r = ite(x, y, bnot(y))
        return interp.mkbool(r if op == 'Eq' else bnot(r))
    if is_num(a) and is_num(b):
        return interp.mkbool(CMP[op](tosc(interp, a).n, tosc(interp, b).n))
    if is_arr(a) or is_arr(b):
        return npm().arr_compare(interp, op, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and op in ('Eq', 'NotEq'):
        r = TRUE if len(a) == len(b) else FALSE
        if r is TRUE:
            for x, y in zip(a, b):
                r = band(r, interp.truth(compare(interp, 'Eq', x, y)))
        return interp.mkbool(r if op == 'Eq' else bnot(r))
    if op in ('Eq', 'NotEq'):
        if is_list(a) and is_list(b):
            x, y = interp.concrete_items(a), interp.concrete_items(b)
            if x is not None and y is not None:
                return compare(interp, op, tuple(x), tuple(y))
            r = cond_atom('pyeq', interp.enc(a), interp.enc(b))
            return interp.mkbool(r if op == 'Eq' else bnot(r))
        if isinstance(a, (Ext, Mod, Fun, Cls)) and isinstance(b, (Ext, Mod, Fun, Cls)):
            r = interp.enc(a) is interp.enc(b)
            return r if op == 'Eq' else not r
        if isinstance(a, Op) and a.ty in ('float', 'int', 'real', 'number') and is_num(b):
            return interp.mkbool(CMP[op](a.n, tosc(interp, b).n))
        x, y = interp.enc(a), interp.enc(b)
        r = TRUE if x is y else cond_atom('pyeq', *sorted((x, y), key=lambda n: n.id))
        return interp.mkbool(r if op == 'Eq' else bnot(r))

    def sc(v):
        if isinstance(v, Op) and v.ty in ('float', 'int', 'real', 'number'):
            return v.n
        s = tosc(interp, v)
        return None if s is None else s.n
    x, y = sc(a), sc(b)
    if x is not None and y is not None:
        return interp.mkbool(CMP[op](x, y))
    return interp.mkbool(cond_atom('unkcmp', op, node('unk', 'cmp'), interp.enc(a), interp.enc(b)))


def str_eq(interp, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return TRUE if a == b else FALSE
    if a is None and b is None:
        return TRUE
    if isinstance(a, Op) or isinstance(b, Op):
        o, s = (a, b) if isinstance(a, Op) else (b, a)
        if o.ty in ('obj', 'callable') or (o.ty and o.ty != 'str' and isinstance(s, str)):
            return FALSE
        if s is None:
            return cond_atom('isnone', o.n) if not o.ty else FALSE
        return cond_atom('streq', o.n, s)
    return FALSE


def contains_op(interp, a, b):
    b = interp.res(b)
    if isinstance(b, PyIte):
        return lift_ite(interp, b, lambda x: contains_op(interp, a, x))
    if isinstance(b, str):
        if isinstance(a, str):
            return a in b
        return interp.mkbool(cond_atom('strin', interp.enc(a), b))
    if is_dict(b):
        c = interp.cell(b)
        k = interp.dkey(a)
        if k is not None and k in c.d:
            v = c.d[k]
            if v is UNDEF:
                return False
            if isinstance(v, PyIte):
                return interp.mkbool(undef_cond(v))
            return True
        if c.base is None:
            return False
        return interp.mkbool(cond_atom('haskey', c.base, str(k)))
    items = interp.concrete_items(b)
    if items is not None:
        r = FALSE
        for x in items:
            r = bor(r, interp.truth(compare(interp, 'Eq', a, x)))
        return interp.mkbool(r)
    if isinstance(b, Iter) and isinstance(a, Sc):
        t = fresh()
        set_range(t, b.n)
        x = b.item(t)
        return interp.mkbool(mk_exists([t], [b.n], interp.truth(compare(interp, 'Eq', a, x))))
    return interp.mkbool(cond_atom('in', interp.enc(a), interp.enc(b)))


def undef_cond(v):
    """condition under which a possibly-undefined value is defined"""
    if v is UNDEF:
        return FALSE
    if isinstance(v, PyIte):
        return ite(v.c, undef_cond(v.a), undef_cond(v.b))
    return TRUE


def is_op(interp, a, b):
    if isinstance(b, Op) and not isinstance(a, Op):
        a, b = b, a
    if b is None or a is None:
        x = a if b is None else b
        if x is None:
            return True
        if isinstance(x, Op) and x.ty is None:
            if x.n.op in ('repofn', 'ext', 'obj', 'app'):
                return False
            return interp.mkbool(cond_atom('isnone', x.n))
        return False
    if isinstance(a, (bool, Bl)) and isinstance(b, (bool, Bl)):
        x, y = interp.bl(a), interp.bl(b)
        return interp.mkbool(ite(x, y, bnot(y)))
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, (Ext, Mod, Cls, Fun, str)) and isinstance(b, (Ext, Mod, Cls, Fun, str)):
        if isinstance(a, str) or isinstance(b, str):
            return a == b if isinstance(a, str) and isinstance(b, str) else False
        return interp.enc(a) is interp.enc(b)
    if type(a) is not type(b):
        return False
    return interp.mkbool(cond_atom('is', interp.enc(a), interp.enc(b)))


def fmtpart(interp, x, spec='', conv=-1):
    x = interp.res(x)
    if not spec and conv in (-1, 115):
        if isinstance(x, str):
            return x
        if isinstance(x, Op) and x.ty == 'str':
            return x.n
    if isinstance(x, str) and not spec and conv == 114:
        return repr(x)
    return node('fmt', interp.enc(x), spec, conv)


def strmod(interp, a, b):
    """parts of  a % b  for a literal a"""
    import re
    b = interp.res(b)
    xs = list(b) if isinstance(b, tuple) else [b]
    out, pos = [], 0
    for m in re.finditer(r'%(%|([-+ #0]*)(\d*)(\.\d+)?([sdfFeEgGir]))', a):
        out.append(a[pos:m.start()])
        pos = m.end()
        if m.group(1) == '%':
            out.append('%')
            continue
        if not xs:
            return None
        fl, w, pr, k = m.group(2), m.group(3), m.group(4) or '', m.group(5)
        if '-' in fl or '#' in fl:
            return None
        if k in 'sr':
            if fl or w or pr:
                return None
            out.append(fmtpart(interp, xs.pop(0), '', 114 if k == 'r' else -1))
        elif k in 'di':
            out.append(fmtpart(interp, xs.pop(0), fl + w + pr + 'd'))
        else:
            out.append(fmtpart(interp, xs.pop(0), fl + w + pr + k))
    if xs or '%' in a[pos:]:
        return None
    out.append(a[pos:])
    return out


def strformat(interp, o, args, kw):
    import string
    try:
        ps = list(string.Formatter().parse(o))
    except ValueError:
        return None
    out, auto = [], 0
    for lit, fld, spec, conv in ps:
        out.append(lit)
        if fld is None:
            continue
        if spec and '{' in spec:
            return None
        if fld == '':
            fld, auto = auto, auto + 1
        elif fld.isdigit():
            fld = int(fld)
        if isinstance(fld, int):
            if fld >= len(args):
                return None
            x = args[fld]
        elif fld in kw:
            x = kw[fld]
        else:
            return None
        out.append(fmtpart(interp, x, spec or '', ord(conv) if conv else -1))
    return out


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, N) and p.op == 'strcat':
            out += list(p.args)
        elif isinstance(p, N) and p.op == 'str':
            out.append(p.args[0])
        else:
            out.append(p)
    m = []
    for p in out:
        if isinstance(p, str) and m and isinstance(m[-1], str):
            m[-1] += p
        elif p != '':
            m.append(p)
    if len(m) == 1 and isinstance(m[0], str):
        return node('str', m[0])
    return node('strcat', *m)


# ---------------------------------------------------------------- types

NPFLOAT = {'numpy.float64', 'numpy.float_', 'numpy.floating', 'numpy.inexact', 'numpy.double'}


def type_of(interp, v):
    v = interp.res(v)
    if v is None:
        return Ext('builtins.NoneType')
    if isinstance(v, (bool, Bl)):
        return Ext('builtins.bool')
    if isinstance(v, Sc):
        return Ext('builtins.int') if v.ty == 'int' else Ext('numpy.int64') if v.ty == 'npint' else Ext('builtins.float')
    if isinstance(v, str):
        return Ext('builtins.str')
    if isinstance(v, tuple):
        return Ext('builtins.tuple')
    if isinstance(v, Ref):
        if v.kind == 'arr':
            return Ext('numpy.ndarray')
        if v.kind == 'obj':
            return interp.cell(v).cls
        return Ext('builtins.' + v.kind)
    return Op(node('typeof', interp.enc(v)))


def isinstance_(interp, v, t):
    v = interp.res(v)
    t = interp.res(t)
    if isinstance(v, PyIte):
        return ite(v.c, isinstance_(interp, v.a, t), isinstance_(interp, v.b, t))
    if isinstance(t, tuple):
        r = FALSE
        for x in t:
            r = bor(r, isinstance_(interp, v, x))
        return r
    if isinstance(t, Cls):
        if isinstance(v, Ref) and v.kind == 'obj':
            c = interp.cell(v).cls
            if isinstance(c, Cls):
                return TRUE if t in c.mro() or any(x.qual == t.qual for x in c.mro()) else FALSE
        if isinstance(v, Op):
            if v.ty == t.qual:
                return TRUE
            return cond_atom('isinstance', v.n, t.qual)
        return FALSE
    if isinstance(t, Ext):
        p = t.path
    elif isinstance(t, Op) and t.n.op == 'typing':
        if t.n.args[0] == 'Union':
            r = FALSE
            for x in t.extra or ():
                r = bor(r, isinstance_(interp, v, x))
            return r
        p = 'typing.' + t.n.args[0]
    else:
        return cond_atom('isinstance', interp.enc(v), repr(t))
    short = p.split('.')[-1]
    if isinstance(v, Op):
        if v.ty == 'callable':
            return TRUE if short in ('Callable',) else FALSE
        if v.ty in ('str', 'float', 'int', 'bool', 'list', 'dict', 'tuple', 'rng', 'logger', 'obj'):
            if v.ty == short or (v.ty == 'float' and p in NPFLOAT) or (v.ty == 'bool' and short == 'int'):
                return TRUE
            return FALSE
        return cond_atom('isinstance', v.n, p)
    if short == 'NoneType':
        return TRUE if v is None else FALSE
    if short == 'object':
        return TRUE
    if short in ('Callable', 'FunctionType'):
        return TRUE if isinstance(v, (Fun, Method, Partial, Ext, ExtMethod, Cls)) else FALSE
    if isinstance(v, (bool, Bl)):
        return TRUE if short in ('bool', 'int', 'Integral', 'Number', 'Real', 'bool_') else FALSE
    if isinstance(v, Sc):
        if v.ty == 'int':
            return TRUE if p in ('builtins.int', 'numbers.Integral', 'numbers.Number', 'numbers.Real') else FALSE
        if v.ty == 'npint':
            return TRUE if p in ('numpy.int64', 'numpy.integer', 'numbers.Integral', 'numbers.Number', 'numbers.Real', 'numpy.int_', 'numpy.generic') else FALSE
        return TRUE if (p in ('builtins.float', 'numbers.Number', 'numbers.Real') or p in NPFLOAT) else FALSE
    if isinstance(v, str):
        return TRUE if short == 'str' else FALSE
    if isinstance(v, tuple):
        return TRUE if short in ('tuple', 'Tuple', 'Sequence', 'Iterable') else FALSE
    if isinstance(v, Ref):
        if v.kind == 'arr':
            return TRUE if short == 'ndarray' else FALSE
        if v.kind == 'list':
            return TRUE if short in ('list', 'List', 'Sequence', 'Iterable') else FALSE
        if v.kind == 'dict':
            return TRUE if short in ('dict', 'Dict', 'Mapping') else FALSE
        return FALSE
    return FALSE


# ---------------------------------------------------------------- attributes

def ext_attr(interp, o, name):
    p = o.path
    q = f'{p}.{name}'
    r = npm().const_attr(interp, q)
    if r is not None:
        return r
    return Ext(q)


def base_attr(interp, o, c, name):
    """attribute of an object whose initial state is described by a base node"""
    n = node('attr', c.base, name)
    return Op(n)


class CodeObj:
    pass


def fun_attr(interp, f, name):
    u = f
    a = u.node.args
    if name == '__annotations__':
        d = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None:
                d[x.arg] = Op(node('anno', x.arg))
        if getattr(u.node, 'returns', None) is not None:
            d['return'] = Op(node('anno', 'return'))
        return interp.newdict(d)
    if name == '__code__':
        return Op(node('code', u.qual), 'obj', {'attrs': {'co_argcount': i_(len(a.posonlyargs) + len(a.args)),
                                                          'co_varnames': tuple(x.arg for x in a.posonlyargs + a.args)}})
    if name in ('__name__', '__qualname__'):
        return f.name
    if name == '__doc__':
        return Op(node('doc', f.qual), 'str')
    if name == '__module__':
        return f.mod
    if name == '__wrapped__' and f.wraps is not None:
        return f.wraps
    if name in f.attrs:
        return f.attrs[name]
    return unkop('funattr', name)


def value_attr(interp, o, name):
    if isinstance(o, Op):
        ex = o.extra
        if isinstance(ex, dict):
            at = ex.get('attrs')
            if at is not None:
                if callable(at):
                    r = at(interp, name)
                    if r is not None:
                        return r
                elif name in at:
                    return at[name]
        if o.ty == 'str':
            return ExtMethod(o, name)
        if o.ty in ('rng', 'logger', 'callable', 'sampler', 'dist', 'pool', 'mpl'):
            return ExtMethod(o, name)
        if o.n.unk:
            return Op(node('unk', 'attr', name, o.n))
        return Op(node('attr', o.n, name), None, None)
    if is_arr(o):
        r = npm().arr_attr(interp, o, name)
        if r is not None:
            return r
        return ExtMethod(o, name)
    if isinstance(o, Sc):
        if name in ('shape',):
            return ()
        if name == 'ndim':
            return i_(0)
        if name == 'size':
            return i_(1)
        if name in ('T', 'real'):
            return o
        return ExtMethod(o, name)
    if o is None:
        interp.note('attrnone', name)
        interp.raise_('AttributeError', None)
        from .interp import DeadPath
        raise DeadPath()
    if isinstance(o, Method) and name == '__self__':
        return o.self
    if isinstance(o, Method):
        return fun_attr(interp, o.fun, name)
    return ExtMethod(o, name)


# ---------------------------------------------------------------- items

def getitem(interp, o, k):
    if isinstance(k, PyIte):
        return lift_ite(interp, k, lambda x: getitem(interp, o, x))
    if isinstance(o, PyIte):
        return lift_ite(interp, o, lambda x: getitem(interp, x, k))
    k = interp.res(k) if not isinstance(k, (tuple, Slice)) else k
    if is_arr(o):
        return npm().arr_getitem(interp, o, k)
    if isinstance(o, (tuple, str)):
        return seq_getitem(interp, o, k)
    if is_list(o):
        return list_getitem(interp, o, k)
    if is_dict(o):
        return dict_getitem(interp, o, k)
    if isinstance(o, Ext) and (o.path.startswith('typing') or o.path.startswith('builtins')):
        return Op(node('typing', o.path.split('.')[-1], interp.enc(k)), 'type', k if isinstance(k, tuple) else (k,))
    if isinstance(o, Iter):
        kk = interp.res(k)
        if isinstance(kk, Sc):
            return o.item(norm_index(kk.n, o.n))
        return unkop('iterslice')
    if isinstance(o, Op):
        ex = o.extra
        if isinstance(ex, dict) and 'getitem' in ex:
            r = ex['getitem'](interp, k)
            if r is not None:
                return r
        if isinstance(ex, dict) and 'attrs' in ex and isinstance(k, str):
            r = ex['attrs'].get(k) if isinstance(ex['attrs'], dict) else ex['attrs'](interp, k)
            if r is not None:
                return r
        if o.n.unk:
            return Op(node('unk', 'item', o.n, interp.enc(k)))
        return Op(node('item', o.n, interp.enc(k)))
    if isinstance(o, Sc) and isinstance(k, tuple) and all(x is None or x is ELLIPSIS for x in k):
        return npm().arr_getitem(interp, interp.alloc('arr', ArrCell(Arr((), (), o.n, 'real' if o.ty == 'float' else 'int'))), k)
    if isinstance(o, Sc):
        interp.note('typeerror', 'indexing a scalar')
        interp.raise_('TypeError', None)
        from .interp import DeadPath
        raise DeadPath()
    return unkop('getitem')


def norm_index(k, n):
    lo, hi = bounds(k)
    if hi is not None and hi < 0:
        return add(n, k)
    if isnum(k) and val(k) < 0:
        return add(n, k)
    return k


def seq_getitem(interp, o, k):
    if isinstance(k, Slice):
        sl = [None if x is None else interp.cint(x) for x in (k.lo, k.hi, k.step)]
        if any(x is not None and y is None for x, y in zip((k.lo, k.hi, k.step), sl)):
            return unkop('slice')
        return o[slice(*sl)]
    kk = interp.cint(k)
    if kk is not None:
        if -len(o) <= kk < len(o):
            return o[kk]
        interp.raise_('IndexError', None)
        from .interp import DeadPath
        raise DeadPath()
    if isinstance(k, Sc) and len(o):
        r = o[-1]
        for i in range(len(o) - 2, -1, -1):
            r = interp.merge_val(eq(k.n, num(i)), o[i], r)
        return r
    return unkop('seqitem')


def slice_bounds(interp, k, n):
    """-> (lo, length, step) nodes"""
    st = interp.cint(k.step) if k.step is not None else 1
    if st is None:
        return None
    def cl(x, dflt):
        if x is None:
            return dflt
        x = interp.res(x)
        s = tosc(interp, x) if is_num(x) else (Sc(x.n, 'int') if isinstance(x, Op) and x.ty == 'int' else None)
        if s is None:
            return None
        v = s.n
        lo, hi = bounds(v)
        if (hi is not None and hi < 0):
            v = add(n, v)
            return ite(lt0(v), ZERO, v)
        if lo is None or lo < 0:
            if v.op == 'ite':
                pass
            v = simp(v, interp.pc)
            neg_ = simp(lt0(v), interp.pc)
            v = ite(neg_, ite(lt0(add(n, v)), ZERO, add(n, v)), v)
        return simp(ite(lt(n, v), n, v), interp.pc)
    if st == 1:
        lo, hi = cl(k.lo, ZERO), cl(k.hi, n)
        if lo is None or hi is None:
            return None
        ln = sub(hi, lo)
        ln = simp(ite(lt0(ln), ZERO, ln), interp.pc)
        return lo, ln, 1
    if st == -1 and k.lo is None and k.hi is None:
        return sub(n, ONE), n, -1
    if st > 1:
        lo, hi = cl(k.lo, ZERO), cl(k.hi, n)
        if lo is None or hi is None:
            return None
        return lo, ceil_(div(sub(hi, lo), num(st))), st
    return None


def list_getitem(interp, o, k):
    c = interp.cell(o)
    if isinstance(k, Slice):
        its = interp.concrete_items(o)
        if its is not None:
            sl = [None if x is None else interp.cint(x) for x in (k.lo, k.hi, k.step)]
            if not any(x is not None and y is None for x, y in zip((k.lo, k.hi, k.step), sl)):
                return interp.newlist(its[slice(*sl)])
        n = interp.list_len(c)
        sb = slice_bounds(interp, k, n)
        if sb is None:
            return unkop('listslice')
        lo, ln, st = sb
        if lo is ZERO and ln is n and st == 1:
            return interp.alloc('list', ListCell(c.segs))
        t = fresh()
        set_range(t, ln)
        v = list_getitem(interp, o, Sc(add(lo, mul(num(st), t)), 'int'))
        return interp.alloc('list', ListCell((('map', ln, t, v),)))
    kk = interp.res(k)
    ks = tosc(interp, kk) if is_num(kk) else None
    if ks is None:
        if is_arr(kk):
            return unkop('listidx')
        return unkop('listidx')
    idx = ks.n
    n = interp.list_len(c)
    lo, hi = bounds(idx)
    # negative concrete index from the end
    if isnum(idx) and val(idx) < 0:
        kneg = int(-val(idx))
        segs = c.segs
        if len(segs) >= kneg and all(s[0] == 'item' for s in segs[-kneg:]):
            return segs[-kneg][1]
        idx = add(n, idx)
    if isnum(idx):
        ki = int(val(idx))
        pos = 0
        for s in c.segs:
            if s[0] == 'item':
                if pos == ki:
                    return s[1]
                pos += 1
            else:
                break
        else:
            interp.raise_('IndexError', None)
            from .interp import DeadPath
            raise DeadPath()
    return segs_item(interp, c.segs, idx)


def segs_item(interp, segs, idx):
    off = ZERO
    cands = []
    for s in segs:
        ln = interp.seglen(s)
        loc = sub(idx, off)
        cands.append((s, off, ln, loc))
        off = add(off, ln)
    out = None
    for s, of, ln, loc in reversed(cands):
        if s[0] == 'item':
            v = s[1]
        elif s[0] == 'map':
            v = interp.psubst(s[3], {s[2]: loc})
        elif s[0] == 'opq':
            v = interp.opq_item(s, loc)
        else:
            v = interp.cond_eval(s[1], lambda: segs_item(interp, s[2], loc), lambda: segs_item(interp, s[3], loc))
        if out is None:
            out = v
        else:
            out = interp.merge_val(simp(lt(idx, add(of, ln)), interp.pc), v, out)
    return out if out is not None else unkop('emptylist')


def dict_getitem(interp, o, k):
    c = interp.cell(o)
    kk = interp.dkey(k)
    if kk is None:
        return Op(node('item', interp.enc(o), interp.enc(k))) if not isinstance(k, Op) or not k.n.unk else unkop('dictkey')
    if kk in c.d:
        v = interp.res(c.d[kk])
        if v is UNDEF:
            interp.raise_('KeyError', None)
            from .interp import DeadPath
            raise DeadPath()
        if isinstance(v, PyIte):
            d = undef_cond(v)
            if d is not TRUE:
                interp.may_raise(bnot(d), 'KeyError')
                v = interp.res(v)
        return v
    if c.base is not None:
        v = base_item(interp, c.base, kk)
        d = dict(c.d)
        d[kk] = v
        interp.heap[o.id] = DictCell(d, c.origin, c.base)
        return v
    interp.raise_('KeyError', None)
    from .interp import DeadPath
    raise DeadPath()


def base_item(interp, base, kk):
    return Op(node('item', base, str(kk)))


def setitem(interp, o, k, v):
    if isinstance(o, PyIte):
        c = o.c
        interp.branch(c, lambda: setitem(interp, interp.res(o.a), k, v), lambda: setitem(interp, interp.res(o.b), k, v))
        return
    if is_arr(o):
        npm().arr_setitem(interp, o, k, v)
        return
    if is_dict(o):
        interp.mutate(o, f'item assignment [{k!r}]')
        c = interp.cell(o)
        d = dict(c.d)
        kk = interp.dkey(interp.res(k))
        if kk is None:
            interp.heap[o.id] = DictCell(d, c.origin, node('unk', 'dictset', interp.enc(k)))
            return
        d[kk] = v
        interp.heap[o.id] = DictCell(d, c.origin, c.base)
        return
    if is_list(o):
        interp.mutate(o, 'list item assignment')
        c = interp.cell(o)
        kk = interp.cint(k) if not isinstance(k, (Slice, tuple)) else None
        if kk is not None and all(s[0] == 'item' for s in c.segs) and -len(c.segs) <= kk < len(c.segs):
            segs = list(c.segs)
            segs[kk] = ('item', v)
            interp.heap[o.id] = ListCell(segs, c.origin)
            return
        ks = interp.res(k) if not isinstance(k, (Slice, tuple)) else None
        if isinstance(ks, Sc):
            n = interp.list_len(c)
            t = fresh()
            set_range(t, n)
            old = segs_item(interp, c.segs, t)
            nv = interp.merge_val(eq(t, norm_index(ks.n, n)), v, old)
            interp.heap[o.id] = ListCell((('map', n, t, nv),), c.origin)
            return
        interp.havoc(o)
        return
    if isinstance(o, Op):
        interp.note('extset', (show(o.n), 'item'))
        return
    interp.note('unkset', 'item')


def setitem_arr(interp, arr, key, newval):
    return npm().setitem_arr(interp, arr, key, newval)


# ---------------------------------------------------------------- context managers

def enter(interp, v):
    if isinstance(v, Ref) and v.kind == 'obj':
        m = interp.getattr(v, '__enter__')
        if not isinstance(m, Op):
            return interp.call(m, [], {})
    return v


# ---------------------------------------------------------------- calls on opaque values

def call_op(interp, f, args, kw):
    ex = f.extra
    if isinstance(ex, dict) and 'call' in ex:
        return ex['call'](interp, args, kw)
    ea = tuple(interp.enc(a[1]) if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] == '*' else interp.enc(a) for a in args)
    ek = tuple(node('kv', k, interp.enc(v)) for k, v in sorted(kw.items()))
    interp.note('call', (f.n, ea, ek))
    if f.n.unk:
        return Op(node('unk', 'call', f.n, *ea))
    if f.n.op == 'attr':
        return Op(node('mcall', f.n.args[0], f.n.args[1], *(ea + ek)))
    return Op(node('app', f.n, *(ea + ek)))


# ---------------------------------------------------------------- external functions: dispatcher

def call_ext(interp, path, args, kw):
    if any(isinstance(a, PyIte) for a in args) and path not in NOLIFT:
        for i, a in enumerate(args):
            if isinstance(a, PyIte):
                return lift_ite(interp, a, lambda x: call_ext(interp, path, args[:i] + [x] + args[i + 1:], kw))
    if path.startswith('builtins.'):
        n = path[9:]
        f = BFN.get(n)
        if f is not None:
            return f(interp, list(args), dict(kw))
        if n in EXCS:
            return Op(node('exc', n), 'exc:' + n)
        if n.startswith('object.'):
            return None
        interp.note('extcall', (path, ()))
        return unkop(path)
    return npm().call(interp, path, list(args), dict(kw))


NOLIFT = {'builtins.isinstance', 'builtins.print', 'builtins.callable', 'builtins.type', 'builtins.setattr'}


def b_len(interp, a, kw):
    v = interp.res(a[0])
    if isinstance(v, (tuple, str)):
        return i_(len(v))
    if is_list(v):
        return Sc(interp.list_len(interp.cell(v)), 'int')
    if is_dict(v):
        c = interp.cell(v)
        if c.base is None:
            r = ZERO
            for x in c.d.values():
                r = add(r, ite(undef_cond(x), ONE, ZERO))
            return Sc(r, 'int')
        return Sc(node('len', c.base), 'int')
    if is_arr(v):
        return Sc(interp.cell(v).val.shape[0], 'int')
    if isinstance(v, Iter):
        return Sc(v.n, 'int')
    if isinstance(v, Op):
        if isinstance(v.extra, dict) and 'iter' in v.extra:
            return Sc(v.extra['iter'][0], 'int')
        return Sc(node('len', v.n), 'int')
    return unkop('len')


def b_range(interp, a, kw):
    def g(x):
        x = interp.res(x)
        if isinstance(x, Op) and x.ty == 'int':
            return x.n
        s = tosc(interp, x)
        return s.n if s is not None else None
    v = [g(x) for x in a]
    if any(x is None for x in v):
        return unkop('range')
    lo, hi, st = (ZERO, v[0], ONE) if len(v) == 1 else (v[0], v[1], ONE) if len(v) == 2 else v
    if not isnum(st) or val(st) == 0:
        return unkop('range')
    n = sub(hi, lo)
    if val(st) != 1:
        if val(st) < 0:
            n = ceil_(div(n, st))
        else:
            n = ceil_(div(n, st))
    b = bounds(n)
    if not (b[0] is not None and b[0] >= 0):
        if isnum(n):
            n = n if val(n) > 0 else ZERO
        else:
            n = simp(ite(lt0(n), ZERO, n), interp.pc)
            n2 = T._range_bounds(sub(ZERO, n)) if n.op != 'ite' else None
    return Iter(n, lambda t: Sc(add(lo, mul(st, t)), 'int'), ('range', lo, hi, st))


def as_iter(interp, v):
    """-> (N, item function) or None"""
    v = interp.res(v)
    if isinstance(v, Iter):
        return v.n, v.item
    if isinstance(v, tuple) or isinstance(v, str):
        return num(len(v)), lambda t: seq_getitem(interp, v, Sc(t, 'int'))
    if is_arr(v):
        return interp.cell(v).val.shape[0], lambda t: interp.getitem(v, Sc(t, 'int'))
    if is_list(v):
        return interp.list_len(interp.cell(v)), lambda t: list_getitem(interp, v, Sc(t, 'int'))
    if is_dict(v):
        its = interp.concrete_items(v)
        if its is not None:
            return num(len(its)), lambda t: seq_getitem(interp, tuple(its), Sc(t, 'int'))
    if isinstance(v, Op) and isinstance(v.extra, dict) and 'iter' in v.extra:
        return v.extra['iter']
    return None


def b_enumerate(interp, a, kw):
    start = tosc(interp, interp.res(a[1] if len(a) > 1 else kw.get('start', i_(0))))
    its = interp.concrete_items(interp.res(a[0]))
    if its is not None:
        return tuple((Sc(add(num(i), start.n), 'int'), x) for i, x in enumerate(its))
    r = as_iter(interp, a[0])
    if r is None:
        return unkop('enumerate')
    n, f = r
    return Iter(n, lambda t: (Sc(add(t, start.n), 'int'), f(t)), ('enumerate',))


def b_zip(interp, a, kw):
    if len(a) == 1 and isinstance(a[0], tuple) and len(a[0]) == 2 and isinstance(a[0][0], str) and a[0][0] == '*':
        # zip(*seq): transpose a list of tuples of fixed arity
        r = as_iter(interp, a[0][1])
        if r is None:
            return unkop('zip*')
        n, f = r
        t = fresh()
        set_range(t, n)
        v = f(t)
        k = None
        if isinstance(v, tuple):
            k = len(v)
        if k is None:
            return unkop('zip*')
        out = []
        for j in range(k):
            tt = fresh()
            set_range(tt, n)
            out.append(interp.alloc('list', ListCell((('map', n, tt, interp.psubst(v[j], {t: tt})),))))
        return tuple(out)
    its = [interp.concrete_items(interp.res(x)) for x in a]
    if all(x is not None for x in its):
        return tuple(zip(*its))
    rs = [as_iter(interp, x) for x in a]
    if any(r is None for r in rs):
        return unkop('zip')
    n = None
    for nn, _ in rs:
        if nn is INF:
            continue
        n = nn if n is None or n is nn else (n if equal(n, nn) else min2(n, nn))
    return Iter(n, lambda t: tuple(f(t) for _, f in rs), ('zip',))


def b_isinstance(interp, a, kw):
    return interp.mkbool(isinstance_(interp, a[0], a[1]))


def b_int(interp, a, kw):
    if not a:
        return i_(0)
    v = interp.res(a[0])
    if isinstance(v, str):
        try:
            return i_(int(v))
        except ValueError:
            interp.raise_('ValueError')
            from .interp import DeadPath
            raise DeadPath()
    s = tosc(interp, v)
    if s is None:
        if isinstance(v, Op):
            return Sc(node('toint', v.n), 'int') if not v.n.unk else Sc(node('unk', 'int', v.n), 'int')
        return Sc(node('unk', 'int'), 'int')
    return Sc(trunc_(s.n), 'int')


def b_float(interp, a, kw):
    if not a:
        return f_(0)
    v = interp.res(a[0])
    if isinstance(v, str):
        t = v.strip().lower().lstrip('+')
        if t in ('inf', 'infinity'):
            return Sc(INF, 'float')
        if t in ('-inf', '-infinity'):
            return Sc(neg(INF), 'float')
        try:
            return Sc(num(float(v)), 'float')
        except ValueError:
            pass
    s = tosc(interp, v)
    if s is None:
        n = interp.enc(v)
        return Sc(node('tofloat', n) if not n.unk else node('unk', 'float', n), 'float')
    return Sc(s.n, 'float')


def b_bool(interp, a, kw):
    return interp.mkbool(interp.truth(a[0])) if a else False


def b_str(interp, a, kw):
    v = interp.res(a[0]) if a else ''
    if isinstance(v, str):
        return v
    if isinstance(v, Op) and v.ty == 'str':
        return v
    if isinstance(v, Sc) and isnum(v.n) and v.ty == 'int':
        return str(int(val(v.n)))
    q = fmtpart(interp, v)
    return q if isinstance(q, str) else Op(q, 'str')


def b_list(interp, a, kw):
    if not a:
        return interp.newlist([])
    v = interp.res(a[0])
    if is_dict(v):
        its = interp.concrete_items(v)
        if its is not None:
            return interp.newlist(its)
    return interp.alloc('list', ListCell(interp.segs_of(v)))


def b_tuple(interp, a, kw):
    if not a:
        return ()
    v = interp.res(a[0])
    its = interp.concrete_items(v)
    if its is not None:
        return tuple(its)
    return interp.alloc('list', ListCell(interp.segs_of(v)))


def b_dict(interp, a, kw):
    d = {}
    base = None
    if a:
        o = interp.res(a[0])
        if is_dict(o):
            d.update(interp.cell(o).d)
            base = interp.cell(o).base
        else:
            its = interp.concrete_items(o)
            if its is None:
                base = node('unk', 'dict')
            else:
                for kv in its:
                    kk = interp.concrete_items(kv)
                    d[interp.dkey(kk[0])] = kk[1]
    for k, v in kw.items():
        if k == '**':
            base = node('unk', 'dict**')
        else:
            d[k] = v
    return interp.newdict(d, None, base)


def _minmax(interp, a, kw, ismin):
    f2 = min2 if ismin else max2
    if len(a) == 1:
        v = interp.res(a[0])
        its = interp.concrete_items(v)
        key = kw.get('key')
        if its is None:
            r = as_iter(interp, v)
            if r is None:
                return unkop('min')
            n, f = r
            t = fresh()
            set_range(t, n)
            x = f(t)
            if key is not None and key is not None:
                kv = tosc(interp, interp.call(key, [x], {}))
                if kv is None:
                    return unkop('minkey')
                best = mk_argmin([t], [n], kv.n if ismin else neg(kv.n))
                return f(best)
            s = tosc(interp, x)
            if s is None:
                if isinstance(x, tuple):
                    return unkop('mintuple')
                return unkop('min')
            return Sc((mk_minred if ismin else mk_maxred)([t], [n], s.n), s.ty)
        a = its
    if not a:
        if 'default' in kw:
            return kw['default']
        interp.raise_('ValueError')
        from .interp import DeadPath
        raise DeadPath()
    key = kw.get('key')
    if key is not None:
        ks = [tosc(interp, interp.call(key, [x], {})) for x in a]
        if any(k is None for k in ks):
            return unkop('minkey')
        best, bk = a[0], ks[0].n
        for x, k in zip(a[1:], ks[1:]):
            c = lt(k.n, bk) if ismin else lt(bk, k.n)
            best = interp.merge_val(c, x, best)
            bk = ite(c, k.n, bk)
        return best
    ss = []
    for x in a:
        x = interp.res(x)
        s = tosc(interp, x) if not isinstance(x, Op) else (Sc(x.n, 'float') if x.ty in ('float', 'int', 'real') else None)
        if s is None:
            return unkop('min')
        ss.append(s)
    r = ss[0]
    for s in ss[1:]:
        r = Sc(f2(r.n, s.n), r.ty if r.ty == s.ty else 'float')
    return r


def b_sum(interp, a, kw):
    v = interp.res(a[0])
    start = a[1] if len(a) > 1 else kw.get('start', i_(0))
    its = interp.concrete_items(v)
    if its is not None:
        r = start
        for x in its:
            r = interp.binop('Add', r, x)
        return r
    r = as_iter(interp, v)
    if r is None:
        return unkop('sum')
    n, f = r
    t = fresh()
    set_range(t, n)
    x = interp.res(f(t))
    s = tosc(interp, x)
    if s is not None:
        tot = Sc(mk_sum([(t, n)], s.n), s.ty)
    elif is_arr(x):
        ar = interp.cell(x).val
        tot = interp.newarr(Arr(ar.shape, ar.vs, mk_sum([(t, n)], ar.body), ar.dt))
    else:
        return unkop('sum')
    return interp.binop('Add', start, tot)


def b_abs(interp, a, kw):
    return unary(interp, absv, a[0])


def b_print(interp, a, kw):
    interp.note('print', tuple(interp.enc(x) for x in a if not isinstance(x, tuple) or x[:1] != ('*',)))
    return None


def b_callable(interp, a, kw):
    v = interp.res(a[0])
    if isinstance(v, PyIte):
        return interp.mkbool(ite(v.c, interp.truth(b_callable(interp, [v.a], {})), interp.truth(b_callable(interp, [v.b], {}))))
    if isinstance(v, (Fun, Method, Partial, Ext, ExtMethod, Cls)):
        return True
    if isinstance(v, Op):
        if v.ty == 'callable':
            return True
        if v.ty:
            return False
        return interp.mkbool(cond_atom('callable', v.n))
    return False


def b_type(interp, a, kw):
    return type_of(interp, a[0])


def b_sorted(interp, a, kw):
    v = interp.res(a[0])
    its = interp.concrete_items(v)
    if its is not None and len(its) <= 1:
        return interp.newlist(its)
    if its is not None and all(isinstance(x, str) for x in its) and not kw:
        return interp.newlist(sorted(its))
    n = interp.enc(v)
    ks = tuple(node('kv', k, interp.enc(x)) for k, x in sorted(kw.items()))
    base = node('sorted', n, *ks)
    if its is not None:
        ln = num(len(its))
    else:
        r = as_iter(interp, v)
        ln = r[0] if r is not None else node('unk', 'len')
    sample = its[0] if its else None
    if sample is None and its is None:
        r = as_iter(interp, v)
        if r is not None:
            t = fresh()
            set_range(t, r[0])
            sample = interp.res(r[1](t))
    f = None
    if isinstance(sample, Sc):
        f = lambda t: Sc(mk_el(base, (t,)), sample.ty)
    return interp.alloc('list', ListCell((('opq', base, ln, f),)))


def b_reversed(interp, a, kw):
    v = interp.res(a[0])
    its = interp.concrete_items(v)
    if its is not None:
        return tuple(reversed(its))
    r = as_iter(interp, v)
    if r is None:
        return unkop('reversed')
    n, f = r
    return Iter(n, lambda t: f(sub(sub(n, ONE), t)))


def b_map(interp, a, kw):
    its = [interp.concrete_items(interp.res(x)) for x in a[1:]]
    if all(x is not None for x in its):
        return interp.newlist([interp.call(a[0], list(z), {}) for z in zip(*its)])
    return interp_map(interp, a[0], b_zip(interp, a[1:], {}), star=True)


def interp_map(interp, f, it, star=False):
    """[f(x) for x in it] through the loop summariser"""
    import ast as _ast
    fr = interp.alloc('frame', Frame({'$f': f, '$it': it}, None, '$model'))
    src = '[$f(*$x) for $x in $it]' if star else None
    call = _ast.Call(func=_ast.Name(id='$f', ctx=_ast.Load()),
                     args=[_ast.Starred(value=_ast.Name(id='$x', ctx=_ast.Load()), ctx=_ast.Load())] if star else [_ast.Name(id='$x', ctx=_ast.Load())],
                     keywords=[])
    comp = _ast.ListComp(elt=call, generators=[_ast.comprehension(target=_ast.Name(id='$x', ctx=_ast.Store()),
                                                                  iter=_ast.Name(id='$it', ctx=_ast.Load()), ifs=[], is_async=0)])
    for x in _ast.walk(comp):
        x.lineno = interp.loc[1] if interp.loc else 0
        x.col_offset = 0
    return interp.ev(comp, fr)


def b_any(interp, a, kw, neg_=False):
    v = interp.res(a[0])
    its = interp.concrete_items(v)
    if its is not None:
        r = TRUE if neg_ else FALSE
        for x in its:
            r = band(r, interp.truth(x)) if neg_ else bor(r, interp.truth(x))
        return interp.mkbool(r)
    r = as_iter(interp, v)
    if r is None:
        return unkop('any')
    n, f = r
    t = fresh()
    set_range(t, n)
    c = interp.truth(f(t))
    return interp.mkbool(mk_forall([t], [n], c) if neg_ else mk_exists([t], [n], c))


def b_hasattr(interp, a, kw):
    o = interp.res(a[0])
    if isinstance(o, Ref) and o.kind == 'obj' and isinstance(a[1], str):
        c = interp.cell(o)
        if a[1] in c.attrs:
            return interp.mkbool(undef_cond(c.attrs[a[1]]))
        if isinstance(c.cls, Cls) and c.cls.lookup(a[1])[0] is not None:
            return True
        if c.base is None:
            return False
    return interp.mkbool(cond_atom('hasattr', interp.enc(o), str(a[1])))


def b_getattr(interp, a, kw):
    if isinstance(a[1], str):
        if len(a) > 2:
            h = interp.truth(b_hasattr(interp, a[:2], {}))
            return interp.cond_eval(h, lambda: interp.getattr(a[0], a[1]), lambda: a[2])
        return interp.getattr(a[0], a[1])
    return unkop('getattr')


def b_setattr(interp, a, kw):
    if isinstance(a[1], str):
        interp.setattr(a[0], a[1], a[2])
    else:
        interp.havoc(a[0])
    return None


def b_round(interp, a, kw):
    s = tosc(interp, interp.res(a[0]))
    if s is None:
        return unkop('round')
    if isint(s.n):
        return s
    nd = interp.enc(a[1]) if len(a) > 1 else num(0)
    return Sc(fn('round', s.n, nd), 'float' if len(a) > 1 else 'int')


def b_iter(interp, a, kw):
    return a[0]


def b_next(interp, a, kw):
    v = interp.res(a[0])
    its = interp.concrete_items(v)
    if its:
        return its[0]
    if len(a) > 1 and its == []:
        return a[1]
    r = as_iter(interp, v)
    if r is not None:
        n, f = r
        if len(a) > 1:
            return interp.cond_eval(lt(ZERO, n), lambda: f(ZERO), lambda: a[1])
        return f(ZERO)
    return unkop('next')


def b_filter(interp, a, kw):
    its = interp.concrete_items(interp.res(a[1]))
    if its is not None:
        segs = ()
        for x in its:
            c = interp.truth(interp.call(a[0], [x], {}) if a[0] is not None else x)
            c = simp(c, interp.pc)
            if c is TRUE:
                segs += (('item', x),)
            elif c is not FALSE:
                segs += (('ite', c, (('item', x),), ()),)
        return interp.alloc('list', ListCell(segs))
    return unkop('filter')


def b_open(interp, a, kw):
    interp.note('write', ('open', tuple(interp.enc(x) for x in a)))
    return Op(node('file', *[interp.enc(x) for x in a]))


BFN = {
    'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'isinstance': b_isinstance, 'int': b_int, 'float': b_float,
    'bool': b_bool, 'str': b_str, 'list': b_list, 'tuple': b_tuple, 'dict': b_dict, 'set': b_tuple, 'frozenset': b_tuple,
    'min': lambda i, a, k: _minmax(i, a, k, True), 'max': lambda i, a, k: _minmax(i, a, k, False),
    'sum': b_sum, 'abs': b_abs, 'print': b_print, 'callable': b_callable, 'type': b_type, 'sorted': b_sorted, 'reversed': b_reversed,
    'map': b_map, 'filter': b_filter, 'any': b_any, 'all': lambda i, a, k: b_any(i, a, k, True), 'hasattr': b_hasattr, 'getattr': b_getattr,
    'setattr': b_setattr, 'round': b_round, 'iter': b_iter, 'next': b_next, 'open': b_open,
    'repr': lambda i, a, k: (lambda q: q if isinstance(q, str) else Op(q, 'str'))(fmtpart(i, a[0], '', 114)),
    'format': lambda i, a, k: (lambda q: q if isinstance(q, str) else Op(q, 'str'))(fmtpart(i, a[0], a[1] if len(a) > 1 and isinstance(a[1], str) else '')),
    'object': lambda i, a, k: Op(node('object'), 'obj'),
    'pow': lambda i, a, k: binop(i, 'Pow', a[0], a[1]),
    'divmod': lambda i, a, k: (binop(i, 'FloorDiv', a[0], a[1]), binop(i, 'Mod', a[0], a[1])),
    'slice': lambda i, a, k: Slice(None, a[0], None) if len(a) == 1 else Slice(a[0], a[1], a[2] if len(a) > 2 else None),
    'staticmethod': lambda i, a, k: a[0], 'classmethod': lambda i, a, k: a[0], 'property': lambda i, a, k: a[0],
    'id': lambda i, a, k: Sc(node('pyid', i.enc(a[0])), 'int'),
    'issubclass': lambda i, a, k: i.mkbool(cond_atom('issubclass', i.enc(a[0]), i.enc(a[1]))),
}


# ---------------------------------------------------------------- methods

def call_method(interp, o, name, args, kw):
    o = interp.res(o)
    if isinstance(o, PyIte):
        return lift_ite(interp, o, lambda x: call_method(interp, x, name, args, kw))
    if is_list(o):
        return list_method(interp, o, name, args, kw)
    if is_dict(o):
        return dict_method(interp, o, name, args, kw)
    if isinstance(o, str) or (isinstance(o, Op) and o.ty == 'str'):
        return str_method(interp, o, name, args, kw)
    if isinstance(o, tuple):
        if name == 'index' and args:
            r = i_(len(o) - 1)
            for i in range(len(o) - 1, -1, -1):
                r = interp.merge_val(interp.truth(compare(interp, 'Eq', o[i], args[0])), i_(i), r)
            return r
        if name == 'count':
            r = ZERO
            for x in o:
                r = add(r, ite(interp.truth(compare(interp, 'Eq', x, args[0])), ONE, ZERO))
            return Sc(r, 'int')
        return unkop('tuplemethod', name)
    if is_arr(o) or isinstance(o, Sc):
        return npm().arr_method(interp, o, name, args, kw)
    if isinstance(o, Op):
        return npm().op_method(interp, o, name, args, kw)
    if isinstance(o, Iter):
        if name == '__len__':
            return Sc(o.n, 'int')
        if name in ('set_description', 'update', 'close', 'refresh', 'set_postfix', 'write'):
            return None
        return unkop('itermethod', name)
    if isinstance(o, (bool, Bl)):
        if name in ('all', 'any', 'item'):
            return o
        if name == 'astype' or name == 'copy':
            return o
    if isinstance(o, Fun):
        return unkop('funmethod', name)
    return unkop('method', name)


def list_method(interp, o, name, args, kw):
    c = interp.cell(o)
    if name == 'append':
        interp.mutate(o, '.append')
        interp.heap[o.id] = ListCell(tuple(c.segs) + (('item', args[0]),), c.origin)
        return None
    if name == 'extend':
        interp.mutate(o, '.extend')
        interp.list_extend(o, args[0])
        return None
    if name == 'insert':
        interp.mutate(o, '.insert')
        k = interp.cint(args[0])
        if k == 0:
            interp.heap[o.id] = ListCell((('item', args[1]),) + tuple(c.segs), c.origin)
            return None
        if k is not None and all(s[0] == 'item' for s in c.segs):
            segs = list(c.segs)
            segs.insert(k, ('item', args[1]))
            interp.heap[o.id] = ListCell(segs, c.origin)
            return None
        interp.havoc(o)
        return None
    if name == 'copy':
        return interp.alloc('list', ListCell(c.segs))
    if name == 'pop':
        interp.mutate(o, '.pop')
        k = interp.cint(args[0]) if args else -1
        if k is not None and c.segs and all(s[0] == 'item' for s in c.segs) and -len(c.segs) <= k < len(c.segs):
            segs = list(c.segs)
            v = segs.pop(k)[1]
            interp.heap[o.id] = ListCell(segs, c.origin)
            return v
        if k == -1 and c.segs and c.segs[-1][0] == 'item':
            v = c.segs[-1][1]
            interp.heap[o.id] = ListCell(c.segs[:-1], c.origin)
            return v
        interp.havoc(o)
        return unkop('pop')
    if name in ('sort', 'reverse', 'remove', 'clear'):
        interp.mutate(o, '.' + name)
        if name == 'clear':
            interp.heap[o.id] = ListCell((), c.origin)
        elif name == 'reverse' and all(s[0] == 'item' for s in c.segs):
            interp.heap[o.id] = ListCell(tuple(reversed(c.segs)), c.origin)
        elif name == 'sort':
            r = b_sorted(interp, [o], kw)
            interp.heap[o.id] = ListCell(interp.cell(r).segs, c.origin)
        else:
            interp.havoc(o)
        return None
    if name == 'index':
        its = interp.concrete_items(o)
        if its is not None:
            return call_method(interp, tuple(its), 'index', args, kw)
        return unkop('index')
    if name == 'count':
        its = interp.concrete_items(o)
        if its is not None:
            return call_method(interp, tuple(its), 'count', args, kw)
        return unkop('count')
    if name == '__len__':
        return b_len(interp, [o], {})
    return unkop('listmethod', name)


def dict_method(interp, o, name, args, kw):
    c = interp.cell(o)
    if name == 'get':
        d = args[1] if len(args) > 1 else kw.get('default')
        k = interp.dkey(interp.res(args[0]))
        if k is None:
            return Op(node('dictget', interp.enc(o), interp.enc(args[0]), interp.enc(d)))
        if k in c.d:
            v = interp.res(c.d[k])
            if v is UNDEF:
                return d
            if isinstance(v, PyIte):
                dc = undef_cond(v)
                if dc is not TRUE:
                    return interp.merge_val(dc, defined_part(v), d)
            return v
        if c.base is None:
            return d
        h = cond_atom('haskey', c.base, str(k))
        return interp.cond_eval(h, lambda: dict_getitem(interp, o, args[0]), lambda: d)
    if name in ('keys', 'values', 'items'):
        if c.base is None and not any(isinstance(x, PyIte) and undef_cond(x) is not TRUE for x in c.d.values()):
            ks = [k for k in c.d if c.d[k] is not UNDEF]
            back = lambda k: Sc(num(k[1]), 'int') if isinstance(k, tuple) and k and k[0] == 'num' else (None if k == ('None',) else k)
            if name == 'keys':
                return tuple(back(k) for k in ks)
            if name == 'values':
                return tuple(interp.res(c.d[k]) for k in ks)
            return tuple((back(k), interp.res(c.d[k])) for k in ks)
        return unkop('dictiter')
    if name == 'copy':
        return interp.newdict(c.d, None, c.base)
    if name == 'update':
        interp.mutate(o, '.update')
        d = dict(c.d)
        base = c.base
        if args:
            b = interp.res(args[0])
            if is_dict(b):
                cb = interp.cell(b)
                for k, v in cb.d.items():
                    if v is not UNDEF:
                        d[k] = v
                base = cb.base or base
            else:
                base = node('unk', 'update')
        for k, v in kw.items():
            if k == '**':
                base = node('unk', 'update')
            else:
                d[k] = v
        interp.heap[o.id] = DictCell(d, c.origin, base)
        return None
    if name == 'pop':
        interp.mutate(o, '.pop')
        k = interp.dkey(interp.res(args[0]))
        v = dict_method(interp, o, 'get', args, {}) if len(args) > 1 else dict_getitem(interp, o, args[0])
        c = interp.cell(o)
        d = dict(c.d)
        if k is not None:
            d[k] = UNDEF
        interp.heap[o.id] = DictCell(d, c.origin, c.base)
        return v
    if name == 'setdefault':
        k = args[0]
        h = interp.truth(contains_op(interp, k, o))

        def setd():
            setitem(interp, o, k, args[1] if len(args) > 1 else None)
        interp.branch(h, lambda: None, setd)
        return dict_getitem(interp, o, k)
    if name == 'clear':
        interp.mutate(o, '.clear')
        interp.heap[o.id] = DictCell({}, c.origin)
        return None
    return unkop('dictmethod', name)


def defined_part(v):
    if isinstance(v, PyIte):
        if v.a is UNDEF:
            return defined_part(v.b)
        if v.b is UNDEF:
            return defined_part(v.a)
        a, b = defined_part(v.a), defined_part(v.b)
        return PyIte(v.c, a, b)
    return v


def str_method(interp, o, name, args, kw):
    if isinstance(o, str):
        if name == 'join':
            its = interp.concrete_items(interp.res(args[0]))
            if its is not None and all(isinstance(x, (str, Op)) for x in its):
                parts = []
                for i, x in enumerate(its):
                    if i:
                        parts.append(o)
                    parts.append(x if isinstance(x, str) else x.n)
                if all(isinstance(p, str) for p in parts):
                    return ''.join(parts)
                return Op(mkstr(parts), 'str')
            return Op(node('join', o, interp.enc(args[0])), 'str')
        if name == 'format':
            ps = strformat(interp, o, args, kw)
            if ps is not None:
                return ''.join(ps) if all(isinstance(q, str) for q in ps) else Op(mkstr(ps), 'str')
            return Op(node('strformat', o, *[interp.enc(x) for x in args], *[node('kv', k, interp.enc(v)) for k, v in sorted(kw.items())]), 'str')
        ca = []
        for x in args:
            x = interp.res(x)
            if isinstance(x, str) or x is None:
                ca.append(x)
            elif interp.cint(x) is not None:
                ca.append(interp.cint(x))
            elif isinstance(x, tuple) and all(isinstance(y, str) for y in x):
                ca.append(x)
            else:
                return Op(node('strmethod', o, name, *[interp.enc(y) for y in args]), 'str')
        if name in ('split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'startswith', 'endswith', 'replace', 'title',
                    'capitalize', 'partition', 'rpartition', 'splitlines', 'find', 'count', 'isdigit', 'removeprefix', 'removesuffix',
                    'zfill', 'ljust', 'rjust', 'center', 'index', 'isalpha', 'isalnum', 'casefold'):
            r = getattr(o, name)(*ca)
            if isinstance(r, bool):
                return r
            if isinstance(r, int):
                return i_(r)
            if isinstance(r, list):
                return interp.newlist(r)
            return r
    n = node('strmethod', interp.enc(o), name, *[interp.enc(x) for x in args])
    if name in ('startswith', 'endswith', 'isdigit'):
        return interp.mkbool(mkite(node('pred', 'strmethod', n), TRUE, FALSE))
    return Op(n, 'str')
