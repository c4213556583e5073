"""Sign analysis of source expressions, valid in floating point.

N  non-negative by construction (square, absolute value, maximum with a non-negative
   number, sums / products / means / selections of such values, ...)
D  may be negative: a difference, a negated value or a product with such a value,
   with nothing in between that excludes negative results
U  not known

Flow-sensitive over statements, joins at merges, one level of context per call (the
signs of the arguments); loops are iterated to a fixpoint of the three-point lattice.
"""
import ast

KEEP = {'sum', 'mean', 'average', 'diag', 'diagonal', 'squeeze', 'expand_dims', 'reshape', 'ravel', 'flatten', 'array', 'asarray', 'atleast_1d', 'atleast_2d', 'copy', 'transpose',
        'float', 'min', 'max', 'amin', 'amax', 'nanmean', 'median', 'concatenate', 'vstack', 'hstack', 'stack', 'tile', 'repeat', 'trace', 'astype', 'item', 'take', 'cumsum', 'sort', 'nansum', 'float64', 'broadcast_to', 'asfarray', 'tolist'}
POS = {'abs', 'absolute', 'fabs', 'square', 'var', 'std', 'exp', 'sqrt', 'norm', 'zeros', 'ones', 'zeros_like', 'ones_like', 'eye', 'len', 'cdist', 'pdist', 'norm_cdf', 'cosh', 'hypot', 'nanvar', 'nanstd', 'count_nonzero', 'arange_'}
SQRT = {'sqrt'}


def join(a, b):
    if a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(join(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return 'U'
    return 'U' if 'U' in (a, b) else 'D'


def flat(s):
    if isinstance(s, tuple):
        r = 'N'
        for x in s:
            r = join(r, flat(x))
        return r
    return s


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


class Sign:
    def __init__(self, funcs):
        """funcs: name -> FunctionDef of the module under analysis and its imports"""
        self.funcs = funcs
        self.sites = []          # (function, line, text, sign)
        self.stack = []
        self.fn = '?'

    def run(self, f, args=None):
        """signs of the returned values of FunctionDef f"""
        ps = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
        env = {p: 'U' for p in ps}
        nd = len(f.args.defaults)
        for p, dv in zip(ps[len(f.args.args) - nd:] if nd else [], f.args.defaults):
            env[p] = 'U'
        env.update({k: v for k, v in (args or {}).items() if k in env})
        if len(self.stack) > 12 or f.name in self.stack:
            return 'U'
        self.stack.append(f.name)
        old = self.fn
        self.fn = f.name
        rets = []
        self.block(f.body, env, rets)
        self.fn = old
        self.stack.pop()
        if not rets:
            return 'U'
        r = rets[0]
        for x in rets[1:]:
            r = join(r, x)
        return r

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.assign(x, v[i] if isinstance(v, tuple) and i < len(v) else flat(v) if isinstance(v, tuple) else 'U', env)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            b = t.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                env[b.id] = 'U'
            self.ev(t.value, env)

    def block(self, body, env, rets):
        """returns True when control does not continue"""
        for s in body:
            if isinstance(s, ast.Return):
                rets.append(self.ev(s.value, env) if s.value is not None else 'U')
                return True
            if isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
                return True
            if isinstance(s, ast.Assign):
                v = self.ev(s.value, env)
                for t in s.targets:
                    self.assign(t, v, env)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
            elif isinstance(s, ast.AugAssign):
                if isinstance(s.target, ast.Name):
                    env[s.target.id] = self.binop(s.op, env.get(s.target.id, 'U'), self.ev(s.value, env), s.target, s.value)
                else:
                    self.ev(s.value, env)
                    self.assign(s.target, 'U', env)
            elif isinstance(s, ast.If):
                self.ev(s.test, env)
                a, b = dict(env), dict(env)
                ta, tb = self.block(s.body, a, rets), self.block(s.orelse, b, rets)
                tn = names(s.test)
                if ta and tb:
                    return True
                m = b if ta else a if tb else {k: join(a.get(k, 'U'), b.get(k, 'U')) for k in set(a) | set(b)}
                for k in list(m):
                    if k in tn and flat(m[k]) == 'D':
                        m[k] = 'U'            # a test on the value itself may exclude negative results
                env.clear()
                env.update(m)
            elif isinstance(s, (ast.For, ast.While)):
                if isinstance(s, ast.For):
                    it = self.ev(s.iter, env)
                for _ in range(3):
                    e = dict(env)
                    if isinstance(s, ast.For):
                        self.assign(s.target, 'U', e)
                    self.block(s.body, e, rets)
                    for k in e:
                        env[k] = join(env[k], e[k]) if k in env else e[k]
                self.block(s.orelse, env, rets)
            elif isinstance(s, ast.With):
                for i in s.items:
                    self.ev(i.context_expr, env)
                    if i.optional_vars is not None:
                        self.assign(i.optional_vars, 'U', env)
                if self.block(s.body, env, rets):
                    return True
            elif isinstance(s, ast.Try):
                e = dict(env)
                self.block(s.body, e, rets)
                for hd in s.handlers:
                    self.block(hd.body, dict(e), rets)
                for k in e:
                    env[k] = join(env[k], e[k]) if k in env else e[k]
                self.block(s.orelse, env, rets)
                self.block(s.finalbody, env, rets)
            elif isinstance(s, ast.Expr):
                self.ev(s.value, env)
                if isinstance(s.value, ast.Call):          # in-place methods and out= arguments
                    f = s.value.func
                    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
                        if f.attr == 'append' and s.value.args:
                            env[f.value.id] = join(flat(env.get(f.value.id, 'N')), flat(self.ev(s.value.args[0], env)))
                        elif f.value.id in env and f.attr not in ('sort',):
                            env[f.value.id] = 'U'
                    for kw in s.value.keywords:
                        if kw.arg == 'out' and isinstance(kw.value, ast.Name):
                            env[kw.value.id] = 'U'
                    for a in s.value.args:
                        if isinstance(a, ast.Name) and isinstance(f, ast.Attribute) and f.attr in ('copyto', 'putmask', 'place', 'fill_diagonal', 'maximum'):
                            env[a.id] = 'U'
            elif isinstance(s, ast.Assert):
                self.ev(s.test, env)
                for k in names(s.test):
                    if flat(env.get(k, 'U')) == 'D':
                        env[k] = 'U'
            elif isinstance(s, ast.FunctionDef):
                self.funcs.setdefault(s.name, s)
        return False

    def binop(self, op, a, b, l, r):
        a, b = flat(a), flat(b)
        if isinstance(op, ast.Sub):          # counts such as n - 1 are not predictive quantities
            return 'U' if isinstance(l, ast.Constant) or isinstance(r, ast.Constant) else 'D'
        if isinstance(op, ast.Add):
            return 'N' if (a, b) == ('N', 'N') else 'D' if 'D' in (a, b) else 'U'
        if isinstance(op, (ast.Mult, ast.Div, ast.FloorDiv)):
            if isinstance(op, ast.Mult) and ast.dump(l) == ast.dump(r):
                return 'N'
            return 'N' if (a, b) == ('N', 'N') else 'D' if 'D' in (a, b) else 'U'
        if isinstance(op, ast.MatMult):
            return 'N' if (a, b) == ('N', 'N') else 'U'
        if isinstance(op, ast.Pow):
            if isinstance(r, ast.Constant) and isinstance(r.value, (int, float)) and float(r.value) % 2 == 0:
                return 'N'
            return 'N' if a == 'N' else 'U'
        return 'U'

    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool) or not isinstance(e.value, (int, float)):
                return 'U'
            return 'N' if e.value >= 0 else 'D'
        if isinstance(e, ast.Name):
            return env.get(e.id, 'U')
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.USub):
                return 'D'
            return v
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Constant) and e.right.value == 0.5:
                self.site(e, flat(a))
                return 'N'
            return self.binop(e.op, a, b, e.left, e.right)
        if isinstance(e, (ast.Tuple, ast.List)):
            return tuple(self.ev(x, env) for x in e.elts)
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, env)
            self.ev(e.slice, env)
            if isinstance(v, tuple):
                if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(v) <= e.slice.value < len(v):
                    return v[e.slice.value]
                return flat(v)
            return v
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value, env)
            return v if e.attr in ('T', 'real', 'flat') else 'U'
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            a, b = self.ev(e.body, env), self.ev(e.orelse, env)
            r = join(a, b)
            return 'U' if flat(r) == 'D' and isinstance(e.test, (ast.Compare, ast.BoolOp)) else r
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            e2 = dict(env)
            for g in e.generators:
                self.ev(g.iter, e2)
                self.assign(g.target, 'U', e2)
            return flat(self.ev(e.elt, e2))
        if isinstance(e, ast.Lambda):
            return 'U'
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.ev(x, env)
            return 'U'
        return 'U'

    def site(self, e, s):
        self.sites.append((self.fn, e.lineno, ast.unparse(e)[:120], s))

    def call(self, e, env):
        f = e.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        a = [self.ev(x.value if isinstance(x, ast.Starred) else x, env) for x in e.args]
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        ismod = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in env
        recv = self.ev(f.value, env) if isinstance(f, ast.Attribute) and not ismod else None
        if nm in SQRT and (a or 'x' in kw):
            self.site(e, flat(a[0]) if a else flat(kw['x']))
            return 'N'
        if nm == 'power' and len(e.args) == 2 and isinstance(e.args[1], ast.Constant):
            if e.args[1].value == 0.5:
                self.site(e, flat(a[0]))
            return self.binop(ast.Pow(), a[0], a[1], e.args[0], e.args[1])
        if nm in ('maximum', 'fmax') or nm == 'max' and isinstance(f, ast.Name) and len(a) >= 2:
            return 'N' if any(flat(x) == 'N' for x in a) else 'D' if all(flat(x) == 'D' for x in a) else 'U'
        if nm in ('minimum', 'fmin') or nm == 'min' and isinstance(f, ast.Name) and len(a) >= 2:
            r = [flat(x) for x in a]
            return 'N' if all(x == 'N' for x in r) else 'D' if 'D' in r else 'U'
        if nm == 'clip':
            lo = kw.get('a_min', kw.get('min'))
            if recv is not None:
                lo = a[0] if a else lo
                base = recv
            else:
                base = a[0] if a else 'U'
                lo = a[1] if len(a) > 1 else lo
            if lo is None:
                return flat(base)
            return 'N' if flat(lo) == 'N' or flat(base) == 'N' else 'U'
        if nm == 'where' and len(a) == 3:
            r = [flat(a[1]), flat(a[2])]
            return 'N' if r == ['N', 'N'] else 'U'
        if nm in ('add', 'multiply', 'divide', 'subtract', 'true_divide') and len(a) == 2:
            op = dict(add=ast.Add, multiply=ast.Mult, divide=ast.Div, true_divide=ast.Div, subtract=ast.Sub)[nm]()
            return self.binop(op, a[0], a[1], e.args[0], e.args[1])
        if nm == 'negative':
            return 'D'
        if nm in ('dot', 'matmul', 'einsum', 'inner', 'outer', 'vdot'):
            xs = [flat(x) for x in a] + ([flat(recv)] if recv is not None else [])
            return 'N' if xs and all(x == 'N' for x in xs) else 'U'
        if nm in POS:
            return 'N'
        if nm in KEEP:
            if recv is not None:
                return flat(recv)
            return flat(a[0]) if a else 'U'
        if nm in self.funcs:
            g = self.funcs[nm]
            ps = [x.arg for x in g.args.posonlyargs + g.args.args + g.args.kwonlyargs]
            m = dict(zip(ps, a))
            m.update({k: v for k, v in kw.items() if k})
            return self.run(g, m)
        return 'U'


def analyse(trees, modname, entry):
    """trees: {module: ast.Module}; signs of every square root reached from function `entry` of `modname`"""
    funcs = {}
    for m, t in trees.items():
        for s in ast.walk(t):
            if isinstance(s, ast.FunctionDef):
                if m == modname or s.name not in funcs:
                    funcs[s.name] = s
    for s in ast.walk(trees[modname]):
        if isinstance(s, ast.FunctionDef):
            funcs[s.name] = s
    a = Sign(funcs)
    a.run(funcs[entry])
    return a.sites
