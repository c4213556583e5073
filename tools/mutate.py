"""Mutation run: which single-site changes to the repository does a check report?  (development aid, not registered)
usage: mutate.py FILE[:FUNC,FUNC] ... -- CHECK...   [-n MAX] [-s SEED]"""
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

args = sys.argv[1:]
mx, seed = 60, 1
for fl in ('-n', '-s'):
    if fl in args:
        i = args.index(fl)
        if fl == '-n':
            mx = int(args[i + 1])
        else:
            seed = int(args[i + 1])
        del args[i:i + 2]
k = args.index('--')
files, checks = args[:k], args[k + 1:]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}


def sites(tree, funcs):
    out = []

    def vis(n, fn, logy):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = n.name if isinstance(n, ast.FunctionDef) else fn
        if isinstance(n, ast.Assert) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and 'logger' in ast.unparse(n):
            return
        if fn and (not funcs or fn in funcs) and not isinstance(n, (ast.arguments, ast.arg)):
            if isinstance(n, ast.Compare):
                out.append((n, 'cmp'))
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                out.append((n, 'bin'))
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                out.append((n, 'const'))
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append((n, 'bool'))
            if isinstance(n, ast.Call):
                for q in range(len(n.keywords)):
                    out.append((n, f'kw{q}'))
                if len(n.args) >= 2:
                    out.append((n, 'swap'))
            if isinstance(n, ast.If):
                out.append((n, 'neg'))
            if isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                out.append((n, 'del'))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                out.append((n, 'usub'))
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.FunctionDef) and (c is n.args or c in n.decorator_list or c is n.returns):
                continue
            vis(c, fn, logy)
    vis(tree, None, False)
    return out


def mutate(src, idx, funcs):
    t = ast.parse(src)
    n, kind = sites(t, funcs)[idx]
    before = ast.unparse(n)
    if kind == 'cmp':
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == 'bin':
        n.op = BIN[type(n.op)]()
    elif kind == 'const':
        n.value = n.value + 1 if isinstance(n.value, int) else (n.value * 1.5 if n.value else 1.0)
    elif kind == 'bool':
        n.value = not n.value
    elif kind[:2] == 'kw':
        del n.keywords[int(kind[2:])]
    elif kind == 'swap':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == 'neg':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == 'usub':
        n.op = ast.UAdd()
    elif kind == 'del':
        for p in ast.walk(t):
            for f in ('body', 'orelse'):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.copy_location(ast.Pass(), n)
        return ast.unparse(ast.fix_missing_locations(t)), f'{kind} L{n.lineno}: {before[:110]}'
    return ast.unparse(ast.fix_missing_locations(t)), f'{kind} L{n.lineno}: {before[:90]} -> {ast.unparse(n)[:90]}'


jobs = []
for f in files:
    f, _, fs = f.partition(':')
    fs = set(fs.split(',')) if fs else None
    src = open(f'/repo/bayeso/{f}').read()
    for i in range(len(sites(ast.parse(src), fs))):
        jobs.append((f, fs, src, i))
random.Random(seed).shuffle(jobs)
jobs = jobs[:mx]


def go(j):
    f, fs, src, i = j
    try:
        new, what = mutate(src, i, fs)
    except Exception as e:
        return None
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/bayeso', d + '/bayeso', ignore=shutil.ignore_patterns('__pycache__'))
        open(f'{d}/bayeso/{f}', 'w').write(new)
        res = []
        for c in checks:
            e = dict(os.environ, VERIF_REPO=d, VERIF_EVID=d)
            r = subprocess.run([sys.executable, HERE + '/run.py', c], capture_output=True, text=True, env=e, timeout=900)
            if r.returncode == 1:
                res.append(c)
                break
            if 'undecided' in r.stdout and ' 0 undecided' not in r.stdout:
                res.append(c + '?')
        return f, what, res
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(4) as ex:
    tot = hit = 0
    for r in ex.map(go, jobs):
        if r is None:
            continue
        tot += 1
        if any('?' not in x for x in r[2]):
            hit += 1
        else:
            print('survived', r[2], r[0], r[1], flush=True)
print(f'{hit}/{tot} reported')
