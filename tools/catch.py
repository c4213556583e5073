"""Run checks against planted bugs, each in a scratch copy of /repo. usage: catch.py [ID...]  (prints caught / missed)"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(i, props=None):
    d = os.path.join(HERE, 'seeded', i)
    m = json.load(open(os.path.join(d, 'meta.json')))
    w = f'/tmp/catch_{i}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree('/repo/bayeso', w + '/bayeso', ignore=shutil.ignore_patterns('__pycache__'))
    subprocess.run(['git', 'init', '-q', w], check=True)
    try:
        subprocess.run(['git', '-C', w, 'apply', os.path.join(d, 'patch.diff')], check=True)
        out = {}
        for p in props or [m['property']]:
            r = subprocess.run(['python3', 'run.py', p], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_EVID=w))
            v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            out[p] = (r.returncode, len(v))
        print(i, m['property'], {q: v for q, v in out.items() if v != (0, 0)} or 'MISSED', flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    props = None
    if '--all' in a:
        a.remove('--all')
        props = ['C%02d' % k for k in range(1, 25) if os.path.exists(os.path.join(HERE, 'checks', 'c%02d.py' % k))]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: run(i, props), a or sorted(os.listdir(os.path.join(HERE, 'seeded')))))
