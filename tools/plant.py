"""Turn a planted-bug description into seeded/<id>/ after confirming it in a scratch copy.
usage: plant.py DESC.py...   (DESC defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
. /opt/vp/env.sh
export PYTHONPATH="$PWD"
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **env):
    e = dict(os.environ, **env)
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, env=e, capture_output=True, text=True)


def stable(cp):
    base = json.load(open('/opt/vp/BASELINE.json'))
    x = os.path.join(cp, '.junit.xml')
    sh(f'. /opt/vp/env.sh; PYTHONPATH={cp} {PY} -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --benchmark-disable '
       f'--continue-on-collection-errors -o junit_family=xunit2 --junitxml={x} tests/common tests/time', cp)
    res = {}
    for tc in ET.parse(x).iter('testcase'):
        bad = any(c.tag in ('failure', 'error') for c in tc)
        skip = any(c.tag == 'skipped' for c in tc)
        res[(tc.get('classname'), tc.get('name'))] = 'fail' if bad else 'skip' if skip else 'pass'
    os.remove(x)
    failed = [k for k, v in res.items() if v == 'fail']
    return len([1 for v in res.values() if v == 'pass']), failed


def main(path, tests=True):
    g = runpy.run_path(path)
    pid = os.path.basename(path)[:-3]
    cp = f'/tmp/plantcopy_{pid}'
    shutil.rmtree(cp, ignore_errors=True)
    shutil.copytree('/repo', cp, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', 'outcmaes'))
    try:
        for f, old, new in g['EDITS']:
            p = os.path.join(cp, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(pid, 'EDIT does not match once:', f, s.count(old), repr(old[:60]))
                return False
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cp).stdout
        d = os.path.join(HERE, 'seeded', pid)
        tmp = f'/tmp/plantdemo_{pid}'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(os.path.join(tmp, 'demo.py'), 'w').write(g['DEMO'].lstrip('\n'))
        open(os.path.join(tmp, 'demo.sh'), 'w').write(SH)
        a = sh(f'bash {tmp}/demo.sh', '/repo')
        b = sh(f'bash {tmp}/demo.sh', cp)
        ok = a.returncode == 0 and b.returncode != 0
        n, failed = stable(cp) if tests else (0, [])
        print(pid, 'clean', a.returncode, 'patched', b.returncode, (b.stderr.strip().splitlines() or [''])[-1][:150], 'tests pass', n, 'failed', failed[:5])
        if a.returncode:
            print(a.stderr[-800:])
        if not ok or failed:
            return False
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        shutil.rmtree(tmp, ignore_errors=True)
        return True
    finally:
        shutil.rmtree(cp, ignore_errors=True)


if __name__ == '__main__':
    r = [main(p) for p in sys.argv[1:]]
    sys.exit(not all(r))
