"""write properties.jsonl and MANIFEST.json"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.table import P

chk, na, lines = [], [], []
for x in P:
    r = x.pop('_na')
    lines.append(json.dumps(x))
    i = x['id']
    f = os.path.join(HERE, 'checks', i.lower() + '.py')
    if os.path.exists(f):
        m = importlib.import_module('checks.' + i.lower())
        chk.append(dict(property=i, quick_cmd=f'python3 run.py {i}', thorough_cmd=f'python3 run.py {i} --tier thorough', evidence_file=f'evidence/{i}.json',
                        technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.NOTE))
    else:
        na.append(dict(property=i, reason=r or 'check under construction'))
open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q sa spec checks run.py', checks=chk, not_applicable=na,
               hooks=dict(guard='none', enable='no hooks: the analysis reads the source of /repo as it is', source_commits=[])),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(chk), 'claimed', len(na), 'not applicable')
