#!/usr/bin/env python3
"""Developer helper: create /verif/seeded/<id>/ from a spec module.
usage: mkseed.py SPEC.py   (SPEC defines SEEDS = [dict(id, property, needs, breaks, file, old, new, demo)])
Each seed is validated with tools/seedtest.sh afterwards."""
import sys, os, json, subprocess, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: behaviour intact; nonzero: broken.  Run with cwd /repo after the build.
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
    assert subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], text=True) == ''
    for f, old, new in edits:
        fn = '/repo/' + f
        t = open(fn).read()
        assert t.count(old) == 1, (s['id'], f, 'matches', t.count(old))
        open(fn, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True)
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(s['id'])
