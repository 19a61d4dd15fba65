#!/usr/bin/env python3
"""Developer helper: record /repo's fix: commits in known_findings.json (args PID ...: one per unrecorded commit, oldest first)."""
import json, subprocess, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(V, 'known_findings.json')
K = json.load(open(fn))
have = ' '.join(K['fixed'])
new = [l for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '6c913db..'],
       text=True).split('\n') if l and l.split()[0] not in have]
pids = sys.argv[1:]
for l, p in zip(new, pids):
    h, s = l.split(' ', 1)
    K['fixed'].append('fixed: property=%s %s %s' % (p, h, s.replace('fix: ', '')))
for l in new[len(pids):]:
    print('unrecorded:', l)
json.dump(K, open(fn, 'w'), indent=1)
