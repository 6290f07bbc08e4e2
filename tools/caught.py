#!/usr/bin/env python3
"""caught.py [--all] ID...: run the check of each seeded bug's property (or all checks) against /repo with the patch applied"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
full = '--all' in a
ids = [x for x in a if x[0] != '-'] or sorted(os.listdir(V + '/seeded'))
m = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
for i in ids:
    d = V + '/seeded/' + i
    p = json.load(open(d + '/meta.json'))['property']
    r = {}
    try:
        subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
        for q in m if full else [p]:
            t = time.time()
            o = subprocess.run(['python3', 'check.py', q], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r[q] = (o.returncode, 'VIOLATION property=%s ' % q in o.stdout, round(time.time() - t), o.stdout.strip().splitlines()[-3:])
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    print(i, p, 'CAUGHT' if p in r and r[p][0] == 1 and r[p][1] else 'MISSED', r.get(p), 'also: ' + ' '.join(q for q in r if q != p and r[q][0] == 1) if full else '', flush=True)
