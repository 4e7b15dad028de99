#!/usr/bin/env python3
"""Run the checks against planted bugs, each in a scratch copy of /repo (VERIF_REPO)."""
import os, sys, json, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(V, 'seeded')))
for i in ids:
    d = os.path.join(V, 'seeded', i); m = json.load(open(d + '/meta.json'))
    t = '/tmp/rs-tree'; shutil.rmtree(t, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', t], check=True)
    r = subprocess.run(['git', '-C', t, 'apply', d + '/patch.diff'])
    if r.returncode: print(i, 'PATCH DOES NOT APPLY'); continue
    t0 = time.time()
    p = subprocess.run([sys.executable, V + '/check.py', m['property']], env=dict(os.environ, VERIF_REPO=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = p.stdout.decode()
    v = [l for l in o.splitlines() if l.startswith('VIOLATION') or 'violated' in l]
    print('%-24s %s rc=%d %.0fs %s' % (i, m['property'], p.returncode, time.time() - t0, ' | '.join(v)[:260] if v else 'MISSED: ' + o[-400:]), flush=True)
    shutil.rmtree(t, ignore_errors=True)
